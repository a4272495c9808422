seed('B28', 'C28', [('satella/files.py', '''        self.prev_path = None
        os.makedirs(''', '''        self.prev_path = os.getcwd()
        os.makedirs('''), ('satella/files.py', '''        self.prev_path = os.getcwd()
        os.chdir(self.path)
''', '''        os.chdir(self.path)
''')], '''
import os, tempfile, shutil
from satella.files import jump_to_directory
d = os.path.realpath(tempfile.mkdtemp())
here = os.getcwd()
try:
    j = jump_to_directory(os.path.join(d, 'a'))
    os.mkdir(os.path.join(d, 'b'))
    os.chdir(os.path.join(d, 'b'))
    with j:
        assert os.getcwd() == os.path.join(d, 'a')
    assert os.getcwd() == os.path.join(d, 'b'), os.getcwd()
finally:
    os.chdir(here)
    shutil.rmtree(d)
''', 'moving to another directory between making the object and entering it', 'the working directory is not restored to where it was before the jump')
