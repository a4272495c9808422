seed('B18', 'C18', [('satella/coding/resources/cp_manager.py', '''        self.id_to_times[id(connection)] = self.max_cycle_no
''', '''        self.id_to_times[id(connection)] += self.max_cycle_no - 2
''')], '''
from satella.coding.resources import CPManager


class Pool(CPManager):
    def create_connection(self):
        return object()

    def teardown_connection(self, connection):
        torn.append(connection)


torn = []
p = Pool(5, 10)
c = p.acquire_connection()
p.fail_connection(c)
p.release_connection(c)
assert torn == [c], 'a failed connection is kept for further use'
''', 'a connection fails during its first use', 'a failed connection can be given out again')
