seed('B27', 'C27', [('satella/configuration/schema/from_json.py', """        optional = value.get('optional', optional)
""", """        optional = value.get('optional') or optional
""")], '''
from satella.configuration.schema import descriptor_from_dict
from satella.exceptions import ConfigurationValidationError
s = descriptor_from_dict({'a': {'type': 'int', 'default': 5, 'optional': False}})
try:
    r = s({})
except ConfigurationValidationError:
    pass
else:
    raise AssertionError(r)
''', 'a default together with optional: False', 'a key declared as required is taken for an optional one')
