"""setup_cmd: verifies that the tree under test can be copied and imported."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common
common.prepare()
code, errors = common.transpile('interface A { a: string }\n')
assert 'class A' in code
print('setup ok')
