"""Runs the application and writes down the names of the environment variables it asked for: spy.py LIST [ARGUMENT...]"""
import atexit
import os
import sys

names = set()
store = type(os.environ)
regular = store.__getitem__


def asked(self, key):
    names.add(str(key))
    return regular(self, key)


def save(path=sys.argv[1]):
    with open(path, 'w') as f:
        f.write('\n'.join(sorted(names)))


store.__getitem__ = asked
atexit.register(save)
sys.argv[:] = ['kolombos'] + sys.argv[2:]
sys.path[0] = ''

import runpy

runpy.run_module('kolombos', run_name='__main__')
