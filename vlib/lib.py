"""In-process access to the libraries of the repository."""
import os
import sys

from .app import REPO, HarnessError

if REPO not in sys.path:
    sys.path.insert(0, REPO)


def load(name):
    import importlib
    m = importlib.import_module(name)
    if not os.path.realpath(m.__file__).startswith(os.path.realpath(REPO) + os.sep):
        raise HarnessError(f'{name} imported from {m.__file__}, not from {REPO}')
    return m
