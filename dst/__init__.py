"""Deterministic simulation of sdepy."""
import importlib.machinery
import importlib.util
import os
import sys


class _Loader(importlib.machinery.SourceFileLoader):
    """Compiles the source: never uses cached bytecode, possibly stale"""

    def path_stats(self, path):
        raise OSError


class _Finder:
    """sdepy is always imported from $SDEPY_ROOT, freshly compiled"""

    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != 'sdepy' and not name.startswith('sdepy.'):
            return None
        base = os.path.join(os.path.realpath(os.environ.get('SDEPY_ROOT',
                                                            '/repo')),
                            *name.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.isfile(init):
            return importlib.util.spec_from_file_location(
                name, init, loader=_Loader(name, init),
                submodule_search_locations=[base])
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(
                name, base + '.py', loader=_Loader(name, base + '.py'))
        return None


sys.meta_path.insert(0, _Finder)
