"""Walks over the modules and classes of the standard library."""
import importlib
import os
import sys

AVOID = ('antigravity', 'crypt', 'idlelib', 'lib2to3.pgen2.conv', 'this', 'tkinter',
         'turtle', 'turtledemo', 'distutils', 'msilib', 'encodings.mbcs',
         'encodings.oem', 'asyncio.windows_events', 'asyncio.windows_utils',
         'ctypes.wintypes', 'multiprocessing.popen_spawn_win32')


def avoided(name):
    return (any(name == a or name.startswith(a + '.') for a in AVOID)
            or name.endswith('__main__')
            or any(p.startswith(('_test', 'test_')) or p in ('test', 'tests')
                   or p.endswith('_test') for p in name.split('.')))


def module(name):
    if avoided(name):
        return None
    try:
        return importlib.import_module(name)
    except Exception:
        return None


def module_names():
    names = set(sys.builtin_module_names)
    directory = os.path.dirname(os.__file__)
    for root, directories, files in os.walk(directory):
        relative = os.path.relpath(root, directory)
        parts = [] if relative == '.' else relative.split(os.sep)
        if 'site-packages' in parts or '__pycache__' in parts \
                or 'lib-dynload' in parts:
            continue
        for file in files:
            stem, _, suffix = file.partition('.')
            if '.' + suffix == '.py':
                names.add('.'.join(parts + ([] if stem == '__init__' else [stem])))
    return sorted(name for name in names
                  if name and all(p.isidentifier() for p in name.split('.')))


def owners(modules=None):
    """(module name, module or class, path) in a fixed order, classes once."""
    seen = set()

    def walk(owner, m, path):
        yield m, owner, path
        for name, value in list(vars(owner).items()):
            if isinstance(value, type) and value not in seen:
                seen.add(value)
                yield from walk(value, m, path + [name])
    for name in module_names() if modules is None else modules:
        m = module(name)
        if m is not None:
            yield from walk(m, name, [])
