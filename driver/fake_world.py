"""Worlds of made-up type stubs: writes a directory with a package named mypy that has
nothing but stubs, and runtime modules for the code under test to index."""
import json
import os
import shutil

HERE = os.path.dirname(os.path.abspath(__file__))
SUT = os.environ.get('VP_SUT', '')

BUILTINS = '''
from typing import Any, Generic, TypeVar
_T = TypeVar("_T")
_K = TypeVar("_K")
_V = TypeVar("_V")
class object:
    def __init__(self) -> None: ...
    def __new__(cls) -> Any: ...
    def __eq__(self, __o: object) -> bool: ...
class type:
    def __init__(self, o: object) -> None: ...
class int:
    def __new__(cls, x: object = ...) -> int: ...
class bool(int): ...
class float: ...
class str:
    def __new__(cls, s: object = ...) -> str: ...
class bytes: ...
class list(Generic[_T]):
    def append(self, __item: _T) -> None: ...
class dict(Generic[_K, _V]):
    def pop(self, __key: _K) -> _V: ...
class tuple(Generic[_T]): ...
class property: ...
class classmethod: ...
class staticmethod: ...
class BaseException:
    def __init__(self, *args: object) -> None: ...
class Exception(BaseException): ...
def len(__obj: object) -> int: ...
def abs(__x: int) -> int: ...
'''
TYPING = '''
class TypeVar: ...
class ParamSpec: ...
class NamedTuple: ...
Any = object()
Union: _Form
Optional: _Form
Callable: _Form
Literal: _Form
Generic: _Form
Protocol: _Form
ClassVar: _Form
Self: _Form
Tuple: _Form
Type: _Form
List = list
Dict = dict
class _Form: ...
def overload(func: object) -> object: ...
def final(func: object) -> object: ...
'''
BASE = {'builtins': BUILTINS, 'typing': TYPING,
        'typing_extensions': 'from typing import Any as Any\n',
        'sys': 'platform: str\nversion_info: tuple[int]\n'}


def file_of(root, name, package, suffix):
    parts = name.split('.')
    return os.path.join(root, *(parts + ['__init__'] if package else parts)) + suffix


def write_modules(root, modules, suffix):
    """modules: name -> text; the ones having submodules are packages."""
    packages = {'.'.join(n.split('.')[:i]) for n in modules
                for i in range(1, len(n.split('.')))}
    for name, text in modules.items():
        path = file_of(root, name, name in packages, suffix)
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, 'w') as file:
            file.write(text)


def write(root, stubs, runtime=(), sut=None):
    """A root for fake_run.py."""
    fake = os.path.join(root, 'mypy')
    os.makedirs(os.path.join(fake, 'typeshed', 'stdlib'))
    for name, text in [('__init__.py', ''), ('version.py', '__version__ = "0.1"\n')]:
        with open(os.path.join(fake, name), 'w') as file:
            file.write(text)
    write_modules(os.path.join(fake, 'typeshed', 'stdlib'), {**BASE, **stubs},
                  '.pyi')
    os.makedirs(os.path.join(root, 'rt'))
    write_modules(os.path.join(root, 'rt'), dict(runtime), '.py')
    if sut:
        os.makedirs(os.path.join(root, 'sut'))
        shutil.copytree(os.path.join(sut, 'paradigm'),
                        os.path.join(root, 'sut', 'paradigm'),
                        ignore=shutil.ignore_patterns('__pycache__', '_mypy_*'))


def typeshed(root):
    return os.path.join(root, 'mypy', 'typeshed', 'stdlib')


def enter(root):
    """Makes the code under test see the made-up world; call before importing it."""
    import sys
    import sysconfig
    real = sysconfig.get_path
    sysconfig.get_path = lambda *args, **kwargs: os.path.join(root, 'rt')
    for part in ('rt', '', 'sut'):
        sys.path.insert(0, os.path.join(root, part) if part else root)
    names = {name.partition('.')[0] for directory in (typeshed(root),
                                                      os.path.join(root, 'rt'))
             for name in os.listdir(directory)}
    sys.stdlib_module_names = sys.stdlib_module_names | names
    return real


def leave(real):
    import sysconfig
    sysconfig.get_path = real


def load(path):
    with open(path) as file:
        return [json.loads(line) for line in file]
