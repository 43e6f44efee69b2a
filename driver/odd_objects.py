"""Unusual objects of user code to ask about, by name.  Every one is made anew on each
call, so that sessions and threads can have their own."""
import abc
import ast
import asyncio
import collections
import contextlib
import dataclasses
import enum
import functools
import operator
import os
import random
import sys
import types
import typing
import weakref

import mypy

from ask_lib import Hostile

MAKERS = {}


def odd(function):
    MAKERS[function.__name__] = function
    return function


def plain(a, b=1):
    pass


def renamed(attribute, value, cls=False):
    if cls:
        return type('A', (), {attribute: value})

    def g(x):
        pass
    setattr(g, attribute, value)
    return g


for index, value in enumerate([None, 5, '', '.', 'a..b', '__main__', 'builtins',
                               'typing', 'os.path', 'nowhere.at_all', 'collections',
                               '_nonexistent', 'posixpath']):
    MAKERS[f'function_module_{index}'] = (
        lambda value=value: renamed('__module__', value))
    MAKERS[f'class_module_{index}'] = (
        lambda value=value: renamed('__module__', value, True))
for index, value in enumerate(['', '.', 'a..b', 'len', 'dict', 'dict.pop',
                               'f.<locals>.g', '<lambda>', 'dict.<locals>.pop']):
    MAKERS[f'function_name_{index}'] = (
        lambda value=value: renamed('__qualname__', value))


@odd
def class_module_property():
    return type('A', (), {'__module__': property(lambda self: 'x')})


@odd
def class_without_name():
    return type('', (), {})


@odd
def class_name_empty():
    A = type('A', (), {})
    A.__qualname__ = ''
    return A


@odd
def wrapped_in_itself():
    def g():
        pass
    g.__wrapped__ = g
    return g


@odd
def wrong_signature_attribute():
    def g():
        pass
    g.__signature__ = 5
    return g


@odd
def wrong_signature_attribute_of_class():
    return type('A', (), {'__signature__': 5})


@odd
def metaclass_call():
    class M(type):
        def __call__(cls, *a, **k):
            return 1
    return M('A', (), {})


@odd
def unhashable_class():
    class M(type):
        __hash__ = None
    return M('A', (), {})


class Incomparable:
    def __eq__(self, other):
        raise RuntimeError
    __hash__ = object.__hash__

    def m(self):
        pass


@odd
def method_of_incomparable():
    return Incomparable().m


@odd
def callable_instance():
    return types.SimpleNamespace(c=type('A', (), {'__call__': lambda self, x: x}))\
        .c()


class Grumpy(list):
    def __getattr__(self, name):
        raise RuntimeError

    def __len__(self):
        raise RuntimeError

    def __repr__(self):
        raise RuntimeError

    def __eq__(self, other):
        raise RuntimeError
    __hash__ = None


@odd
def builtin_method_of_grumpy():
    return list.append.__get__(Grumpy())


@odd
def method_wrapper_of_grumpy():
    return list.__len__.__get__(Grumpy())


class Silent(list):
    def __getattribute__(self, name):
        raise RuntimeError


@odd
def builtin_method_of_silent():
    return list.append.__get__(Silent())


@odd
def method_wrapper_of_silent():
    return list.__len__.__get__(Silent())


@odd
def partial_too_many():
    return functools.partial(plain, 1, 2, 3)


@odd
def partial_unhashable():
    return functools.partial(plain, [], {})


@odd
def partial_of_class():
    return functools.partial(int, '5')


@odd
def partial_of_instance():
    return functools.partial(callable_instance(), 1)


@odd
def partial_of_subclass():
    class P(functools.partial):
        pass
    return P(plain, 1)


@odd
def partial_method():
    return functools.partialmethod(plain, 1)


for index, callee in enumerate([len, int, plain, functools.partial(plain),
                                print, str.upper, type, object(), dict.fromkeys,
                                abs.__call__, classmethod(plain),
                                functools.lru_cache(plain)]):
    MAKERS[f'method_of_{index}'] = lambda callee=callee: (
        types.MethodType(callee, [1]) if callable(callee) else None)
    MAKERS[f'class_method_of_{index}'] = lambda callee=callee: (
        type('A', (), {'m': classmethod(callee)}).m)
    MAKERS[f'attribute_{index}'] = lambda callee=callee: (
        getattr(type('A', (list,), {'m': callee})([1]), 'm'))
    MAKERS[f'new_{index}'] = lambda callee=callee: type('A', (), {'__new__': callee})
    MAKERS[f'init_{index}'] = lambda callee=callee: type('A', (),
                                                         {'__init__': callee})
    MAKERS[f'wrapping_{index}'] = lambda callee=callee: (
        functools.wraps(callee)(lambda *args, **kwargs: 0))
    MAKERS[f'partial_of_{index}'] = lambda callee=callee: (
        functools.partial(callee) if callable(callee) else None)


@odd
def method_without_receiver():
    class A:
        def m():
            pass
    return A().m


@odd
def class_method_without_receiver():
    class A:
        @classmethod
        def m():
            pass
    return A.m


@odd
def method_of_class_by_hand():
    return types.MethodType(plain, int)


@odd
def unresolved_annotations():
    def g(x: 'nonexistent') -> 'also nonexistent':
        pass
    return g


class Weird:
    def __eq__(self, other):
        raise Hostile

    def __bool__(self):
        raise Hostile

    def __repr__(self):
        return 'Weird()'
    __hash__ = object.__hash__


WEIRD = Weird()


@odd
def weird_defaults():
    def g(x=WEIRD, *, y=WEIRD):
        pass
    return g


@odd
def weird_annotations():
    def g(x: WEIRD, *args: WEIRD) -> WEIRD:
        pass
    return g


@odd
def implicit_argument():
    return types.FunctionType(compile('(i for i in y)', '', 'eval').co_consts[0], {})


@odd
def coroutine_function():
    async def g(x, *, y: int = 1):
        pass
    return g


@odd
def enumeration():
    return enum.Enum('E', 'a b')


@odd
def data_class():
    return dataclasses.make_dataclass('D', [('x', int), ('y', int, 1)])


@odd
def data_class_builtin_name():
    return dataclasses.make_dataclass('dict', [('x', int)])


@odd
def named_tuple():
    return collections.namedtuple('N', 'a b')


@odd
def typed_named_tuple():
    return typing.NamedTuple('N', [('a', int)])


@odd
def typed_dict():
    return typing.TypedDict('T', {'a': int})


@odd
def protocol():
    class P(typing.Protocol):
        def m(self, x): ...
    return P


@odd
def generic():
    class G(typing.Generic[typing.TypeVar('T')]):
        def __init__(self, x): ...
    return G


for index, base in enumerate([int, dict, type, Exception, functools.partial, str,
                              collections.OrderedDict, tuple, asyncio.Task, object,
                              abc.ABC, contextlib.ExitStack, types.ModuleType,
                              enum.Enum, BaseException, property, list]):
    MAKERS[f'class_of_{index}'] = lambda base=base: types.new_class('X', (base,))
    MAKERS[f'class_named_as_{index}'] = lambda base=base: types.new_class(
        base.__name__, (base,))

EXTRA = [
    None, 1, 'x', [], {}, ..., NotImplemented, property(), staticmethod(plain),
    classmethod(plain), typing.List[int], list[int], typing.Any, int | str,
    weakref.ref(sys.modules[__name__]), operator.itemgetter(1),
    operator.attrgetter('a'), operator.methodcaller('a'), functools.lru_cache(plain),
    functools.singledispatch(plain), functools.cached_property(plain),
    plain.__get__, plain.__call__, plain.__get__(1).__call__, int.__new__,
    object.__init__, object().__init__, type.__call__, int.__call__, type, object,
    super, super(int, 5), super(bool, True).__add__, print.__call__,
    [].__len__.__call__, staticmethod(plain).__get__,
    (lambda: 1).__code__.co_lines, str.__dict__['maketrans'],
    dict.__dict__['fromkeys'], dict.fromkeys, {}.fromkeys, int.from_bytes,
    (1).from_bytes, int.__dict__['from_bytes'], object.__init_subclass__,
    object.__subclasshook__, type.__subclasses__, int.__subclasses__, type.mro,
    int.mro, type.__prepare__, types.FunctionType, types.MethodType,
    types.GeneratorType, type(None), type(...), types.CellType, types.UnionType,
    type(sys.flags), type(iter([])), type({}.keys()), types.DynamicClassAttribute,
    types.SimpleNamespace, types.SimpleNamespace(), typing.NewType('N', int),
    type('X', (), {'__slots__': ('a',)}).a, contextlib.nullcontext().__enter__,
    sys.modules[__name__], typing.TypeVar('T'), typing.Generic, typing.Protocol,
    (i for i in ()), iter([]), {}.keys(), memoryview(b''), range(3), slice(1),
    zip(), b''.join, ''.join, 'a'.__add__, (1).__add__, 1.5.__round__, [].sort,
    {}.get, set().add, frozenset().union, object().__eq__, None.__eq__,
    (...).__eq__, NotImplemented.__eq__, type.__or__, int.__or__, sys.stdout,
    types.MappingProxyType({}).get, functools.partial(print, 1).__call__,
    functools.partial(functools.partial(int)), functools.partial(functools.partial),
    asyncio.sleep, asyncio.Future, contextlib.contextmanager(plain)]
for index, value in enumerate(EXTRA):
    MAKERS[f'extra_{index}_{type(value).__name__}'] = lambda value=value: value


def all_objects():
    for name, make in MAKERS.items():
        try:
            value = make()
        except TypeError:
            continue        # not makable in this Python
        yield name, value


def spoofed(seed, count):
    """Functions and classes that claim names of definitions of stubs."""
    rng, names = random.Random(seed), []

    def walk(body, module_path, path):
        found = {}
        for node in body:
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                found.setdefault(node.name, []).append(node)
            elif isinstance(node, (ast.Assign, ast.AnnAssign)):
                for target in getattr(node, 'targets', None) or [node.target]:
                    if isinstance(target, ast.Name):
                        found.setdefault(target.id, [])
            elif isinstance(node, ast.If):
                for name, nodes in walk(node.body + node.orelse, None, path).items():
                    found.setdefault(name, []).extend(nodes)
        if module_path is None:
            return found
        for name, nodes in sorted(found.items()):
            names.append((module_path, (*path, name)))
            for node in nodes:
                if isinstance(node, ast.ClassDef):
                    walk(node.body, module_path, (*path, name))
        return found
    stdlib = os.path.join(os.path.dirname(mypy.__file__), 'typeshed', 'stdlib')
    for directory, _, files in sorted(os.walk(stdlib)):
        for name in sorted(files):
            file_path, suffix = os.path.splitext(os.path.join(directory, name))
            if suffix == '.pyi':
                module_path = os.path.relpath(file_path, stdlib).split(os.sep)
                if module_path[-1] == '__init__':
                    module_path.pop()
                with open(file_path + suffix) as file:
                    walk(ast.parse(file.read()).body, module_path, ())
                names.append((module_path, ('nothing',)))
    for module_path, path in (names if not count
                              else rng.sample(names, min(count, len(names)))):
        module, qualname = '.'.join(module_path), '.'.join(path)

        def g(self, *args, key=None):
            pass
        g.__module__, g.__qualname__ = module, qualname
        yield f'function {module}:{qualname}', g
        c = type('c', (), {'__module__': module, '__qualname__': qualname})
        yield f'class {module}:{qualname}', c
