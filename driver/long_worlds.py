"""Worlds of made-up stubs that are small in kind and long in extent: chains of aliases,
of imports, of bases, of types, of overloads, and deep nesting."""


def ask(m, *path, how='plain'):
    return {'id': f'{m}:{".".join(path)}', 'm': m, 'p': list(path), 'how': how}


def aliases(m, n):
    lines = ['def f0(x: int, *, y: str = ...) -> bytes: ...']
    lines += [f'f{i} = f{i - 1}' for i in range(1, n)]
    return {m: lines}, [ask(m, f'f{i}') for i in (1, n // 2, n - 1)]


def backward_aliases(m, n):
    """Each alias before what it stands for, over classes."""
    lines = [f'C{i} = C{i + 1}' for i in range(n)]
    lines += [f'class C{n}:', '    def __init__(self, x: C0) -> None: ...',
              f'    def g(self) -> C{n}: ...']
    return ({m: lines},
            [ask(m, 'C0', how='type'), ask(m, 'C0', 'g'), ask(m, f'C{n}', how='type')])


def imports(m, n, star):
    modules = {f'{m}0': ['def f(x: int) -> str: ...', 'class C:',
                         '    def g(self, y: C) -> int: ...',
                         '    def __init__(self, *, z: bytes = ...) -> None: ...']}
    for i in range(1, n):
        modules[f'{m}{i}'] = ([f'from {m}{i - 1} import *'] if star else
                              [f'from {m}{i - 1} import f as f, C as C'])
    last = f'{m}{n - 1}'
    return modules, [ask(last, 'f'), ask(last, 'C', how='type'), ask(last, 'C', 'g')]


def bases(m, n):
    lines = ['from typing import Generic, TypeVar', 'T = TypeVar("T")',
             'class C0(Generic[T]):', '    def __init__(self, x: T) -> None: ...',
             '    def g(self, y: list[T]) -> T: ...']
    for i in range(1, n):
        lines += [f'class C{i}(C{i - 1}' + ('[int]' if i == n // 2 else
                                            '[T]' if i < n // 2 else '') + '):',
                  f'    def h{i}(self, z: C{n - i}) -> C{i}: ...']
    last = f'C{n - 1}'
    return ({m: lines},
            [ask(m, last, how='type'), ask(m, last, 'g'), ask(m, last, 'h1'),
             ask(m, 'C1', how='type'), ask(m, last, f'h{n - 1}')])


def nested(m, n):
    lines, path = [], []
    for i in range(n):
        lines.append('    ' * i + f'class C{i}:')
        path.append(f'C{i}')
    lines += ['    ' * n + 'def __init__(self, x: C0) -> None: ...',
              '    ' * n + 'def g(self, y: ' + '.'.join(path) + ') -> int: ...']
    return {m: lines}, [ask(m, *path, how='type'), ask(m, *path, 'g')]


def types(m, n):
    lines = ['from typing import Callable, Optional, Union',
             'def f(x: ' + 'list[' * n + 'int' + ']' * n + ') -> '
             + 'Callable[[int], ' * n + 'str' + ']' * n + ': ...',
             'def u(x: ' + ' | '.join(f'C{i}' for i in range(n)) + ') -> '
             'Union[' + ', '.join(f'list[C{i}]' for i in range(n)) + ']: ...']
    lines += [f'class C{i}: ...' for i in range(n)]
    lines += [f'A{i} = list[A{i + 1}]' for i in range(n)] + [f'A{n} = Optional[int]']
    lines += ['def a(x: A0) -> A1: ...']
    return {m: lines}, [ask(m, 'f'), ask(m, 'u'), ask(m, 'a')]


def overloads(m, n):
    lines = ['from typing import overload', 'class C:']
    for i in range(n):
        lines += ['    @overload', f'    def __init__(self, a{i}: int, *, '
                  + ', '.join(f'b{j}: str = ...' for j in range(i)) + ('' if i else
                                                                      'k: int')
                  + ') -> None: ...']
    lines += ['def f(' + ', '.join(f'x{i}: int' for i in range(n)) + ', /, '
              + ', '.join(f'y{i}: str = {i}' for i in range(n)) + ', *a: bytes, '
              + ', '.join(f'z{i}: object' + (' = ...' if i % 3 else '')
                          for i in range(n)) + ', **k: int) -> None: ...']
    return {m: lines}, [ask(m, 'C', how='type'), ask(m, 'f')]


def packages(m, n):
    """A package in a package in a package, importing from the outermost one."""
    modules, name = {m: ['class R:', '    def g(self, x: int) -> R: ...']}, m
    for i in range(1, n):
        name += f'.p{i}'
        # the innermost one is no package
        modules[name] = [f'from {"." * (i + (i < n - 1))} import R as R',
                         f'from {m} import R as R{i}',
                         f'def f(x: R) -> R{i}: ...']
    return modules, [ask(name, 'f'), ask(name, 'R', 'g'), ask(m, 'R', 'g')]


def cycle(m, n, star):
    """Modules importing in a ring."""
    modules = {f'{m}{i}': ([f'from {m}{(i + 1) % n} import *'] if star else
                           [f'from {m}{(i + 1) % n} import f{j} as f{j}'
                            for j in range(n) if j != i])
               + [f'def f{i}(x: int, *, y{i}: str) -> bytes: ...']
               for i in range(n)}
    return modules, [ask(f'{m}{i}', f'f{j}') for i in (0, n // 2)
                     for j in (0, i, (i + 1) % n, (i - 1) % n)]


def references(m, n):
    """Classes mentioning each other in a ring."""
    lines = []
    for i in range(n):
        lines += [f'class C{i}(list[C{(i + 1) % n}]):',
                  f'    def g(self, x: C{(i + 1) % n}) -> list[C{(i - 1) % n}]: ...']
    return {m: lines}, [ask(m, 'C0', 'g'), ask(m, f'C{n - 1}', 'g')]


TWINS = [
    ('Tuple[Tuple[int], str]', 'Tuple[Tuple[int, str]]'),
    ('Tuple[Union[int, str], bytes]', 'Tuple[Union[int, str, bytes]]'),
    ('Union[Tuple[int], str]', 'Union[Tuple[int, str], None]'),
    ('Union[Tuple[int], None]', 'Union[Tuple[int, None]]'),
    ('Tuple[List[int], str]', 'List[Tuple[int, str]]'),
    ('Tuple[int]', 'Tuple[int, ...]'),
    ('Dict[str, Tuple[int]]', 'Tuple[Dict[str, int]]'),
    ('Tuple[Dict[str, int], bool]', 'Tuple[Dict[str, int]]'),
    ('Callable[[int, str], bytes]', 'Callable[[int], bytes]'),
    ('Callable[..., int]', 'Callable[[], int]'),
    ('Callable[[Tuple[int], str], int]', 'Callable[[Tuple[int, str]], int]'),
    ('Tuple[Callable[[], int], str]', 'Tuple[Callable[[], Tuple[int, str]]]'),
    ('Literal[1]', 'Literal["1"]'), ('Literal[1]', 'Literal[True]'),
    ('Literal["a", "b"]', 'Literal["a_b"]'), ('Literal[1, 0]', 'Literal[1]'),
    ('Literal["a"]', 'Literal[b"a"]'), ('Literal[-1]', 'Literal[1]'),
    ('List[int]', 'list[int]'), ('List[int]', 'Optional[int]'),
    ('int | List[str]', 'List[int | str]'), ('A', 'Q.A'), ('Type[int]', 'type'),
    ('"A"', 'A'), ('list[A | B]', 'list[B | A]'), ('A', 'm_.A')]


def twins(m, n):
    """One generic class with arguments that are spelled almost alike."""
    lines = ['from typing import (Callable, Dict, Generic, List, Literal, Optional, '
             'Tuple,', '                    Type, TypeVar, Union)',
             f'import {m}other as m_', f'from {m}other import B_, B as B',
             f'from {m}c import D as D', f'from _{m}c import D as E',
             'T = TypeVar("T")', 'S = TypeVar("S")',
             'class A: ...', 'class Q:', '    class A: ...',
             'class G(Generic[T]):', '    def __init__(self, x: T) -> None: ...',
             '    def g(self, y: list[T]) -> T: ...',
             'class H(G[T], Generic[T, S]):', '    def h(self, y: T) -> S: ...']
    asks = []
    pairs = [(f'G[{a}]', f'G[{b}]') for a, b in TWINS]
    pairs += [(f'H[{a}, int]', f'H[{b}, int]') for a, b in TWINS]
    pairs += [('H[B, E]', 'H[B_, D]'), ('H[int, Tuple[str]]', 'H[Tuple[int], str]'),
              ('H[Tuple[int, str], int]', 'H[Tuple[int], Tuple[str, int]]')]
    for i, pair in enumerate(pairs):
        for k, base in zip('XY', pair):
            lines.append(f'class {k}{i}({base}): ...')
            asks += [ask(m, f'{k}{i}', how='type'), ask(m, f'{k}{i}', 'g')]
            if base[0] == 'H':
                asks.append(ask(m, f'{k}{i}', 'h'))
    return {m: lines, f'{m}other': ['class A: ...', 'class B: ...', 'class B_: ...'],
            f'{m}c': ['class D: ...'], f'_{m}c': ['class D: ...']}, asks


def worlds(prefix, length, cyclic):
    """[(id, {module: text}, asks)]"""
    made = ([('ring', lambda m: cycle(m, length // 2, False)),
             ('starring', lambda m: cycle(m, length // 2, True)),
             ('references', lambda m: references(m, length))] if cyclic else
            [('aliases', lambda m: aliases(m, length)),
             ('backward', lambda m: backward_aliases(m, length)),
             ('imports', lambda m: imports(m, length, False)),
             ('stars', lambda m: imports(m, length, True)),
             ('bases', lambda m: bases(m, length)),
             ('nested', lambda m: nested(m, min(length // 2, 16))),
             ('twins', lambda m: twins(m, length)),
             ('types', lambda m: types(m, length)),
             ('overloads', lambda m: overloads(m, length)),
             ('packages', lambda m: packages(m, length // 3))])
    result = []
    for name, make in made:
        modules, asks = make(f'{prefix}_{name}')
        result.append((name, {m: '\n'.join(lines) + '\n'
                              for m, lines in modules.items()}, asks))
    return result
