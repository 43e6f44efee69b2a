"""Random small worlds of type stubs, with every reference resolvable, and questions about
all the names that can be reached in them.  Knows nothing about the code under test.

Kinds of names: c class, d function, a typing alias, t type variable, v variable with a
callable type, m module."""
import random


class Mod:
    def __init__(self, name, package, index):
        self.name, self.package, self.index = name, package, index
        self.own = {}           # name -> kind, defined here
        self.scope = {}         # name -> (kind, home): usable at module level
        self.imports, self.stars, self.body = [], [], []
        self.dotted = []        # modules imported by "import a.b"
        self.typing = False     # "import typing"


class Cls:
    def __init__(self, name, home, index):
        self.name, self.home, self.index = name, home, index
        self.members, self.nested, self.params = {}, {}, 0
        self.bases = []
        self.done = False


class World:
    def __init__(self, seed, prefix, cyclic=None):
        self.r = random.Random(seed)
        self.prefix = prefix
        self.cyclic = self.r.random() < .5 if cyclic is None else cyclic
        self.serial = 0
        self.classes = {}       # (module, name) -> Cls
        self.asks = []
        self.make_modules()
        for m in self.mods:
            self.define(m)
        for m in self.mods:
            self.connect(m)
        for _ in self.mods:     # stars of stars
            for m in self.mods:
                self.spread(m)
        for m in self.mods:
            self.write(m)

    # ------------------------------------------------------------- helpers
    def fresh(self, stem):
        self.serial += 1
        return f'{stem}{self.serial}'

    def chance(self, p):
        return self.r.random() < p

    def make_modules(self):
        r, p = self.r, self.prefix
        names = [f'{p}a', f'{p}b']
        if self.chance(.5):
            names += [f'{p}p', f'{p}p.q']
            if self.chance(.5):
                names.append(f'{p}p.r')
            if self.chance(.3):
                names += [f'{p}p.s', f'{p}p.s.u']
        elif self.chance(.6):
            names.append(f'{p}c')
        r.shuffle(names)
        packages = {n.rpartition('.')[0] for n in names if '.' in n}
        self.mods = [Mod(n, n in packages, i) for i, n in enumerate(names)]
        self.by_name = {m.name: m for m in self.mods}

    def define(self, m):
        """Phase one: what the module defines."""
        for _ in range(self.r.randint(1, 4)):
            kind = self.r.choice('cccdddatv' if self.cyclic else 'cccdddatvd')
            name = ('_' * self.chance(.1)
                    + self.fresh({'c': 'C', 'd': 'f', 'a': 'A', 't': 'T', 'v': 'v'}
                                 [kind]))
            m.own[name] = kind
            m.scope[name] = (kind, m.name, name)
            if kind == 'c':
                c = Cls(name, m, self.serial)
                self.classes[m.name, name] = c

    def connect(self, m):
        """Phase two: what the module imports."""
        others = [o for o in self.mods
                  if o is not m and (self.cyclic or o.index < m.index)]
        if not others:
            return
        if self.chance(.35):
            for o in self.r.sample(others, min(len(others), self.r.randint(1, 2))):
                m.stars.append(o)
                m.imports.append(('star', o))
        for _ in range(self.r.randint(0, 4)):
            o = self.r.choice(others)
            how = self.r.random()
            if how < .6:
                # names imported there too: chains of imports
                available = [n for n in o.scope if o.scope[n][0] != 'm'] \
                    if self.cyclic is False or self.chance(.5) else list(o.own)
                if not available:
                    continue
                name = self.r.choice(available)
                kind, home, origin = o.scope[name]
                if home == m.name:
                    continue
                alias = self.fresh('i') if self.chance(.4) else name
                if alias in m.scope:
                    continue
                m.scope[alias] = (kind, home, origin)
                m.imports.append(('from', o, name, alias))
            elif how < .7 and '.' in o.name and o.name not in m.dotted:
                m.dotted.append(o.name)
                m.imports.append(('import', o, o.name))
            elif how < .8 or '.' not in o.name:
                alias = (self.fresh('m') if self.chance(.5) or '.' in o.name
                         else o.name)
                m.scope[alias] = ('m', o.name, '')
                m.imports.append(('import', o, alias))
            else:
                parent, _, last = o.name.rpartition('.')
                if last in m.scope or parent == m.name:
                    continue
                m.scope[last] = ('m', o.name, '')
                m.imports.append(('sub', o, last))

    def spread(self, m):
        for o in m.stars:
            for name, meaning in list(o.scope.items()):
                if not name.startswith('_') and name not in m.scope \
                        and meaning[0] != 'm' and meaning[1] != m.name:
                    m.scope[name] = meaning

    # --------------------------------------------------------------- texts
    def import_line(self, m, entry):
        o = entry[1]
        if entry[0] == 'import':
            return (f'import {o.name}' if entry[2] == o.name
                    else f'import {o.name} as {entry[2]}')
        source = o.name
        if '.' in m.name or m.package:
            base = m.name if m.package else m.name.rpartition('.')[0]
            if self.chance(.6):
                if o.name == base:
                    source = '.'
                elif o.name.startswith(base + '.'):
                    source = '.' + o.name[len(base) + 1:]
                elif '.' in base and o.name.startswith(
                        base.rpartition('.')[0] + '.'):
                    source = '..' + o.name[len(base.rpartition('.')[0]) + 1:]
        if entry[0] == 'star':
            return f'from {source} import *'
        if entry[0] == 'sub':
            parent, _, last = o.name.rpartition('.')
            if source == '.':       # the package of this module
                return f'from .. import {last}'
            if source.startswith('.') and source.count('.') == 1:
                return f'from . import {last}'
            return f'from {parent} import {last}'
        _, _, name, alias = entry
        return (f'from {source} import {name}' if alias == name
                else f'from {source} import {name} as {alias}')

    def spelled(self, m, kinds, cls=None):
        """Spellings of names of the kinds in the module, with their meaning."""
        result = []
        for name, (kind, home, origin) in m.scope.items():
            if kind in kinds:
                result.append((name, (home, origin)))
            elif kind == 'm' and home != m.name:
                o = self.by_name[home]
                for n, k in o.own.items():
                    if k in kinds:
                        result.append((f'{name}.{n}', (home, n)))
        for home in m.dotted:
            for n, k in self.by_name[home].own.items():
                if k in kinds:
                    result.append((f'{home}.{n}', (home, n)))
        return result

    def special(self, m, name):
        return f'typing.{name}' if m.typing and self.chance(.5) else name

    def type_text(self, m, depth=2, cls=None, tvars=()):
        r = self.r
        classes = self.spelled(m, 'c')
        aliases = self.spelled(m, 'a')
        options = ['simple'] * 3 + ['class'] * (3 if classes else 0) \
            + ['alias'] * (1 if aliases else 0) + ['var'] * (2 if tvars else 0) \
            + ['nested'] * (2 if cls and cls.nested else 0)
        if depth:
            options += ['list', 'dict', 'tuple', 'type', 'opt', 'union', 'or', 'callable', 'literal']
        kind = r.choice(options)

        def sub():
            return self.type_text(m, depth - 1, cls, tvars)
        if kind == 'simple':
            return r.choice(['int', 'str', 'bool', 'bytes', 'None',
                             self.special(m, 'Any'), 'object']
                            + (['Self'] if cls else []))
        if kind == 'class':
            return self.r.choice(classes)[0]
        if kind == 'alias':
            return self.r.choice(aliases)[0]
        if kind == 'var':
            return r.choice(tvars)
        if kind == 'nested':
            return r.choice(sorted(cls.nested))
        if kind == 'list':
            return f'list[{sub()}]'
        if kind == 'dict':
            return f'dict[{sub()}, {sub()}]'
        if kind == 'tuple':
            return r.choice([
                f'tuple[{sub()}, {sub()}]', f'tuple[{sub()}, ...]',
                f'tuple[{sub()}]', self.special(m, f'Tuple[{sub()}, {sub()}]'),
                self.special(m, f'Tuple[{sub()}, ...]'),
                self.special(m, f'List[{sub()}]'),
                self.special(m, f'Dict[str, {sub()}]')])
        if kind == 'type':
            return r.choice(['type[{}]', self.special(m, 'Type[{}]')]).format(
                    r.choice(classes)[0] if classes else 'int')
        if kind == 'opt':
            return f'{self.special(m, "Optional")}[{sub()}]'
        if kind == 'union':
            return f'{self.special(m, "Union")}[{sub()}, {sub()}]'
        if kind == 'or':
            return f'{sub()} | {sub()}'
        if kind == 'literal':
            return self.special(m, r.choice([
                'Literal[1]', 'Literal["x", "y"]', 'Literal[True, None]',
                'Literal[-1, b"z"]']))
        return self.special(m, r.choice([
            f'Callable[[{sub()}], {sub()}]', f'Callable[..., {sub()}]',
            f'Callable[[], {sub()}]']))

    def parameters(self, m, first=None, cls=None, tvars=()):
        r, parts, used = self.r, [], set()

        def name():
            n = r.choice('xyzuvwkn') + str(r.randint(0, 9))
            while n in used:
                n += '_'
            used.add(n)
            return n

        def annotated(n):
            return (n if self.chance(.15) else
                    f'{n}: {self.type_text(m, 2, cls, tvars)}')
        if first:
            parts.append(first)
        optional = False
        for i in range(r.randint(0, 3)):
            text = annotated(name())
            if optional or self.chance(.3):
                optional = True
                text += ' = ' + r.choice(['...', '...', '1', '"s"', 'None', 'True',
                                          '-2'])
            parts.append(text)
            if self.chance(.15) and '/' not in parts:
                parts.append('/')
        star = self.chance(.25)
        if star:
            parts.append('*' + annotated(name()))
        for i in range(r.choice([0, 0, 1, 2])):
            if not star:
                parts.append('*')
                star = True
            parts.append(annotated(name()) + (' = ' + r.choice(['...', '3', 'None'])
                                              if self.chance(.5) else ''))
        if self.chance(.2):
            parts.append('**' + annotated(name()))
        return ', '.join(parts)

    def function(self, m, name, indent='', first=None, cls=None, tvars=(),
                 decorator='', returns=None):
        lines = []
        overloaded = self.chance(.2)
        for i in range(self.r.randint(2, 3) if overloaded else 1):
            whole, lines = lines, []
            if self.chance(.05):
                lines.append(f'{indent}@final')
            if overloaded:
                lines.append(f'{indent}@{self.special(m, "overload")}')
            if decorator:
                lines.append(f'{indent}@{decorator}')
            text = (returns if returns is not None
                    else ' -> ' + self.type_text(m, 2, cls, tvars)
                    if self.chance(.85) else '')
            lines.append(f'{indent}{"async " if self.chance(.05) else ""}def {name}('
                         f'{self.parameters(m, first, cls, tvars)}){text}: ...')
            if overloaded and self.chance(.15):
                lines = self.conditional(lines, [], indent)
            lines = whole + lines
        return lines

    def branches(self, indent):
        """A condition and whether it holds."""
        holds = self.chance(.5)
        yes = ['sys.version_info >= (3, 8)', 'sys.platform != "win32"',
               'sys.version_info < (3, 13)', 'sys.platform == "linux"',
               'sys.version_info >= (3, 8) and sys.platform != "win32"',
               'sys.version_info[0] >= 3', 'not sys.version_info < (3, 7)',
               'sys.version_info >= (3, 12)', 'sys.version_info > (3, 12)',
               'sys.version_info[:2] >= (3, 12)',
               '(3, 8) <= sys.version_info < (3, 13)',
               'sys.platform == "win32" or sys.platform == "linux"',
               'sys.version_info < (3, 9) or sys.version_info >= (3, 11)']
        no = ['sys.version_info < (3, 9)', 'sys.platform == "win32"',
              'sys.version_info >= (3, 13)', 'sys.platform != "linux"',
              'sys.version_info < (3,) or sys.platform == "darwin"',
              'sys.version_info[0] < 3', 'sys.version_info >= (4,)',
              'not sys.version_info >= (3, 8)', 'sys.version_info < (3, 12)',
              'sys.version_info[:2] < (3, 12)', '(3, 8) <= sys.version_info < (3, 12)',
              'sys.version_info >= (3, 12) and sys.platform != "linux"',
              'sys.version_info >= (3, 8) and sys.version_info < (3, 12)']
        return self.r.choice(yes if holds else no), holds

    def conditional(self, lines, other, indent=''):
        """The lines take effect, the other ones do not."""
        condition, holds = self.branches(indent)

        def deeper(texts):
            return ['    ' + t for t in texts]
        if self.chance(.15):
            lines = self.conditional(lines, [], indent)
        if other and self.chance(.15):
            # taken, within a branch that is not
            other = [f'{indent}if sys.version_info >= (3, 8):'] + deeper(other)
        if holds:
            result = [f'{indent}if {condition}:'] + deeper(lines)
            if other:
                result += [f'{indent}else:'] + deeper(other)
            return result
        if self.chance(.3):
            inner, _ = 'sys.version_info >= (3, 6)', True
            return ([f'{indent}if {condition}:'] + deeper(other or [indent + 'pass'])
                    + [f'{indent}elif {inner}:'] + deeper(lines))
        return ([f'{indent}if {condition}:'] + deeper(other or [indent + 'pass'])
                + [f'{indent}else:'] + deeper(lines))

    def class_lines(self, m, c, name=None, indent='', depth=0):
        r = self.r
        name = name or c.name
        bases, tvars = [], ()
        lower = [(text, self.classes.get(meaning)) for text, meaning
                 in self.spelled(m, 'c')]
        lower = [(text, b) for text, b in lower
                 if b is not None and b.index < c.index]
        if depth == 0 and lower and self.chance(.6):
            chosen = {}
            for text, b in r.sample(lower, min(len(lower), r.randint(1, 2))):
                chosen.setdefault(id(b), (text, b))
            # no class before one of its descendants
            for text, b in sorted(chosen.values(), key=lambda x: -x[1].index):
                if b.params:
                    bases.append(text if self.chance(.15) else
                                 f'{text}[' + ', '.join(
                        self.type_text(m, 1) for _ in range(b.params)) + ']')
                else:
                    bases.append(text)
                c.bases.append(b)
        if depth == 0 and not bases and self.chance(.3):
            tvars_here = [t for t, meaning in self.spelled(m, 't')
                          if '.' not in t and meaning[0] == m.name]
            if tvars_here:
                tvars = tuple(r.sample(tvars_here, min(len(tvars_here),
                                                       r.randint(1, 2))))
                bases.append('Generic[' + ', '.join(tvars) + ']')
                c.params = len(tvars)
        elif depth == 0 and not bases and self.chance(.1):
            lines = [f'{indent}class {name}(NamedTuple):']
            optional = False
            for _ in range(r.randint(1, 3)):
                optional = optional or self.chance(.3)
                lines.append(f'{indent}    {self.fresh("n")}: {self.type_text(m, 2)}'
                             + (' = ...' if optional else ''))
            return lines
        elif depth == 0 and not bases and self.chance(.2):
            bases.append(r.choice(['object', 'Exception', 'list[int]',
                                   'dict[str, int]', 'int']))
        lines = []
        inner = indent + '    '
        if depth < 2 and self.chance(.25):
            nested = Cls(self.fresh('N'), m, c.index)
            c.nested[nested.name] = nested
            nested_lines = self.class_lines(m, nested, None, inner, depth + 1)
            lines += nested_lines
        inherited = sorted({n for b in c.bases for n in b.members
                            if n != '__call__'})
        for _ in range(r.randint(0, 3)):
            n = (r.choice(inherited) if inherited and self.chance(.4)
                 else self.fresh('g'))
            if n in c.members:
                continue
            kind = r.choice(['method'] * 8 + ['class', 'static', 'alias', 'if'] * 2
                            + ['other', 'var'])
            c.members[n] = kind
            if kind == 'class':
                lines += self.function(m, n, inner, 'cls', c, tvars, 'classmethod')
            elif kind == 'static':
                lines += self.function(m, n, inner, None, c, tvars, 'staticmethod')
            elif kind == 'alias' and [k for k in c.members.values()
                                      if k == 'method']:
                target = r.choice(sorted(k for k, v in c.members.items()
                                         if v == 'method'))
                lines.append(f'{inner}{n} = {target}')
            elif kind == 'other':
                # a method of another class
                others = [(text, b, k) for text, b in lower if b.done
                          for k, v in b.members.items() if v == 'method'
                          and k != '__call__']
                if not others:
                    del c.members[n]
                    continue
                text, b, k = r.choice(others)
                lines.append(f'{inner}{n} = {text}.{k}')
            elif kind == 'var':
                lines.append(f'{inner}{n}: ' + self.special(m, r.choice(
                    ['Callable[[int, str], bool]', 'Callable[..., int]'])))
            elif kind == 'if':
                lines += self.conditional(
                    self.function(m, n, inner, 'self', c, tvars),
                    self.function(m, n if self.chance(.5) else self.fresh('u'),
                                  inner, 'self', c, tvars), inner)
            else:
                c.members[n] = 'method'
                lines += self.function(m, n, inner, 'self', c, tvars)
        if self.chance(.35):
            lines += self.function(m, '__init__', inner, 'self', c, tvars, '',
                                   ' -> None')
        if self.chance(.15):
            lines += self.function(m, '__new__', inner, 'cls', c, tvars)
        if self.chance(.15):
            c.members['__call__'] = 'method'
            lines += self.function(m, '__call__', inner, 'self', c, tvars)
        elif self.chance(.05) and self.cyclic:
            # calling it is calling something of its own class
            lines.append(f'{inner}__call__: '
                         + r.choice([name] * (depth == 0)
                                    + [text for text, _ in lower] + ['object']))
        c.done = True
        text = f'({", ".join(bases)})' if bases else ''
        return [f'{indent}class {name}{text}:'] + (lines or [inner + '...'])

    def restriction(self, m):
        draw = self.r.random()
        if draw < .4:
            return ''
        if draw < .5:
            return self.r.choice([', covariant=True', ', contravariant=True'])
        classes = [text for text, _ in self.spelled(m, 'c')]
        known = [t for t in classes + ['int', 'str']]
        if draw < .75:
            return ', bound=' + self.r.choice(known + [f'list[{known[0]}]'])
        return ', ' + ', '.join(self.r.choice(known) for _ in range(2))

    def write(self, m):
        r = self.r
        m.typing = self.chance(.3)
        stars = [self.import_line(m, e) for e in m.imports if e[0] == 'star']
        imports = [self.import_line(m, e) for e in m.imports if e[0] != 'star']
        blocks, tvars = [], []
        for name, kind in m.own.items():
            if kind == 't':
                tvars.append([f'{name} = {self.special(m, "TypeVar")}("{name}"'
                              + self.restriction(m) + ')'])
        for name, kind in m.own.items():
            if kind == 'd':
                lines = self.function(m, name)
                if self.chance(.2):
                    lines = self.conditional(
                        lines, self.function(m, name if self.chance(.5)
                                             else self.fresh('u')))
                blocks.append(lines)
            elif kind == 'c':
                c = self.classes[m.name, name]
                lines = self.class_lines(m, c)
                if self.chance(.15):
                    lines = self.conditional(
                        lines, self.class_lines(m, Cls(name, m, c.index)))
                blocks.append(lines)
            elif kind == 'a':
                others = m.scope
                # no alias mentions another one, so none mentions itself
                kept = {n: v for n, v in others.items() if v[0] not in 'am'}
                m.scope = kept
                blocks.append([f'{name} = {self.alias_text(m)}'])
                m.scope = others
            elif kind == 'v':
                blocks.append([f'{name}: {self.variable_text(m)}'])
        # aliases of functions and classes
        for _ in range(r.choice([0, 0, 1, 2])):
            targets = self.spelled(m, 'cdv')
            if targets:
                text, meaning = r.choice(targets)
                alias = self.fresh('s')
                kind = ('c' if meaning in self.classes else
                        self.by_name[meaning[0]].own[meaning[1]])
                blocks.append([f'{alias} = {text}'])
                m.own[alias] = kind
                if kind == 'c' and self.chance(.5):
                    pass
        if self.chance(.3):
            r.shuffle(blocks)
        if imports and self.chance(.25):
            i = r.randrange(len(imports))
            imports[i:i + 1] = self.conditional([imports[i]], [])
        head = ['import sys',
                'from typing import (Any, Callable, Dict, Generic, List, Literal,'
                ' NamedTuple, Optional, Self, Tuple, Type, TypeVar, Union, final, overload)']
        if m.typing:
            head.append('import typing')
        m.text = '\n'.join(stars + head + imports
                           + [line for b in tvars + blocks for line in b]) + '\n'

    def alias_text(self, m):
        return self.r.choice([lambda: f'Union[int, {self.type_text(m, 1)}]',
                              lambda: f'list[{self.type_text(m, 1)}]',
                              lambda: f'Callable[[{self.type_text(m, 1)}], int]',
                              lambda: f'Optional[{self.type_text(m, 1)}]'])()

    def variable_text(self, m):
        callables = [t for t, meaning in self.spelled(m, 'c')
                     if meaning in self.classes]
        draw = self.r.random()
        if callables and draw < .45:
            return self.r.choice(callables)
        names = [t for t, _ in self.spelled(m, 'at')]
        if names and draw < .6:
            return self.r.choice(names)
        return self.special(m, self.r.choice([
            'Callable[[int, str], bool]', 'Callable[..., int]',
            f'Callable[[{self.type_text(m, 1)}], {self.type_text(m, 1)}]']))

    # ----------------------------------------------------------- questions
    def questions(self):
        result = []

        def add(m, path, kind):
            # classes and functions alike: what is asked about a class is its
            # constructor
            how = 'type' if kind == 'c' else 'plain'
            result.append({'id': f'{m}:{".".join(path)}', 'm': m, 'p': path,
                           'how': how})

        def inside(m, path, c, depth=0):
            members = {}
            todo = [c]
            while todo:
                b = todo.pop()
                for n in b.members:
                    members.setdefault(n, 'd')
                todo += b.bases
            for n in sorted(members):
                add(m, path + [n], 'd')
            for n, nested in c.nested.items():
                add(m, path + [n], 'c')
                inside(m, path + [n], nested, depth + 1)
            add(m, path + ['__init__'], 'd')
            add(m, path + ['__new__'], 'd')
            add(m, path + [self.fresh('absent')], 'd')
        for m in self.mods:
            for name, (kind, home, origin) in list(m.scope.items()):
                if kind == 'm':
                    o = self.by_name.get(home)
                    for n, k in o.own.items():
                        if k in 'cdv':
                            add(m.name, [name, n], k)
                elif kind in 'cdv':
                    add(m.name, [name], kind)
                    c = self.classes.get((home, origin))
                    if c is not None:
                        inside(m.name, [name], c)
            for home in m.dotted:
                for n, k in self.by_name[home].own.items():
                    if k in 'cdv':
                        add(m.name, home.split('.') + [n], k)
            for name, kind in m.own.items():
                if name not in m.scope:
                    add(m.name, [name], kind)
            add(m.name, [self.fresh('absent')], 'd')
        for m in self.mods:
            for n in range(1, self.serial):
                if f'def u{n}(' in m.text:
                    add(m.name, [f'u{n}'], 'd')
        return result


def world(seed, prefix, cyclic=None):
    w = World(seed, prefix, cyclic)
    return {m.name: m.text for m in w.mods}, w.questions()


if __name__ == '__main__':
    import sys
    modules, asks = world(int(sys.argv[1]), 'w_')
    for name, text in modules.items():
        print('#' * 10, name)
        print(text)
    print(len(asks))
