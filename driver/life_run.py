"""Real programs that change between questions about their callables.
usage: life_run.py histories ROWS OUT    replays histories of spec/LifeGame.tla
       life_run.py random COUNT SEED     traces for spec/LifeTrace.tla
       life_run.py library SEED          the same about the standard library"""
import copy
import functools
import gc
import json
import random
import sys
import types
import weakref

import call_lib
from call_lib import ask, function_source, project
from sig_lib import NO_DEFAULT, NOTHING, VALUES, random_plain

CALLED = []


class Root:
    pass


class Program:
    """Functions and classes of a program of spec/Life.tla."""
    def __init__(self, fs, cs, rnd=None, module='life_module', root=Root):
        self.rnd = rnd
        # bases can be exchanged for heap types only
        self.root = type('Root_', (root,), {'__module__': module})
        self.module, self.previous = call_lib.make_module(module, '')
        vars(self.module).update(CALLED_=CALLED)
        self.functions, self.classes, self.held = [], [], []
        for term in fs:
            self.new(term)
        for c in cs:
            self.subclass(c['bases'])
            for m in c['ms']:
                self.set(len(self.classes), m['name'], m['sort'], m['f'])

    def close(self):
        call_lib.restore_module(self.module.__name__, self.previous)

    def bare(self):
        return self.rnd is not None and self.rnd.random() < .6

    # ------------------------------------------------------------ statements
    def compiled(self, term, name='f', style='def'):
        lines = function_source(name, term, style, '', self.bare)
        lines[-1] = '    CALLED_.append(1)'
        if style in ('gen', 'agen'):
            lines.append('    yield')
        exec('\n'.join(lines), vars(self.module))
        return vars(self.module).pop(name)

    def new(self, term, name='f', style='def'):
        self.functions.append(self.compiled(term, name, style))

    def subclass(self, bases, name='C'):
        # classes without a base cannot get other ones
        self.classes.append(type(name, tuple(self.classes[b - 1] for b in bases)
                                 or (self.root,), {'__module__': self.module.__name__}))

    def redefine(self, f, term, part='all'):
        function, new = self.functions[f - 1], self.compiled(term)
        if part == 'all':
            function.__code__ = new.__code__
        if part in ('all', 'defaults'):
            function.__defaults__ = new.__defaults__
            function.__kwdefaults__ = new.__kwdefaults__
        if part == 'all':
            function.__annotations__ = new.__annotations__
        elif part == 'annotations':
            function.__annotations__.clear()
            function.__annotations__.update(new.__annotations__)

    def wrap(self, f, g):
        self.functions[f - 1].__wrapped__ = self.functions[g - 1]

    def unwrap(self, f):
        del self.functions[f - 1].__wrapped__

    def set(self, c, name, sort, f):
        value = self.functions[f - 1]
        setattr(self.classes[c - 1], name,
                {'func': value, 'static': staticmethod(value),
                 'classm': classmethod(value)}[sort])

    def delete(self, c, name):
        delattr(self.classes[c - 1], name)

    def rebase(self, c, bases):
        try:
            self.classes[c - 1].__bases__ = (tuple(self.classes[b - 1] for b in bases)
                                             or (self.root,))
        except TypeError:
            return False
        return True

    # -------------------------------------------------------------- questions
    def value(self, x):
        return call_lib.evaluate(x, self.functions, self.classes)

    def state(self):
        """What may not change by itself."""
        def ids(mapping):
            return tuple((k, id(v)) for k, v in mapping.items()
                         if k != '__annotations__' or v)
        result = [ids(vars(self.module)), len(self.held)]
        for f in self.functions:
            if f is not None:
                result.append((id(f.__code__), id(f.__defaults__),
                               id(f.__kwdefaults__), ids(f.__kwdefaults__ or {}),
                               ids(f.__annotations__), ids(vars(f)), f.__name__,
                               f.__qualname__, f.__module__))
        for c in self.classes:
            if c is not None:
                result.append((ids(vars(c)), tuple(map(id, c.__bases__)), c.__name__))
        for value in self.held:
            while isinstance(value, functools.partial):
                result.append((id(value.func), tuple(map(id, value.args)),
                               ids(value.keywords), ids(vars(value))))
                value = value.func
        return result

    def question(self, value):
        """-> the answer and what asking did"""
        before, calls = self.state(), len(CALLED)
        out, signature = ask(value)
        again, second = ask(value)
        called, after = len(CALLED) - calls, self.state()
        rep = project(signature) if out == 'ok' else NOTHING
        if again != out or (out == 'ok' and project(second) != rep):
            out = f'{out} then {again}'
        return signature, {'out': out, 'rep': rep, 'called': called,
                           'touched': 'F' if before == after else 'T'}


# --------------------------------------------------------------- enumerated
def exists(program, x):
    try:
        return program.value(x)
    except AttributeError:
        return None


def histories(rows_path, out_path):
    report = {'histories': 0, 'questions': 0, 'bad': []}
    with open(rows_path) as file:
        world = json.loads(next(file))
        for line in file:
            row = json.loads(line)
            program = Program(world['fs'], world['cs'])
            asked, kept = world['asked'], world['kept']
            program.held = [program.value(x) for x in kept]

            def questions():
                result = []
                for value in ([exists(program, x) for x in asked] + program.held):
                    result.append(None if value is None
                                  else program.question(value)[1])
                report['questions'] += len(result)
                return result
            for action in row['done']:
                questions()
                op = action['op']
                if op == 'redefine':
                    program.redefine(action['f'], world['terms'][action['to'] - 1])
                elif op == 'wrap':
                    program.wrap(action['f'], action['g'])
                elif op == 'unwrap':
                    program.unwrap(action['f'])
                elif op == 'set':
                    program.set(action['c'], action['name'], action['sort'],
                                action['f'])
                elif op == 'del':
                    program.delete(action['c'], action['name'])
                elif not program.rebase(action['c'], action['bases']):
                    raise RuntimeError(f'bases refused in {row["done"]}')
            for x, want, got in zip(asked + kept, row['asked'] + row['held'],
                                    questions()):
                if got is None:
                    fine = want['sig']['r'] == 'absent'
                elif want['ok']:
                    fine = (got['out'] == 'ok'
                            and got['rep'] == {'cls': 'plain', 'alts': [want['sig']]})
                else:
                    fine = got['out'] in ('error:TypeError', 'error:ValueError') \
                        and want['sig']['r'] != 'absent'
                if got is not None:
                    fine = fine and not got['called'] and got['touched'] == 'F'
                if not fine:
                    report['bad'].append({'done': row['done'], 'asked': x,
                                          'want': want, 'got': got})
            report['histories'] += 1
            program.close()
    report['bad_count'] = len(report['bad'])
    report['bad'] = report['bad'][:50]
    with open(out_path, 'w') as file:
        json.dump(report, file)


# ------------------------------------------------------------------- random
MODULES = ['user_module', 'package_.module_', 'typing_like', 'os_', 'imp', 'asynchat',
           '__main__', '_typeshed', 'distutils.util', 'mypy_extensions']
NAMES = ['f', 'open', 'print', 'len', 'load_module', 'reduce', 'handler', 'sorted',
         'getattr', 'overload', 'cast', 'strtobool']
CLASSES = ['Foo', 'dict', 'list', 'OrderedDict', 'Thread', 'partial', 'Path', 'int']
MEMBERS = {Root: ['m', 'run', 'get', 'join', '__len__', 'fromkeys'],
           dict: ['get', 'update', 'pop', '__len__', 'fromkeys', 'm'],
           list: ['append', 'index', 'sort', '__len__', 'copy', 'get'],
           str: ['join', 'encode', 'split', '__len__', 'maketrans', 'm'],
           int: ['from_bytes', 'to_bytes', '__add__', 'bit_length', 'm']}


def term_of(rnd, takes_receiver=False):
    while True:
        term = random_plain(rnd, rnd.choice([0, 1, 2, 3, 4]))
        for p in term['ps']:
            if p['o'] == 'O' and p['k'] not in ('VP', 'VK') and p['d'] == NO_DEFAULT:
                p['d'] = rnd.choice(list(VALUES))
        if all(call_lib.usable(p['n']) for p in term['ps']) and (
                not takes_receiver
                or any(p['k'] in ('PO', 'PK', 'VP') for p in term['ps'])):
            return term


def variant(rnd, term):
    """-> term, the part of the function that differs"""
    kind = rnd.choice(['all', 'all', 'annotations', 'defaults', 'same'])
    if kind == 'same':
        return copy.deepcopy(term), 'all'
    if kind == 'all' or not term['ps']:
        return term_of(rnd), 'all'
    result = copy.deepcopy(term)
    if kind == 'annotations':
        others = [p['a'] for p in term_of(rnd)['ps']] + ['a_int', 'a_str', 'a_any']
        for p in result['ps']:
            if rnd.random() < .6:
                p['a'] = rnd.choice(others)
        result['r'] = rnd.choice(others + [result['r']])
        return result, kind
    positional = [p for p in result['ps'] if p['k'] in ('PO', 'PK')]
    first = rnd.randrange(len(positional) + 1)
    for i, p in enumerate(positional):
        p['o'], p['d'] = (('R', NO_DEFAULT) if i < first
                          else ('O', rnd.choice(list(VALUES))))
    for p in result['ps']:
        if p['k'] == 'KO':
            p['o'], p['d'] = rnd.choice([('R', NO_DEFAULT),
                                         ('O', rnd.choice(list(VALUES)))])
    return result, kind


class Story:
    def __init__(self, index, seed):
        self.rnd = rnd = random.Random(f'life {seed} {index}')
        self.fs = [term_of(rnd, i == 0) for i in range(rnd.choice([2, 3, 4]))]
        self.of = [0] * len(self.fs)
        cs = []
        for c in range(1, rnd.choice([1, 2, 3, 4]) + 1):
            bases = rnd.sample(range(1, c), min(rnd.choice([0, 1, 1, 2]), c - 1))
            bases.sort(reverse=True)
            cs.append({'bases': bases, 'ms': []})
        self.bases = [c['bases'] for c in cs]
        self.members = [set() for _ in cs]
        self.dropped_f, self.dropped_c = set(), set()
        self.root = rnd.choice([Root] * 4 + list(MEMBERS))
        self.program = Program(self.fs, cs, rnd, rnd.choice(MODULES), self.root)
        self.events = [{'op': 'start', 'fs': list(self.fs), 'cs': cs}]
        self.answers, self.holds = [], 0
        self.names = rnd.sample(MEMBERS[self.root], 2)
        if self.root is Root:
            self.names.append('__init__')

    # ------------------------------------------------------------- pieces
    def pick_f(self):
        return self.rnd.choice([f for f in range(1, len(self.fs) + 1)
                                if f not in self.dropped_f])

    def pick_c(self):
        return self.rnd.choice([c for c in range(1, len(self.bases) + 1)
                                if c not in self.dropped_c])

    def mro(self, c):
        classes = self.program.classes
        return [classes.index(k) + 1 for k in classes[c - 1].__mro__ if k in classes]

    def expression(self):
        rnd = self.rnd
        kind = rnd.random()
        if kind < .3:
            x = {'e': 'func', 'f': self.pick_f()}
        elif kind < .5 and self.root is Root:
            x = {'e': 'class', 'c': self.pick_c()}
        else:
            c = self.pick_c()
            found = {m for k in self.mro(c) for m in self.members[k - 1]
                     if m != '__init__'}
            if not found:
                return {'e': 'func', 'f': self.pick_f()}
            x = {'e': 'get', 'c': c, 'how': rnd.choice(['class', 'inst', 'inst']),
                 'm': rnd.choice(sorted(found))}
        while rnd.random() < .25:
            x = {'e': 'part', 'x': x, 'n': rnd.choice([0, 1, 1, 2]), 'kv': []}
        return x

    def emit(self, op, **fields):
        self.events.append({'op': op, **fields})

    def question(self, value, op='ask', **fields):
        signature, answer = self.program.question(value)
        if op == 'ask' and answer['out'] == 'ok':
            self.answers.append(signature)
        self.emit(op, **fields, **answer)

    # --------------------------------------------------------- statements
    def step(self):
        rnd, program = self.rnd, self.program
        op = rnd.choice(['ask'] * 6 + ['held'] * 3 + ['redefine'] * 4
                        + ['set'] * 4 + ['del', 'rebase', 'rebase', 'wrap', 'unwrap',
                                         'new', 'subclass', 'hold', 'hold', 'passing',
                                         'drop', 'rename', 'recall'])
        if op == 'ask' and self.root is not Root and rnd.random() < .5:
            self.inherited()
        elif op == 'ask':
            x = self.expression()
            self.question(program.value(x), x=x, h=0)
        elif op == 'held' and self.holds:
            h = rnd.randrange(1, self.holds + 1)
            self.question(program.held[h - 1], x={'e': 'none'}, h=h)
        elif op == 'hold':
            x = self.expression()
            program.held.append(program.value(x))
            self.holds += 1
            self.emit('hold', x=x)
            if rnd.random() < .5:
                self.question(program.held[-1], x={'e': 'none'}, h=self.holds)
        elif op == 'redefine':
            f = self.pick_f()
            if self.of[f - 1] and rnd.random() < .7:
                return
            term, part = variant(rnd, self.fs[f - 1])
            program.redefine(f, term, part)
            self.fs[f - 1] = term
            self.emit('redefine', f=f, to=term)
        elif op == 'set':
            f, c, name = self.pick_f(), self.pick_c(), rnd.choice(self.names)
            sort = ('func' if name == '__init__'
                    else rnd.choice(['func', 'func', 'static', 'classm']))
            program.set(c, name, sort, f)
            self.members[c - 1].add(name)
            self.emit('set', c=c, name=name, sort=sort, f=f)
        elif op == 'del':
            c = self.pick_c()
            if self.members[c - 1]:
                name = rnd.choice(sorted(self.members[c - 1]))
                program.delete(c, name)
                self.members[c - 1].discard(name)
                self.emit('del', c=c, name=name)
        elif op == 'rebase':
            c = self.pick_c()
            pool = [b for b in range(1, c) if b not in self.dropped_c]
            bases = rnd.sample(pool, min(len(pool), rnd.choice([0, 1, 1, 2])))
            made = program.rebase(c, bases)
            if made:
                self.bases[c - 1] = bases
            self.emit('rebase', c=c, bases=bases, made='T' if made else 'F')
        elif op == 'wrap':
            f, g = self.pick_f(), self.pick_f()
            chain = g
            while chain and chain != f:
                chain = self.of[chain - 1]
            if chain or self.of[f - 1]:
                return
            program.wrap(f, g)
            self.of[f - 1] = g
            self.emit('wrap', f=f, g=g)
        elif op == 'unwrap':
            wrapping = [i for i, g in enumerate(self.of, 1) if g]
            if wrapping:
                f = rnd.choice(wrapping)
                program.unwrap(f)
                self.of[f - 1] = 0
                self.emit('unwrap', f=f)
        elif op == 'new':
            self.step_new()
        elif op == 'subclass':
            base = self.pick_c()
            program.subclass([base], rnd.choice(CLASSES))
            self.bases.append([base])
            self.members.append(set())
            self.emit('subclass', bases=[base])
        elif op == 'passing':
            for _ in range(rnd.choice([2, 4])):
                term = term_of(rnd)
                self.question(program.compiled(term, rnd.choice(NAMES)), 'passing',
                              to=term)
        elif op == 'drop':
            self.drop()
        elif op == 'rename':
            function = program.functions[self.pick_f() - 1]
            function.__name__ = rnd.choice(NAMES)
            function.__qualname__ = rnd.choice(NAMES)
            program.classes[self.pick_c() - 1].__name__ = rnd.choice(CLASSES)
            self.emit('rename')
        elif op == 'recall' and self.answers:
            k = rnd.randrange(len(self.answers))
            self.emit('recall', k=k + 1, rep=project(self.answers[k]))

    def step_new(self):
        rnd, term = self.rnd, term_of(self.rnd)
        self.program.new(term, rnd.choice(NAMES),
                         rnd.choice(['def', 'async', 'gen', 'agen']))
        self.fs.append(term)
        self.of.append(0)
        self.emit('new', to=term)

    def inherited(self):
        """Members of builtin classes come back when nothing overrides them."""
        rnd = self.rnd
        c, name = self.pick_c(), rnd.choice(self.names)
        how = rnd.choice(['class', 'inst'])
        owner = getattr(self.root if how == 'class' else self.root(), name, None)
        x = {'e': 'get', 'c': c, 'how': how, 'm': name}
        if owner is None or isinstance(vars(self.root)[name],
                                       types.ClassMethodDescriptorType):
            return   # class methods of builtin classes belong to the subclass
        if any(name in self.members[k - 1] for k in self.mro(c)):
            return
        out, signature = ask(owner)
        self.question(self.program.value(x), 'inherited', x=x, h=0,
                      base=project(signature) if out == 'ok' else NOTHING)

    def drop(self):
        """Something made, asked about in every way and dropped."""
        rnd, program = self.rnd, self.program
        if rnd.random() < .6 or self.root is not Root:
            self.step_new()
            f = len(self.fs)
            xs = [{'e': 'func', 'f': f}]
            self.dropped_f.add(f)
        else:
            bases = [self.pick_c()]
            program.subclass(bases, rnd.choice(CLASSES))
            self.bases.append([])
            self.members.append(set())
            self.emit('subclass', bases=bases)
            c = len(self.bases)
            xs = [{'e': 'class', 'c': c}]
            found = {m for k in self.mro(c) for m in self.members[k - 1]
                     if m != '__init__'}
            xs += [{'e': 'get', 'c': c, 'how': rnd.choice(['class', 'inst']), 'm': m}
                   for m in sorted(found)]
            self.dropped_c.add(c)
        for x in xs + [{'e': 'part', 'x': xs[0], 'n': rnd.choice([0, 1]), 'kv': []}]:
            self.question(program.value(x), 'final', x=x, h=0)
        things = program.functions if xs[0]['e'] == 'func' else program.classes
        reference = weakref.ref(things[-1])
        things[-1] = None
        gc.collect()
        self.emit('gone', dead='T' if reference() is None else 'F')

    def finish(self):
        for h, value in enumerate(self.program.held, 1):
            self.question(value, 'final', x={'e': 'none'}, h=h)
        for k, signature in enumerate(self.answers, 1):
            self.emit('recall', k=k, rep=project(signature))
        self.program.close()


# ------------------------------------------------------------------ library
def photograph(owner):
    """The attributes of a module or class, and of the functions among them."""
    result = {}
    for name, value in list(vars(owner).items()):
        if name in ('__warningregistry__', '__annotations__'):
            continue
        result[name] = [value]
        function = getattr(value, '__func__', value)
        if isinstance(function, types.FunctionType):
            result[name] += [function.__code__, function.__defaults__,
                             function.__kwdefaults__,
                             *sum(vars(function).items(), ()),
                             *sum(function.__annotations__.items(), ())]
    if isinstance(owner, type):
        result['bases of it'] = list(owner.__bases__)
    return result


def same(first, second):
    """Modules may make attributes of themselves when they are looked up."""
    made = second.keys() - first.keys() - {'__builtins__'}
    if (made and '__getattr__' not in first) or not first.keys() <= second.keys():
        return False
    return all(len(old) == len(second[name])
               and all(x is y for x, y in zip(old, second[name]))
               for name, old in first.items())


def library(seed):
    import stub_walk
    owners = [(f'{m}:{".".join(path)}', owner)
              for m, owner, path in stub_walk.owners()]
    random.Random(seed).shuffle(owners)
    before = [photograph(owner) for _, owner in owners]
    for _, owner in owners:
        for name, value in list(vars(owner).items()):
            ask(value)
            if isinstance(owner, type):
                try:
                    value = getattr(owner, name)
                except Exception:
                    continue
                ask(value)
    for (label, owner), old in zip(owners, before):
        print(json.dumps({'id': label, 'events': [
            {'op': 'leaves', 'x': label,
             'touched': 'F' if same(old, photograph(owner)) else 'T'}]}))


def main():
    if sys.argv[1] == 'library':
        library(int(sys.argv[2]))
        return
    gc.collect()
    gc.freeze()
    if sys.argv[1] == 'histories':
        histories(*sys.argv[2:4])
        return
    count, seed = map(int, sys.argv[2:4])
    for index in range(count):
        story = Story(index, seed)
        for _ in range(story.rnd.choice([10, 20, 40])):
            story.step()
        story.finish()
        print(json.dumps({'id': f'{story.program.module.__name__}-{index}',
                          'events': story.events}))


if __name__ == '__main__':
    main()
