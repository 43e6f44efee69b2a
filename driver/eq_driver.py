"""Builds real annotations, parameters and signatures from terms of spec/Types.tla
and compares them with each other."""
import collections
import collections.abc as ca
import contextlib
import json
import multiprocessing
import os
import random
import re
import sys
import typing as t

import typing_extensions as te

from paradigm.base import (OptionalParameter, OverloadedSignature, ParameterKind,
                           PlainSignature, RequiredParameter)
from sig_lib import KINDS

Elem = t.TypeVar('Elem')


class User(t.Generic[Elem]):
    pass


class Other:
    pass


CLASSES = {'int': int, 'str': str, 'none': type(None), 'bytes': bytes,
           'float': float, 'list': list, 'dict': dict, 'tuple': tuple,
           'type': type, 'object': object, 'other': Other, 'any': t.Any,
           'self': te.Self, 'user': User, 'neverr': t.NoReturn}
VALUES = {'a': 'a', '1': 1, 'true': True, 'none': None, 'b': 'b', 'ba': b'a'}
# typing aliases, what they stand for, counts of arguments
GENERICS = {'set': (t.Set, set, 1), 'frozenset': (t.FrozenSet, frozenset, 1),
            'deque': (t.Deque, collections.deque, 1),
            'defaultdict': (t.DefaultDict, collections.defaultdict, 2),
            'ordered': (t.OrderedDict, collections.OrderedDict, 2),
            'counter': (t.Counter, collections.Counter, 1),
            'chainmap': (t.ChainMap, collections.ChainMap, 2),
            'mapping': (t.Mapping, ca.Mapping, 2),
            'sequence': (t.Sequence, ca.Sequence, 1),
            'iterator': (t.Iterator, ca.Iterator, 1),
            'generator': (t.Generator, ca.Generator, 3),
            'coroutine': (t.Coroutine, ca.Coroutine, 3),
            'awaitable': (t.Awaitable, ca.Awaitable, 1),
            'context': (t.ContextManager, contextlib.AbstractContextManager, 1),
            'pattern': (t.Pattern, re.Pattern, 1),
            'match': (t.Match, re.Match, 1)}
BARE = {'list': (t.List, list), 'dict': (t.Dict, dict),
        'tuple': (t.Tuple, tuple), 'type': (t.Type, type),
        **{name: spellings[:2] for name, spellings in GENERICS.items()}}
DEFAULTS = {'i1': 1, 'i2': 2, 'sa': 'a', 'ba': b'a', 'none': None,
            'tup': (1, 2), 'tup3': (1, 2, 3), 'lst': [1, 2], 'f': 1.5,
            'other': Other, 'ell': ..., 'emptys': '', 'emptyt': ()}


def fresh(value):
    """An equal but separately made value where that is possible."""
    if isinstance(value, list):
        return list(value)
    if isinstance(value, tuple) and value:
        return tuple(list(value))
    if isinstance(value, str) and value:
        return (value + ' ')[:-1]
    return value


def build(term):
    """Type variables and new types made anew, but once for the whole term."""
    made = {}

    def make(term, inside_builtin=False):
        if term['h'].startswith(('tv:', 'nt:', 'psargs:', 'pskwargs:')):
            key = json.dumps(term)
            if key not in made:
                made[key] = build_node(term, make)
            return made[key]
        return build_node(term, make, inside_builtin)

    return make(term)


def build_node(term, build, inside_builtin=False):
    head, sp, args = term['h'], term['sp'], term['args']
    builtin = sp == 'builtin'
    if head.startswith('cls:'):
        name = head[4:]
        if name == 'none' and builtin and inside_builtin:
            return None
        return CLASSES[name]
    if head.startswith('bare:'):
        return BARE[head[5:]][builtin]
    if head == 'literal':
        return te.Literal[tuple(VALUES[a['h'][4:]] for a in args)]
    if head.startswith('tv:'):
        _, name, variance = head.split(':')
        bound = (None if args[0]['h'] == 'cls:nobound' else build(args[0]))
        return t.TypeVar(name, *map(build, args[1:]),
                         **({} if bound is None else {'bound': bound}),
                         covariant=variance == 'co',
                         contravariant=variance == 'contra')
    if head.startswith('nt:'):
        return t.NewType(head[3:], build(args[0]))
    if head.startswith('psargs:'):
        return te.ParamSpec(head[7:]).args
    if head.startswith('pskwargs:'):
        return te.ParamSpec(head[9:]).kwargs
    if head == 'annotated':
        return te.Annotated[tuple(VALUES[a['h'][4:]] if a['h'].startswith('val:')
                                  else build(a) for a in args)]
    inner = [build(a, builtin) for a in args]
    if head.startswith('concat:'):
        return (ca if builtin else t).Callable[
            te.Concatenate[(*inner[:-1], te.ParamSpec(head[7:]))], inner[-1]]
    if head.startswith('gen:'):
        return GENERICS[head[4:]][builtin][
            inner[0] if len(inner) == 1 else tuple(inner)]
    if head.startswith('pscall:'):
        return (ca if builtin else t).Callable[te.ParamSpec(head[7:]), inner[0]]
    if head == 'list':
        return list[inner[0]] if builtin else t.List[inner[0]]
    if head == 'dict':
        return dict[tuple(inner)] if builtin else t.Dict[tuple(inner)]
    if head == 'tuple':
        return (tuple if builtin else t.Tuple)[tuple(inner)]
    if head == 'vartuple':
        return (tuple if builtin else t.Tuple)[inner[0], ...]
    if head == 'type':
        return type[inner[0]] if builtin else t.Type[inner[0]]
    if head == 'iterable':
        return (ca if builtin else t).Iterable[inner[0]]
    if head == 'user':
        return User[inner[0]]
    if head == 'callable':
        return (ca if builtin else t).Callable[inner[:-1], inner[-1]]
    if head == 'anycall':
        return (ca if builtin else t).Callable[..., inner[0]]
    if head == 'union':
        inner = [type(None) if a is None else a for a in inner]
        if sp == 'optional' and len(inner) == 2 and type(None) in inner:
            return t.Optional[inner[inner[0] is type(None)]]
        if builtin:
            result = inner[0]
            for member in inner[1:]:
                result = result | member
            return result
        return t.Union[tuple(inner)]
    raise ValueError(head)


def wrap(annotation, how):
    if how == 0:
        return RequiredParameter(annotation=annotation,
                                 kind=ParameterKind.POSITIONAL_ONLY, name='x')
    if how == 1:
        return OptionalParameter(annotation=annotation, default=None,
                                 kind=ParameterKind.KEYWORD_ONLY, name='x')
    if how == 2:
        return PlainSignature(returns=annotation)
    if how == 3:
        return PlainSignature(wrap(annotation, 1), returns=int)
    return OverloadedSignature(wrap(annotation, 2), wrap(annotation, 3))


ROWS, OBJECTS, CANON = [], [], []


def compare_rows(part):
    count, fails = 0, []
    for i in range(part, len(OBJECTS), PARTS):
        left, canon = OBJECTS[i], CANON[i]
        for j, right in enumerate(OBJECTS):
            same = CANON[j] == canon
            try:
                got = left == right
                clause = ('' if got is same
                          else 'C07.same' if same else 'C07.separates')
                if not clause and same:
                    if hash(left) != hash(right):
                        clause = 'C07.hash'
                if not clause and (i + j) % 17 == 0 and (left != right) is same:
                    clause = 'C07.not_equal'
            except Exception as error:
                clause, got = 'C07.raises', f'{type(error).__name__}: {error}'
            count += 1
            if clause and len(fails) < 40:
                fails.append({'clause': clause, 'how': HOW, 'got': got,
                              'left': repr(ROWS[i]['term']),
                              'right': repr(ROWS[j]['term'])})
    return count, fails


def matrix(path):
    global OBJECTS, PARTS, HOW
    with open(path) as file:
        ROWS.extend(json.loads(line) for line in file)
    index = {}
    for row in ROWS:
        CANON.append(index.setdefault(json.dumps(canonical(row['canon'])),
                                      len(index)))
    PARTS = 8
    total, fails = 0, []
    hows = (0, 1, 2, 3, 4) if os.environ['VP_TIER'] == 'thorough' else (0,)
    if len(ROWS) < 1500:
        hows = (0, 2, 3)
    for HOW in hows:
        OBJECTS = [wrap(build(row['term']), HOW) for row in ROWS]
        with multiprocessing.get_context('fork').Pool(PARTS) as pool:
            for count, part in pool.map(compare_rows, range(PARTS)):
                total += count
                fails += part
    print(json.dumps({'objects': len(ROWS), 'classes': len(index),
                      'compared': total, 'fails': fails[:60]}))


def canonical(c):
    """Canon as printed by TLC, with its sets in a fixed order."""
    return [c['h'], [canonical(x) for x in c['q']],
            sorted((canonical(x) for x in c['s']), key=json.dumps)]


# ------------------------------------------------------------------- groups
def term(h, sp='typing', args=()):
    return {'h': h, 'sp': sp, 'args': list(args)}


NAMES = ['int', 'str', 'none', 'bytes', 'float', 'object', 'other', 'list', 'any',
         'self', 'tuple', 'user']


METADATA = [term('val:a', ''), term('val:b', ''), term('val:ba', ''),
            term('val:1', ''), term('val:none', ''), term('cls:none', 'typing'),
            term('cls:int', 'typing')]


def spelling(rng):
    return rng.choice(['typing', 'builtin'])


def random_term(rng, depth):
    roll = rng.random()
    if depth == 0 or roll < 0.25:
        roll = rng.random()
        if roll < 0.55:
            return term('cls:' + rng.choice(NAMES), spelling(rng))
        if roll < 0.65:
            values = rng.choice([['a'], ['1'], ['true'], ['a', '1'], ['b', 'a'],
                                 ['a', 'true'], ['a', 'none'], ['none'], ['ba'],
                                 ['a', 'ba', '1']])
            return term('literal', args=[term('val:' + v, '') for v in values])
        if roll < 0.8:
            name = rng.choice('TU')
            if rng.random() < 0.3:
                return term(f'tv:{name}:inv', '',
                            [term('cls:nobound'), random_term(rng, 0),
                             random_term(rng, 0)])
            return term(f'tv:{name}:' + rng.choice(['inv', 'co', 'contra']), '',
                        [rng.choice([term('cls:nobound'), term('cls:int'),
                                     term('cls:str'), term('list', 'typing',
                                                           [term('cls:int')])])])
        if roll < 0.87:
            return term('nt:' + rng.choice(['M', 'N', 'O.N']), '',
                        [rng.choice([term('cls:int'), term('cls:str')])])
        if roll < 0.92:
            return term(rng.choice(['psargs:P', 'pskwargs:P', 'psargs:Q']), '')
        return term('bare:' + rng.choice(['list', 'dict', 'tuple', 'type',
                                          *GENERICS]), spelling(rng))
    head = rng.choice(['list', 'dict', 'tuple', 'vartuple', 'type', 'iterable',
                       'user', 'callable', 'anycall', 'union', 'union', 'union',
                       'pscall:P', 'pscall:Q', 'list', 'callable',
                       'gen:', 'gen:', 'annotated', 'concat:' + rng.choice('PQ')])
    if head == 'gen:':
        head += rng.choice(list(GENERICS))
        return term(head, spelling(rng),
                    [random_term(rng, depth - 1)
                     for _ in range(GENERICS[head[4:]][2])])
    if head == 'annotated':
        metadata = rng.sample(METADATA, rng.randint(1, 2))
        args = [random_term(rng, depth - 1)]
        return (term(head, 'typing', args + metadata)
                if args[0]['h'] != head else args[0])
    if head.startswith('concat:'):
        return term(head, spelling(rng), [random_term(rng, depth - 1)
                                          for _ in range(rng.randint(2, 3))])
    count = {'dict': 2, 'tuple': rng.randint(0, 3), 'callable': rng.randint(1, 3),
             'union': rng.randint(2, 4)}.get(head, 1)
    args = [random_term(rng, depth - 1) for _ in range(count)]
    if head == 'type':
        args = [term('cls:' + rng.choice(['int', 'str', 'other', 'list']))]
    if head == 'union':
        args = distinct_members(rng, args)
        if len(args) == 1:
            return args[0]
        sp = rng.choice(['typing', 'builtin', 'optional'])
        if not pipe_works(args) and sp == 'builtin':
            sp = 'typing'
        return term('union', sp, args)
    return term(head, spelling(rng), args)


NO_PIPE = ('literal', 'cls:any', 'cls:self', 'psargs', 'pskwargs', 'nt:', 'cls:none')


def pipe_works(args):
    return not args[0]['h'].startswith('cls:none') or len(args) > 1 and (
            not args[1]['h'].startswith(('cls:none',)))


def py_canon(x):
    """Sort key that identifies spellings, to keep union members distinct."""
    head = x['h']
    args = [py_canon(a) for a in x['args']]
    if head.startswith('bare:'):
        head = 'cls:' + head[5:]
    return json.dumps([head, sorted(args) if head in ('union', 'literal')
                       else args])


def distinct_members(rng, args):
    """Union members that are different types: flattened, at most one literal,
    never Any (which typing keeps) nor equal ones under another spelling."""
    result, seen, literal = [], set(), False
    for arg in args:
        for member in (arg['args'] if arg['h'] == 'union' else [arg]):
            key = py_canon(member)
            if key in seen or (member['h'] == 'literal' and literal):
                continue
            if member['h'].startswith(('psargs', 'pskwargs')):
                continue
            literal = literal or member['h'] == 'literal'
            seen.add(key)
            result.append(member)
    return result or [term('cls:int')]


def respell(rng, x):
    head = x['h']
    args = [respell(rng, a) for a in x['args']]
    if head.startswith('tv:') or head.startswith('nt:'):
        return term(head, '', args)
    if head == 'union':
        rng.shuffle(args)
        if len(args) > 2 and rng.random() < 0.3:
            args = [term('union', 'typing', args[:2]), *args[2:]]
        return term('union', rng.choice(['typing', 'builtin', 'optional']), args)
    if head == 'literal':
        rng.shuffle(args)
        return term('literal', 'typing', args)
    if head == 'annotated':
        return term(head, 'typing', [args[0], *x['args'][1:]])
    return term(head, spelling(rng), args)


def change(rng, x):
    """Another type (usually: the model decides)."""
    y = json.loads(json.dumps(x))
    nodes = []

    def visit(node, parent):
        nodes.append((node, parent))
        if node['h'].startswith(('literal', 'nt:', 'tv:', 'type')):
            return
        for a in node['args'][:1] if node['h'] == 'annotated' else node['args']:
            visit(a, node)

    visit(y, None)
    node, parent = rng.choice(nodes)
    head = node['h']
    if head == 'literal':
        node['args'] = [term('val:' + v, '') for v in rng.choice(
                [['a'], ['1'], ['true'], ['a', '1'], ['b'], ['b', '1'], ['ba']])]
    elif head.startswith('tv:'):
        _, name, variance = head.split(':')
        roll = rng.random()
        if roll < 0.3:
            node['h'] = f'tv:{"U" if name == "T" else "T"}:{variance}'
        elif roll < 0.6 and len(node['args']) == 1:
            node['h'] = f'tv:{name}:' + rng.choice(['inv', 'co', 'contra'])
        elif len(node['args']) == 1:
            node['args'] = [term('cls:int' if node['args'][0]['h'] != 'cls:int'
                                 else 'cls:nobound')]
        else:
            rng.choice([lambda: node['args'].append(term('cls:bytes')),
                        lambda: node.update(args=[node['args'][0],
                                                  *node['args'][:0:-1]])])()
    elif head.startswith('nt:'):
        if rng.random() < 0.5:
            node['h'] = rng.choice([h for h in ('nt:N', 'nt:M', 'nt:O.N') if h != head])
        else:
            node['args'] = [term('cls:float')]
    elif head == 'annotated':
        roll = rng.random()
        if roll < .6:
            node['args'][-1] = rng.choice(METADATA)
        elif roll < .8:
            node['args'].append(rng.choice(METADATA))
        else:
            node['args'][1:] = node['args'][:0:-1]
    elif head.startswith('gen:'):
        same = [name for name in GENERICS
                if GENERICS[name][2] == len(node['args'])]
        if rng.random() < .6 or len(node['args']) == 1:
            node['h'] = 'gen:' + rng.choice(same)
        else:
            node['args'].reverse()
    elif head.startswith('concat:'):
        if rng.random() < .5:
            node['h'] = 'concat:' + ('Q' if head == 'concat:P' else 'P')
        else:
            node['args'].insert(0, term('cls:int'))
    elif head in ('list', 'iterable', 'vartuple', 'anycall', 'user'):
        node['h'] = rng.choice(['list', 'iterable', 'vartuple', 'anycall', 'user',
                                'pscall:P'])
    elif head in ('tuple', 'callable') and node['args']:
        roll = rng.random()
        if roll < 0.4:
            node['args'].append(term('cls:int'))
        elif roll < 0.7:
            node['args'] = node['args'][::-1]
        elif head == 'tuple' or len(node['args']) > 1:
            del node['args'][0]
    elif head == 'dict':
        node['args'] = node['args'][::-1]
    elif head == 'union':
        kept = node['args'] + [term('cls:dict')]
        if len(node['args']) > 2 and rng.random() < 0.5:
            kept = node['args'][1:]
        node['args'] = distinct_members(rng, kept)
        if len(node['args']) < 2:
            node['args'] = [term('cls:int'), term('cls:dict')]
    elif parent is None or parent['h'] != 'union':
        new = random_term(rng, 0)
        node.clear()
        node.update(new)
    return y


def random_object(rng, make):
    kind = rng.choice(['param', 'param', 'plain', 'plain', 'over'])
    if kind == 'param':
        return {'c': 'param', 'p': random_parameter(rng, make, rng.choice('xy'),
                                                    None)}
    alts = [random_plain(rng, make) for _ in range(1 if kind == 'plain'
                                                   else rng.randint(2, 3))]
    return {'c': kind, 'alts': alts}


def random_parameter(rng, make, name, kind):
    kind = kind or rng.choice(['PO', 'PK', 'VP', 'KO', 'VK'])
    cls = ('opt' if kind in ('VP', 'VK') else rng.choice(['req', 'opt']))
    default = ('-' if cls == 'req' or kind in ('VP', 'VK') or rng.random() < 0.4
               else rng.choice(list(DEFAULTS)))
    return {'c': cls, 'n': name, 'k': kind, 'd': default, 'a': make()}


def random_plain(rng, make):
    kinds = [k for k in ['PO', 'PK', 'VP', 'KO', 'VK'] if rng.random() < 0.5]
    ps, optional = [], False
    for index, kind in enumerate(kinds):
        p = random_parameter(rng, make, 'abcde'[index], kind)
        if kind in ('PO', 'PK'):
            if optional and p['c'] == 'req':
                p['c'] = 'opt'
            optional = p['c'] == 'opt'
        ps.append(p)
    return {'ps': ps, 'r': make()}


def map_terms(f, o):
    o = json.loads(json.dumps(o))
    plains = o.get('alts', [])
    params = ([o['p']] if o['c'] == 'param'
              else [p for s in plains for p in s['ps']])
    for p in params:
        p['a'] = f(p['a'])
    for s in plains:
        s['r'] = f(s['r'])
    return o


def members(x):
    return ([m for a in x['args'] for m in members(a)] if x['h'] == 'union'
            else [x])


def ambiguous(o):
    """Whether a union has two members that are spellings of each other."""
    found = []

    def visit(x):
        if x['h'] == 'union':
            keys = [py_canon(m) for m in members(x)]
            if len({json.dumps(m) for m in members(x)}) != len(set(keys)):
                found.append(x)
        for a in x['args']:
            visit(a)
        return x

    map_terms(visit, o)
    return bool(found)


def mutate(rng, o):
    """One near miss."""
    o = json.loads(json.dumps(o))
    plains = o.get('alts', [])
    params = ([o['p']] if o['c'] == 'param'
              else [p for s in plains for p in s['ps']])
    roll = rng.random()
    if roll < 0.45 or not params:
        if params and (rng.random() < 0.7 or not plains):
            p = rng.choice(params)
            p['a'] = change(rng, p['a'])
        elif plains:
            s = rng.choice(plains)
            s['r'] = change(rng, s['r'])
        return o
    if roll < 0.55 and len(plains) > 1:
        if rng.random() < 0.5:
            plains.reverse()
        elif len(plains) > 2:
            plains.pop()
        else:
            plains.append(plains[0])
        return o
    p = rng.choice(params)
    if roll < 0.65:
        p['n'] += rng.choice('_Z')
    elif roll < 0.75 and p['k'] in ('PO', 'PK') and len(params) == 1:
        p['k'] = rng.choice(['PO', 'PK', 'KO'])
    elif roll < 0.85 and len(params) == 1 and p['k'] in ('VP', 'VK'):
        p['k'] = 'VK' if p['k'] == 'VP' else 'VP'
    elif p['c'] == 'opt' and p['k'] not in ('VP', 'VK'):
        p['d'] = rng.choice(['-', *DEFAULTS])
    elif p['k'] == 'KO':
        p['c'] = 'opt'
    elif plains and len(params) == 2 and params[0]['k'] == params[1]['k']:
        params[0]['n'], params[1]['n'] = params[1]['n'], params[0]['n']
    return o


def build_parameter(p):
    cls = RequiredParameter if p['c'] == 'req' else OptionalParameter
    extra = {} if p['d'] == '-' else {'default': fresh(DEFAULTS[p['d']])}
    return cls(annotation=build(p['a']), kind=KINDS[p['k']], name=fresh(p['n']),
               **extra)


def build_object(o):
    if o['c'] == 'param':
        return build_parameter(o['p'])
    plains = [PlainSignature(*map(build_parameter, s['ps']), returns=build(s['r']))
              for s in o['alts']]
    return plains[0] if o['c'] == 'plain' else OverloadedSignature(*plains)


def text(value):
    return 'T' if value is True else 'F' if value is False else repr(value)


def observe(f):
    try:
        return f()
    except Exception as error:
        return f'{type(error).__name__}: {error}'


def group(rng, index):
    depth = rng.randint(0, 3)
    base = random_object(rng, lambda: random_term(rng, depth))
    terms = [base]
    for _ in range(rng.randint(4, 8)):
        source = rng.choice(terms)
        new = (map_terms(lambda x: respell(rng, x), source)
               if rng.random() < 0.5 else mutate(rng, source))
        if not ambiguous(new):
            terms.append(new)
    objects, kept, built = [], [], True
    for o in terms:
        try:
            objects.append(build_object(o))
            kept.append(o)
        except TypeError as error:
            if not unbuildable(error):
                raise
    events = [{'op': 'objects', 'terms': kept, 'built': built}]
    for i, left in enumerate(objects):
        for j, right in enumerate(objects):
            eq = observe(lambda: left == right)
            same_hash = observe(lambda: hash(left) == hash(right)) is True
            stable = observe(lambda: hash(left) == hash(left)
                             and (left == right) is eq) is True
            events.append({'op': 'pair', 'i': i + 1, 'j': j + 1, 'eq': text(eq),
                           'ne': text(observe(lambda: left != right)),
                           'hash': same_hash, 'stable': stable})
        for foreign in (None, 1, 'x', (), object()):
            events.append({'op': 'foreign',
                           'eq': text(observe(lambda: left == foreign)),
                           'ne': text(observe(lambda: left != foreign))})
        # kept in sets and dictionaries
    return {'id': f'group {index}', 'events': events}


def unbuildable(error):
    """typing itself rejects some spellings (None | None, ...)."""
    return True


def groups(count):
    rng = random.Random(int(os.environ['VP_SEED']) * 7919 + 13)
    for index in range(count):
        print(json.dumps(group(rng, index)))


if __name__ == '__main__':
    if sys.argv[1] == 'matrix':
        matrix(sys.argv[2])
    else:
        groups(int(sys.argv[2]))
