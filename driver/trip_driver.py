"""Round trips of parameters and signatures over random annotations: the object that
comes back is compared with the objects of its group (spec/EqTrace.tla, op "trip")."""
import builtins
import collections
import collections.abc
import contextlib
import copy
import json
import os
import pickle
import random
import re
import sys
import types
import typing

import typing_extensions

import eq_driver
import paradigm.base
from eq_driver import (build, build_object, map_terms, mutate, random_object,
                       random_term, respell, text)

NAMESPACE = {**{k: v for k, v in vars(paradigm.base).items()
                if not k.startswith('_')},
             'builtins': builtins, 'collections': collections, 'typing': typing,
             'typing_extensions': typing_extensions, 'types': types,
             'eq_driver': eq_driver, 're': re, 'contextlib': contextlib, **{k: getattr(builtins, k) for k in
                                        ('int', 'str', 'bytes', 'float')}}
OPAQUE = ('nt:', 'psargs:', 'pskwargs:', 'pscall:',
          'concat:')


def evaluable(x, builtin=False):
    """Whether the text of an annotation can be evaluated at all."""
    head = x['h']
    if head.startswith(OPAQUE) or builtin and head.startswith(('tv:', 'cls:none')):
        return False
    if head == 'annotated' and builtin and any(a['h'].startswith('cls:')
                                               for a in x['args'][1:]):
        return False
    inner = builtin or (x['sp'] == 'builtin' and bool(x['args'])
                        and not head.startswith('cls:'))
    return all(evaluable(a, inner) for a in x['args'])


def every(o, check):
    found = []
    map_terms(lambda x: found.append(check(x)) or x, o)
    return all(found)


def survives(how):
    def check(x):
        annotation = build(x)
        try:
            how(annotation)
        except Exception:
            return False
        return True

    return check


def reimport(value, protocol):
    return pickle.loads(pickle.dumps(value, protocol))


def repr_trip(value):
    return eval(repr(value), dict(NAMESPACE))


def trips(rng, o):
    result = [('copy', copy.copy)]
    if every(o, survives(copy.deepcopy)):
        result.append(('deepcopy', copy.deepcopy))
    if every(o, survives(pickle.dumps)):
        protocol = rng.randint(2, pickle.HIGHEST_PROTOCOL)
        result.append((f'pickle{protocol}', lambda v: reimport(v, protocol)))
    if every(o, evaluable):
        result.append(('repr', repr_trip))
    return result


def answers(value):
    """What the object tells apart from equality."""
    result = [type(value).__name__]
    if hasattr(value, 'all_set'):
        result += [value.all_set(), value.all_set(1), value.expects(1, a=2)]
    else:
        result += [value.name, int(value.kind), getattr(value, 'has_default', None)]
    return result


def group(rng, index):
    terms = [random_object(rng, lambda: random_term(rng, rng.randint(0, 2)))]
    for _ in range(4):
        new = (map_terms(lambda x: respell(rng, x), terms[0])
               if rng.random() < .3 else mutate(rng, terms[0]))
        if not eq_driver.ambiguous(new):
            terms.append(new)
    kept, objects = [], []
    for o in terms:
        try:
            objects.append(build_object(o))
            kept.append(o)
        except TypeError:
            pass
    events = [{'op': 'objects', 'terms': kept, 'built': True}]
    for i, value in enumerate(objects):
        for how, trip in trips(rng, kept[i]):
            back = error = None
            try:
                back = trip(value)
            except Exception as exc:
                error = f'{type(exc).__name__}: {exc}'
            same = error is None and (how == 'repr' or answers(back)
                                      == answers(value))
            for j, other in enumerate(objects):
                if error is None:
                    eq, qe = back == other, other == back
                    hashes = hash(back) == hash(other)
                else:
                    eq = qe = hashes = False
                events.append({'op': 'trip', 'i': i + 1, 'j': j + 1, 'how': how,
                               'out': error or 'ok', 'eq': text(eq),
                               'qe': text(qe), 'hash': hashes, 'same': same})
    return {'id': f'trip {index}', 'events': events}


if __name__ == '__main__':
    rng = random.Random(int(os.environ['VP_SEED']) * 104729 + 5)
    for index in range(int(sys.argv[1])):
        print(json.dumps(group(rng, index)))
