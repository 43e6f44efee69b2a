"""code -> spec: records histories of real signatures.
usage: sig_histories.py OUT mode count max_size seed"""
import json
import random
import sys

from sig_lib import (ANNOTATIONS, History, KINDS, NO_DEFAULT, NOT_EVALUABLE, ODD,
                     OptionalParameter, RequiredParameter, SENTINEL, TRIPS, VALUES,
                     annotation_of, outcome, project_parameter, python_accepts,
                     python_function, random_list, random_plain, random_shape,
                     random_values, value_of)

out_path, mode, count, max_size, seed = sys.argv[1:6]
count, max_size = int(count), int(max_size)
rnd = random.Random(f'{mode} {seed}')
inadequate = []
ODD_VALUES = [0, None, False, '', (), [], {}, SENTINEL, 1.5, ..., int, ODD]


def size():
    return rnd.choice([rnd.randrange(4), rnd.randrange(max_size + 1),
                       rnd.randrange(max_size + 1)])


def some_values(number):
    return [rnd.choice(ODD_VALUES) for _ in range(number)]


def probe(history, alts, function=None):
    n, names = random_shape(rnd, alts)
    values = some_values(len(names))
    history.probe(n, names, args=some_values(n), values=values)
    return n, names


def alternatives():
    number = rnd.choice([2, 2, 3, 3, 4, 6])
    result = [random_plain(rnd, min(size(), 6)) for _ in range(number)]
    # alternatives resembling each other share shapes
    while rnd.random() < .5:
        base = rnd.choice(result)
        ps = [dict(p) for p in base['ps']]
        if ps:
            i = rnd.randrange(len(ps))
            if rnd.random() < .5:
                ps = ps[:i]
            else:
                ps[i]['n'] = f'renamed{len(result)}'
        result.insert(rnd.randrange(len(result) + 1),
                      {'ps': ps, 'r': rnd.choice(list(ANNOTATIONS))})
    if rnd.random() < .2:
        result.append(dict(result[0]))
    return result[:8]


def spoiled_list():
    """A parameter list that is usually not legal."""
    ps = random_list(rnd, rnd.randrange(2, 6))
    if len(ps) < 2:
        return ps
    kind = rnd.randrange(6)
    i, j = rnd.sample(range(len(ps)), 2)
    if kind == 0:
        ps[i], ps[j] = ps[j], ps[i]
    elif kind == 1:
        ps[i]['n'] = ps[j]['n']
    elif kind == 2:
        rnd.shuffle(ps)
    elif kind == 3:
        if ps[i]['k'] not in ('VP', 'VK'):
            ps[i]['o'] = 'O' if ps[i]['o'] == 'R' else 'R'
            ps[i]['d'] = NO_DEFAULT
    elif kind == 4:
        v = rnd.choice(['VP', 'VK'])
        for x in (i, j):
            ps[x] = {**ps[x], 'k': v, 'o': 'O', 'd': NO_DEFAULT}
    else:
        k = rnd.choice(list(KINDS))
        ps[i] = {**ps[i], 'k': k}
        if k in ('VP', 'VK'):
            ps[i].update(o='O', d=NO_DEFAULT)
    return ps


traces = []
for index in range(count):
    history = History(f'{mode}-{seed}-{index}')
    if mode == 'build':
        for _ in range(6):
            choice = rnd.random()
            if choice < .35:
                history.new('plain', [random_plain(rnd, size())])
            elif choice < .8:
                history.new('plain', [{'ps': spoiled_list(),
                                       'r': rnd.choice(list(ANNOTATIONS))}])
            else:
                history.new('over', [random_plain(rnd, rnd.randrange(4))
                                     for _ in range(rnd.randrange(5))])
            history.current = None
            p = {'n': rnd.choice(['a', 'x']), 'k': rnd.choice(list(KINDS)),
                 'o': rnd.choice('RO'), 'd': NO_DEFAULT,
                 'a': rnd.choice(list(ANNOTATIONS))}
            if p['o'] == 'O' and rnd.random() < .6:
                p['d'] = rnd.choice(list(VALUES))
            extra = ({} if p['d'] == NO_DEFAULT
                     else {'default': value_of(p['d'])})
            cls = RequiredParameter if p['o'] == 'R' else OptionalParameter
            out, value = outcome(cls, annotation=annotation_of(p['a']),
                                 kind=KINDS[p['k']], name=p['n'], **extra)
            history.events.append({'op': 'param', 'p': p, 'out': out,
                                   'rep': project_parameter(value)
                                   if out == 'ok' else p})
    elif mode == 'call':
        term = random_plain(rnd, size())
        if history.new('plain', [term]):
            function = python_function(term['ps'])
            for _ in range(12):
                n, names = probe(history, [term])
                if function is not None:
                    event = history.events[-1]
                    from_python = python_accepts(function, n, names)
                    event['py'] = 'T' if from_python else 'F'
    elif mode == 'life':
        term = random_plain(rnd, size())
        if history.new('plain', [term]):
            for _ in range(rnd.choice([1, 1, 2, 3, 4])):
                alts = history.events[-1].get('rep', {}).get('alts') or [term]
                if history.events[-1]['op'] == 'probe':
                    from sig_lib import project
                    alts = project(history.current)['alts']
                if rnd.random() < .08:
                    n, names = 0, []
                else:
                    n, names = random_shape(rnd, alts, spoil=.15)
                    if rnd.random() < .5:
                        n = rnd.randrange(n + 1)
                        names = names[:rnd.randrange(len(names) + 1)]
                history.bind(n, random_values(rnd, names), args=some_values(n))
                if history.current is None:
                    break
                from sig_lib import project
                for _ in range(3):
                    probe(history, project(history.current)['alts'] or [term])
                probe(history, [term])
    elif mode == 'over':
        alts = alternatives()
        if history.new('over', alts):
            from sig_lib import project
            for _ in range(rnd.choice([1, 2, 3])):
                now = project(history.current)['alts'] or alts
                for _ in range(3):
                    probe(history, now)
                n, names = random_shape(rnd, now, spoil=.15)
                if rnd.random() < .6:
                    n = rnd.randrange(n + 1)
                    names = names[:rnd.randrange(len(names) + 1)]
                history.bind(n, random_values(rnd, names), args=some_values(n))
                if history.current is None:
                    break
                probe(history, now)
    elif mode == 'trip':
        from sig_lib import project
        over = rnd.random() < .35
        alts = alternatives() if over else [random_plain(rnd, size())]
        if history.new('over' if over else 'plain', alts):
            for _ in range(rnd.choice([1, 2, 3])):
                now = project(history.current)['alts'] or alts
                evaluable = not (NOT_EVALUABLE
                                 & {p['d'] for a in now for p in a['ps']})
                for how in rnd.sample(TRIPS, 4):
                    if how != 'repr' or evaluable:
                        history.trip(how)
                        for _ in range(2):
                            probe(history, now)
                n, names = random_shape(rnd, now, spoil=0)
                n = rnd.randrange(n + 1)
                names = names[:rnd.randrange(len(names) + 1)]
                history.bind(n, random_values(rnd, names), args=some_values(n))
                if history.current is None:
                    break
    elif mode == 'text':
        from sig_lib import project
        over = rnd.random() < .3
        tokens = ['a_int', 'a_str', 'a_any', 'a_self', 'a_plain', 'a_listint']
        texts = {'a_int': 'builtins.int', 'a_str': 'builtins.str',
                 'a_any': 'typing.Any', 'a_self': 'typing.Self',
                 'a_plain': 'sig_lib.Plain', 'a_listint': 'typing.List[builtins.int]',
                 'v_0': '0', 'v_none': 'None', 'v_a': "'a'", 'v_pair': '(1, 2)',
                 'v_cls': 'builtins.int', 'v_ell': 'Ellipsis', 'v_false': 'False',
                 'v_empty': "''", 'v_unit': '()', 'v_tup1': '(None,)'}
        alts = alternatives() if over else [random_plain(rnd, size())]
        for a in alts:
            a['r'] = rnd.choice(tokens)
            for p in a['ps']:
                p['a'] = rnd.choice(tokens)
                if p['d'] != NO_DEFAULT:
                    p['d'] = rnd.choice([x for x in texts if x[0] == 'v'])
        if history.new('over' if over else 'plain', alts):
            history.text(texts)
            now = alts
            n, names = random_shape(rnd, now, spoil=0)
            n = rnd.randrange(n + 1)
            names = names[:rnd.randrange(len(names) + 1)]
            if history.bind(n, [[k, rnd.choice([x for x in texts if x[0] == 'v'])]
                                for k in names]) and history.current is not None:
                history.text(texts)
    if history.events:
        traces.append(history.term())

if mode == 'build':
    # every list of up to three parameters over these names, legal or not
    import itertools
    names = 'xyz'[:max(2, min(3, max_size - 9))]
    params = [{'n': n, 'k': k, 'o': o, 'd': NO_DEFAULT, 'a': 'a_int'}
              for n in names for k in KINDS for o in 'RO']
    history = History('build-exhaustive-0')
    for length in range(4):
        for ps in itertools.product(params, repeat=length):
            history.new('plain', [{'ps': list(ps), 'r': 'a_str'}])
            history.current = None
            if len(history.events) >= 400:
                traces.append(history.term())
                history = History(f'build-exhaustive-{len(traces)}')
    for p in params:
        for d in [NO_DEFAULT] + list(VALUES):
            p = {**p, 'd': d if p['o'] == 'O' else NO_DEFAULT}
            cls = RequiredParameter if p['o'] == 'R' else OptionalParameter
            extra = {} if p['d'] == NO_DEFAULT else {'default': value_of(d)}
            out, value = outcome(cls, annotation=int, kind=KINDS[p['k']],
                                 name=p['n'], **extra)
            history.events.append({'op': 'param', 'p': p, 'out': out,
                                   'rep': project_parameter(value)
                                   if out == 'ok' else p})
    from paradigm.base import OverloadedSignature, PlainSignature
    plain = PlainSignature(returns=int)
    over = OverloadedSignature(plain, plain)
    parameter = RequiredParameter(annotation=int, kind=KINDS['PO'], name='x')
    for what, make in [
        ('kind int', lambda: RequiredParameter(annotation=int, kind=0, name='x')),
        ('kind bool', lambda: OptionalParameter(annotation=int, kind=True,
                                                name='x')),
        ('kind str', lambda: RequiredParameter(annotation=int, name='x',
                                               kind='POSITIONAL_ONLY')),
        ('kind none', lambda: OptionalParameter(annotation=int, kind=None,
                                                name='x')),
        ('kind int 4', lambda: OptionalParameter(annotation=int, kind=4,
                                                 name='x')),
        ('no overloads', lambda: OverloadedSignature()),
        ('one overload', lambda: OverloadedSignature(plain)),
        ('nested overload', lambda: OverloadedSignature(plain, over)),
        ('nested overload first', lambda: OverloadedSignature(over, plain)),
        ('overload of parameters', lambda: OverloadedSignature(parameter,
                                                               parameter)),
        ('overload of none', lambda: OverloadedSignature(plain, None)),
        ('third overload', lambda: OverloadedSignature(plain, plain, over)),
        ('no returns', lambda: PlainSignature(parameter)),
        ('parameter twice', lambda: PlainSignature(parameter, parameter,
                                                   returns=int)),
    ]:
        history.events.append({'op': 'misuse', 'what': what,
                               'out': outcome(make)[0]})
    traces.append(history.term())
with open(out_path, 'w') as file:
    for trace in traces:
        file.write(json.dumps(trace) + '\n')
