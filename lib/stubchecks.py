"""Checks about the answers for callables described by type stubs."""
import json
import os
import random
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

import vplib

sys.path.insert(0, vplib.DRIVER)
import fake_world  # noqa: E402
import long_worlds  # noqa: E402
import stub_text  # noqa: E402
import stub_worlds  # noqa: E402

SIZE = 40       # questions per trace


def regrouped(path, seed, tag, world=1):
    with open(path) as file:
        events = [event for line in file for event in json.loads(line)['events']]
    random.Random(seed).shuffle(events)
    return [{'id': f'{tag}{i // SIZE}', 'w': world, 'events': events[i:i + SIZE]}
            for i in range(0, len(events), SIZE)]


def short(signatures):
    def term(x):
        return x['o'] + (('[' + ', '.join(map(term, x['a'])) + ']')
                         if x['a'] else '')

    def plain(s):
        return ('(' + ', '.join(f'{p["k"]} {p["n"]}: {term(p["a"])}'
                                + ('' if p['o'] == 'R' else ' = ' + p['d'])
                                for p in s['ps']) + ') -> ' + term(s['r']))
    return ' | '.join(map(plain, signatures))[:700]


def judge(ctx, worlds, traces, least):
    """TLC compares the answers with what the specification derives from stubs."""
    bad, result = ctx.validate('StubTrace', traces, env={'VP_WORLDS': worlds},
                               heap='12g', stack='256m', full=True)
    undescribed = len(result.lines('OPEN '))
    events = sum(len(trace['events']) for trace in traces)
    ctx.add('answers_compared', events - undescribed)
    ctx.add('answers_without_stubs', undescribed)
    if events - undescribed < least:
        raise vplib.MachineryError(f'only {events - undescribed} answers had '
                                   'anything to be compared with')
    for b in bad:
        event = b['event']
        ctx.violation(f'{event["id"]}: {", ".join(b["clauses"])}: '
                      f'{event["out"]} {short(event["alts"])}',
                      clauses=b['clauses'], what_stub=[short(w) for w in b['want']
                                                       ][:3],
                      id=event['id'])
    return bad


def stdlib(ctx):
    """C13: every callable of the standard library against the bundled stubs."""
    runs = [0] if not ctx.thorough else [0, 1, 7, 'random']
    for i, hash_seed in enumerate(runs):
        world, trace = ctx.path(f'world{i}'), ctx.path(f'answers{i}')
        ctx.driver('stub_stdlib.py', world, trace, ctx.seed, 0,
                   PYTHONHASHSEED=hash_seed,
                   sut=ctx.sut() if i == 0 else ctx.fresh_sut())
        traces = regrouped(trace, ctx.seed + i, f'h{hash_seed}-')
        ctx.sample({'id': traces[0]['id'],
                    'event': {k: v for k, v in traces[0]['events'][0].items()
                              if k != 'alts'},
                    'answer': short(traces[0]['events'][0]['alts'])})
        judge(ctx, world, traces, 9000)
        os.unlink(trace)
        os.unlink(world)
    ctx.assumptions += [
        'the stubs bundled with mypy are read as Python code and given their '
        'meaning by Stubs.tla',
        'objects are matched with stubs by the modules and classes where they are '
        'found; annotations whose meaning needs more than names, subscripts, '
        'unions and literals count as unknown']


def load(path):
    with open(path) as file:
        return [json.loads(line) for line in file]


def judge_history(ctx, traces, least, only=None, what=''):
    """TLC compares every answer with the ones before it."""
    bad = ctx.validate('AskTrace', traces)
    answered = sum(event['out'] == 'ok' for trace in traces
                   for event in trace['events'])
    ctx.add('answers', answered)
    if answered < least:
        raise vplib.MachineryError(f'only {answered} questions were answered')
    for b in bad:
        clauses = [c for c in b['clauses'] if only is None or c in only]
        if clauses:
            event = b['event']
            ctx.violation(f'{what}{event["x"]} {event.get("who", "")}: '
                          f'{", ".join(clauses)}: {event["out"]}',
                          clauses=clauses, id=event['x'],
                          event={k: v for k, v in event.items() if k != 'alts'},
                          before=b['before'])
    return bad


def totality(ctx):
    """C12: every question ends in an answer or a refusal."""
    runs = [0] if not ctx.thorough else [0, 3]
    for i, hash_seed in enumerate(runs):
        trace, world = ctx.path(f'asks{i}'), ctx.path(f'world{i}')
        _, out, _ = ctx.driver('ask_sweep.py', trace, ctx.seed,
                               1500 if not ctx.thorough else 0, timeout=1500,
                               PYTHONHASHSEED=hash_seed)
        for key, number in json.loads(out.splitlines()[-1]).items():
            ctx.add(key + '_objects', number)
        traces = load(trace)
        os.unlink(trace)
        judge_history(ctx, traces, 10000, only=('total', 'wellformed', 'repeatable',
                                                'partial'))
        # the ones described by stubs get an answer
        ctx.driver('stub_stdlib.py', world, trace, ctx.seed, 0,
                   PYTHONHASHSEED=hash_seed)
        traces = regrouped(trace, ctx.seed, 's')
        bad, result = ctx.validate('StubTrace', traces, env={'VP_WORLDS': world},
                                   heap='12g', stack='256m', full=True)
        described = (sum(len(t['events']) for t in traces)
                     - len(result.lines('OPEN ')))
        ctx.add('described_objects', described)
        if described < 9000:
            raise vplib.MachineryError(f'only {described} objects have stubs')
        for b in bad:
            if 'answered' in b['clauses']:
                ctx.violation(f'{b["event"]["id"]} is described by the stubs: '
                              f'{b["event"]["out"]}', id=b['event']['id'],
                              clauses=['answered'])
    ctx.assumptions += ['objects whose own attribute access or comparison raises '
                        'other exceptions are left out']


# ------------------------------------------------------------- made-up worlds
def run_worlds(ctx, worlds, name, runtime=None, **extra):
    """worlds: [(id, {module: text}, asks)].  Answers of the code under test in a
    made-up standard library having all these worlds: (traces, world lines)."""
    root = ctx.path(name, 'x')[:-2]
    stubs = {m: text for _, modules, _ in worlds for m, text in modules.items()}
    fake_world.write(root, stubs, runtime or {}, vplib.REPO)
    questions, traces, lines = (os.path.join(root, f) for f in
                                ('questions', 'traces', 'worlds'))
    with open(questions, 'w') as file:
        for i, (ident, modules, asks) in enumerate(worlds):
            file.write(json.dumps({'id': ident, 'w': i + 1,
                                   'modules': sorted(modules), 'asks': asks}) + '\n')
    try:
        ctx.driver('fake_run.py', root, questions, traces, lines,
                   sut=os.path.join(root, 'sut'), timeout=300, **extra)
        found = load(traces)
        if found and 'import' in found[0]:
            if len(worlds) > 1:
                # some world fails: find out which
                shutil.rmtree(root)
                half = len(worlds) // 2
                results = [run_worlds(ctx, part, f'{name}{k}', runtime, **extra)
                           for k, part in (('l', worlds[:half]),
                                           ('r', worlds[half:]))]
                first, second = results
                for trace in second[0]:
                    trace['w'] += len(first[1])
                return first[0] + second[0], first[1] + second[1], \
                    first[2] + second[2]
            return [], [], [(worlds[0][0], worlds[0][1], found[0]['import'])]
        with open(lines) as file:
            return found, file.read().splitlines(), []
    finally:
        shutil.rmtree(root, ignore_errors=True)


def random_worlds(ctx, count, cyclic, first=0, batch=40):
    """Random worlds answered by the real code and judged by the specification."""
    worlds = []
    for i in range(count):
        seed = (ctx.seed * 1000003 + first + i) * 2 + (1 if cyclic else 0)
        modules, asks = stub_worlds.world(seed, f'w{i}_', cyclic)
        worlds.append((f'seed{seed}', modules, asks))
    texts = {ident: modules for ident, modules, _ in worlds}
    batches = [worlds[i:i + batch] for i in range(0, count, batch)]
    with ThreadPoolExecutor(8) as pool:
        results = list(pool.map(lambda x: run_worlds(ctx, x[1], f'fake{x[0]}'),
                                enumerate(batches)))
    return texts, results


def judge_worlds(ctx, texts, results, least):
    traces, lines = [], []
    for found, world_lines, failures in results:
        for trace in found:
            traces.append({**trace, 'w': trace['w'] + len(lines)})
        lines += world_lines
        for ident, modules, error in failures:
            ctx.violation(f'the stubs of world {ident} cannot be processed: {error}',
                          modules=modules, id=ident, clauses=['import'])
    path = ctx.path('worlds')
    with open(path, 'w') as file:
        file.write('\n'.join(lines) + '\n')
    if not traces:
        return
    ctx.add('worlds', len(lines))
    ctx.sample({'world': traces[0]['id'], 'modules': texts.get(traces[0]['id']),
                'answer': short(traces[0]['events'][0]['alts'])
                if traces[0]['events'] else ''})
    before = len(ctx.violations)
    judge(ctx, path, traces, least)
    by_id = {}
    for v in ctx.violations[before:]:
        by_id.setdefault(v['id'], v)
    for trace in traces:
        for event in trace['events']:
            if event['id'] in by_id:
                by_id[event['id']]['modules'] = texts.get(trace['id'])
    os.unlink(path)


GAME = ('SPECIFICATION Spec\nCONSTANTS Game="%s" Names={%s} Size=%d Emitting=TRUE '
        'Part=%d Parts=%d\nINVARIANTS Agree Sensible Inherits Emit\n%s')


def renamed(x, names):
    """The statements with other names of modules."""
    if isinstance(x, dict):
        return {k: names.get(v, v) if k in ('m', 'n') and isinstance(v, str)
                and (k == 'm' or x.get('k') == 'import') else renamed(v, names)
                for k, v in x.items()}
    if isinstance(x, list):
        return [names.get(v, v) if isinstance(v, str) else renamed(v, names) for v in x]
    return x


def imports(body):
    return {x['m'] if isinstance(x['m'], str) else x['m'][0]
            for x in body if x['k'] in ('import', 'from', 'star')}


def is_cyclic(world):
    edges = {m: imports(body) for m, body in world['b'].items()}
    reach = {m: set(e) for m, e in edges.items()}
    for _ in edges:
        for m in reach:
            reach[m] |= set().union(*(edges[x] for x in reach[m]))
    return any(m in reach[m] for m in reach)


def small_worlds(ctx, cyclic):
    """Worlds enumerated by TLC, whose names the specification finds in two ways,
    replayed into the real code."""
    big = ctx.thorough
    games = [('names', '"f"', 3, 1), ('names', '"f","g"', 2, 1),
             ('bases', '"f"', 2, 12 if big else 90)]
    worlds = []
    for game, names, size, parts in games:
        result = ctx.model_check('StubGame', GAME % (
            game, names, size, ctx.seed % parts, parts,
            'PROPERTY Ends\n' if game == 'names' and big else ''), heap='12g')
        found = [w for w in result.lines('WORLD ') if is_cyclic(w) == cyclic]
        found.sort(key=lambda w: json.dumps(w, sort_keys=True))
        ctx.add('small_worlds', len(found))
        wanted = 100000 if big else 500
        worlds += random.Random(ctx.seed).sample(found, min(wanted, len(found)))
    named, texts = [], {}
    for i, w in enumerate(worlds):
        names = {m: f'w{i}_{m}' for m in w['b']}
        modules = {names[m]: stub_text.module(renamed(body, names))
                   for m, body in w['b'].items()}
        ident = f'game{i}'
        asks = [{'id': f'{names[a["m"]]}:{".".join(a["p"])}', 'm': names[a['m']],
                 'p': a['p'], 'how': a['how']} for a in w['asks']]
        named.append((ident, modules, asks))
        texts[ident] = modules
    batches = [named[i:i + 120] for i in range(0, len(named), 120)]
    with ThreadPoolExecutor(8) as pool:
        results = list(pool.map(lambda x: run_worlds(ctx, x[1], f'game{x[0]}'),
                                enumerate(batches)))
    judge_worlds(ctx, texts, results, 500)


def extended(ctx, cyclic):
    """Long chains and deep nesting."""
    worlds = [world for length in ((40, 9) if not ctx.thorough else (60, 48, 36, 12))
              for world in long_worlds.worlds(f'l{length}', length, cyclic)]
    worlds = [(f'{name}{i}', modules, asks)
              for i, (name, modules, asks) in enumerate(worlds)]
    texts = {ident: modules for ident, modules, _ in worlds}
    judge_worlds(ctx, texts, [run_worlds(ctx, worlds, 'long')], 10)


def names(ctx):
    """C14: names in acyclic worlds."""
    small_worlds(ctx, False)
    extended(ctx, False)
    texts, results = random_worlds(ctx, 600 if not ctx.thorough else 6000, False)
    judge_worlds(ctx, texts, results, 2000)


def cycles(ctx):
    """C15: cyclic worlds."""
    small_worlds(ctx, True)
    extended(ctx, True)
    texts, results = random_worlds(ctx, 600 if not ctx.thorough else 6000, True)
    judge_worlds(ctx, texts, results, 2000)
