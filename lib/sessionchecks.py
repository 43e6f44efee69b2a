"""Checks about sessions: orders of questions, threads, caches, processes."""
import itertools
import json
import os
import random
import shutil
import sys
from concurrent.futures import ThreadPoolExecutor

import stubchecks
import vplib

sys.path.insert(0, vplib.DRIVER)
import alias_worlds  # noqa: E402
import fake_world  # noqa: E402
import stub_worlds  # noqa: E402

CONSTANTS = ('CONSTANTS N={N} Width={Width} Mixed={Mixed} Rule="{Rule}" '
             'Length={Length} Part={Part} Parts={Parts}\nSPECIFICATION Spec\n')


# ------------------------------------------------------------------ C16 orders
def alias_model(ctx):
    def cfg(**kwargs):
        values = dict(N=3, Width=2, Mixed='TRUE', Rule='none met', Length=0, Part=0,
                      Parts=1)
        return CONSTANTS.format(**{**values, **kwargs})
    invariants = 'INVARIANT Determined\nINVARIANT Closed\n'
    ctx.model_check('AliasCache', cfg() + invariants)
    # the specification tells right rules from wrong ones
    for rule in ('none outer', 'all'):
        result = ctx.tlc('AliasCache', cfg(Rule=rule) + invariants, count=False)
        if not {'Determined', 'Closed'} & set(result.violated):
            raise vplib.MachineryError(f'the model does not reject the rule {rule}')
    histories = []
    parts = 40 if not ctx.thorough else 4
    for mixed, length, parts in [('FALSE', 3, 1), ('TRUE', 3, parts)]:
        result = ctx.model_check(
                'AliasCache', cfg(Mixed=mixed, Length=length, Parts=parts,
                                  Part=ctx.seed % parts) + invariants
                + 'INVARIANT Emit\n')
        histories += result.lines('HISTORY ')
    return histories


def large_graphs(rng, count):
    """Rings of aliases, longer than the model's graphs, with shortcuts and tails."""
    for i in range(count):
        n = rng.randint(4, 9)
        names = rng.sample(range(1, n + 1), n)
        ring = names[:rng.randint(3, n)]
        graph = {a: [b] for a, b in zip(ring, ring[1:] + ring[:1])}
        for a in names[len(ring):]:
            graph[a] = [rng.choice(names)]
        if rng.random() < .2:
            graph[rng.choice(ring)] = []
        for a in rng.sample(names, rng.choice([0, 0, 1, 1, 2, 3])):
            graph[a].insert(rng.randint(0, 1), rng.choice(names))
        kinds = ['class' if rng.random() < .12 else 'alias' for _ in names]
        sessions = [[a] for a in names] + [
            [rng.choice(names) for _ in range(rng.randint(2, 5))] for _ in range(5)]
        yield [graph[a] for a in range(1, n + 1)], kinds, sessions


def alias_orders(ctx):
    """Histories of the model replayed into the real code."""
    graphs = {}
    for h in alias_model(ctx):
        graphs.setdefault((json.dumps(h['g']), json.dumps(h['k'])), []).append(h['q'])
    rng = random.Random(ctx.seed)
    worlds = []
    for i, ((g, k), sessions) in enumerate(sorted(graphs.items())):
        style = rng.choice(alias_worlds.STYLES)
        worlds.append({'id': f'graph{i} {g} {k} {style}', 'g': json.loads(g),
                       'k': json.loads(k), 'style': style, 'prefix': f'w{i}_',
                       'sessions': sorted(sessions)})
    for i, (g, k, sessions) in enumerate(
            large_graphs(rng, 250 if not ctx.thorough else 4000)):
        style = rng.choice(alias_worlds.STYLES)
        worlds.append({'id': f'large{i} {g} {k} {style}', 'g': g, 'k': k,
                       'style': style, 'prefix': f'v{i}_', 'sessions': sessions})
    rng.shuffle(worlds)
    size = max(1, len(worlds) // 8 + 1)
    batches = [worlds[i:i + size] for i in range(0, len(worlds), size)]

    def run(numbered):
        i, batch = numbered
        root = ctx.path(f'alias{i}', 'x')[:-2]
        stubs = {}
        for w in batch:
            stubs.update(alias_worlds.modules(w['g'], w['k'], w['style'],
                                              w['prefix']))
        fake_world.write(root, stubs, {}, vplib.REPO)
        questions, traces = os.path.join(root, 'worlds'), os.path.join(root, 'traces')
        with open(questions, 'w') as file:
            file.write(''.join(json.dumps(w) + '\n' for w in batch))
        ctx.driver('alias_run.py', root, questions, traces,
                   sut=os.path.join(root, 'sut'), timeout=800)
        found = stubchecks.load(traces)
        shutil.rmtree(root)
        return found
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, enumerate(batches)), [])
    ctx.add('alias_graphs', len(traces))
    ctx.add('alias_sessions', sum(len(w['sessions']) for w in worlds))
    ctx.sample({k: v for k, v in worlds[0].items()})
    for b in ctx.validate('AliasTrace', traces):
        event = b['event']
        ctx.violation(f'{b["trace"]}: asked in session {event["who"]} about '
                      f'{event["x"]}: {", ".join(b["clauses"])}: {event["out"]} '
                      f'{event["v"]}', id=b['trace'], clauses=b['clauses'])


def world_orders(ctx, count):
    """Random cyclic worlds, the questions asked in several orders."""
    worlds = []
    for i in range(count):
        seed = (ctx.seed * 1000003 + i) * 2 + 1
        modules, asks = stub_worlds.world(seed, f'w{i}_', True)
        worlds.append((f'seed{seed}', modules, asks))
    texts = {ident: modules for ident, modules, _ in worlds}
    size = count // 8 + 1
    batches = [worlds[i:i + size] for i in range(0, count, size)]

    def run(numbered):
        i, batch = numbered
        root = ctx.path(f'order{i}', 'x')[:-2]
        fake_world.write(root, {m: text for _, modules, _ in batch
                                for m, text in modules.items()}, {}, vplib.REPO)
        questions, traces = os.path.join(root, 'worlds'), os.path.join(root, 'traces')
        with open(questions, 'w') as file:
            for ident, _, asks in batch:
                file.write(json.dumps({'id': ident, 'asks': asks}) + '\n')
        ctx.driver('order_run.py', root, questions, traces, ctx.seed,
                   6 if not ctx.thorough else 20, sut=os.path.join(root, 'sut'),
                   timeout=800)
        found = stubchecks.load(traces)
        shutil.rmtree(root)
        return found
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, enumerate(batches)), [])
    ctx.add('world_sessions', sum(t.pop('sessions') for t in traces))
    before = len(ctx.violations)
    stubchecks.judge_history(ctx, traces, 10000, only=('determined', 'total'))
    for v in ctx.violations[before:]:
        v['modules'] = texts.get(v['id'].partition(' ')[0])


def library_sessions(ctx):
    """The standard library in several orders, under several hash seeds, with caches
    that were there and that had to be built."""
    shared = ctx.fresh_sut()
    cold = [('cold-0-forward', ctx.fresh_sut(), 0, 'forward'),
            ('cold-1-backward', ctx.fresh_sut(), 1, 'backward'),
            (f'cold-random-{ctx.seed}', ctx.fresh_sut(), 'random', ctx.seed),
            ('cold-3-forward', shared, 3, 'forward')]
    warm = [('warm-0-backward', shared, 0, 'backward'),
            (f'warm-5-{ctx.seed + 1}', shared, 5, ctx.seed + 1),
            ('warm-0-lazy', shared, 0, 'lazy'), ('warm-0-alone', shared, 0, 'alone')]
    if ctx.thorough:
        cold += [(f'cold-{i}-{i}', ctx.fresh_sut(), i, i) for i in range(10, 18)]
        warm += [(f'warm-{i}-{i}', shared, i, i) for i in range(20, 40)]

    def run(session):
        who, sut, hash_seed, order = session
        out = ctx.path('session-' + who)
        ctx.driver('ask_session.py', out, who, order, sut=sut, timeout=700,
                   PYTHONHASHSEED=hash_seed)
        found = stubchecks.load(out)
        os.unlink(out)
        return found
    answers = {}
    with ThreadPoolExecutor(6) as pool:
        for events in itertools.chain(pool.map(run, cold), pool.map(run, warm)):
            for event in events:
                answers.setdefault(event['x'], []).append(event)
    ctx.add('library_sessions', len(cold) + len(warm))
    groups = list(answers.values())
    traces = [{'id': f's{i}', 'events': sum(groups[i:i + 10], [])}
              for i in range(0, len(groups), 10)]
    stubchecks.judge_history(ctx, traces, 50000, only=('determined', 'total'))


def orders(ctx):
    """C16"""
    alias_orders(ctx)
    world_orders(ctx, 200 if not ctx.thorough else 2000)
    library_sessions(ctx)
    ctx.assumptions += ['two answers are the same when their parameters, annotations, '
                        'defaults and texts are, addresses aside']


# ---------------------------------------------------------------- C17 threads
def threads_model(ctx):
    def cfg(**kwargs):
        values = dict(N=2, Width=2, Mixed='FALSE', Rule='none met', Length=0, Part=0,
                      Parts=1, Threads='{1, 2}', Locked='TRUE')
        return ('CONSTANTS ' + ' '.join(
                f'{name}="{value}"' if name == 'Rule' else f'{name}={value}'
                for name, value in {**values, **kwargs}.items())
                + '\nSPECIFICATION ThreadsSpec\nINVARIANT Alike\n'
                + 'INVARIANT Exclusive\nINVARIANT Quiet\n')
    ctx.model_check('EvalThreads', cfg() + 'PROPERTY Ends\n')
    if ctx.thorough:
        ctx.model_check('EvalThreads', cfg(Threads='{1, 2, 3}') + 'PROPERTY Ends\n')
        ctx.model_check('EvalThreads', cfg(N=3))
    # without the lock answers do depend on other threads
    result = ctx.tlc('EvalThreads', cfg(Locked='FALSE'), count=False)
    if 'Alike' not in result.violated:
        raise vplib.MachineryError('the model does not need the lock')


def thread_worlds(ctx):
    rng = random.Random(ctx.seed + 17)
    worlds, count = [], 80 if not ctx.thorough else 600
    for i in range(count):
        n = rng.choice([2, 2, 3, 3, 4])
        graph = [[rng.randint(1, n) for _ in range(rng.choice([0, 1, 1, 2]))]
                 for _ in range(n)]
        kinds = [rng.choice(['alias', 'alias', 'class']) for _ in range(n)]
        style = rng.choice(alias_worlds.STYLES)
        threads = [rng.sample(range(1, n + 1), rng.choice([1, 1, 2]))
                   for _ in range(rng.choice([2, 2, 2, 3]))]
        worlds.append({'id': f'threads{i} {graph} {kinds} {style} {threads}',
                       'g': graph, 'k': kinds, 'style': style, 'prefix': f'w{i}_',
                       'threads': threads})
    size = count // 8 + 1
    batches = [worlds[i:i + size] for i in range(0, count, size)]

    def run(numbered):
        i, batch = numbered
        root = ctx.path(f'threads{i}', 'x')[:-2]
        stubs = {}
        for w in batch:
            stubs.update(alias_worlds.modules(w['g'], w['k'], w['style'],
                                              w['prefix']))
        fake_world.write(root, stubs, {}, vplib.REPO)
        questions, traces = os.path.join(root, 'worlds'), os.path.join(root, 'traces')
        with open(questions, 'w') as file:
            file.write(''.join(json.dumps(w) + '\n' for w in batch))
        ctx.driver('thread_run.py', root, questions, traces, ctx.seed + i,
                   60 if not ctx.thorough else 200,
                   sut=os.path.join(root, 'sut'), timeout=3000)
        found = stubchecks.load(traces)
        shutil.rmtree(root)
        return found
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, enumerate(batches)), [])
    ctx.add('schedules', sum(t['schedules'] for t in traces))
    ctx.sample(worlds[0]['id'])
    for b in ctx.validate('AliasTrace', traces):
        event = b['event']
        ctx.violation(f'{b["trace"]}: {event["who"]} asked about {event["x"]}: '
                      f'{", ".join(b["clauses"])}: {event["out"]} {event["v"]}',
                      id=b['trace'], clauses=b['clauses'])


def thread_library(ctx):
    sut = ctx.sut()
    ctx.driver('sig_lib.py', sut=sut)

    def run(i):
        traces = ctx.path(f'thread_lib{i}')
        ctx.driver('thread_lib.py', traces, ctx.seed * 100 + i,
                   5 if not ctx.thorough else 40, 30 if not ctx.thorough else 100,
                   4 if not ctx.thorough else 40, sut=sut, timeout=3000)
        return stubchecks.load(traces)
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, range(8)), [])
    ctx.add('library_schedules', sum(t.pop('schedules') for t in traces))
    stubchecks.judge_history(ctx, traces, 2000, only=('determined', 'total'))


def threads(ctx):
    """C17"""
    threads_model(ctx)
    thread_worlds(ctx)
    thread_library(ctx)
    ctx.assumptions += ['threads are switched at lines or instructions of the package '
                        'and, in crowds, wherever the interpreter does']


# ----------------------------------------------------------------- C18 caches
def files_cfg(procs='{1}', atomic='TRUE', faults=1, damages=1, runs=3):
    return (f'CONSTANTS Procs={procs} Atomic={atomic} Faults={faults} '
            f'Damages={damages} Runs={runs}\nSPECIFICATION Spec\n')


FILES_INVARIANTS = ('INVARIANT TablesRight\nINVARIANT Detected\nINVARIANT Reused\n'
                    'INVARIANT Usable\n')
FILES_PROPERTIES = 'VIEW Quiet\n' + FILES_INVARIANTS + 'PROPERTY Terminates\n'


def to_scenario(ident, log, rng):
    ops, fault = [], None
    for entry in log:
        if entry['op'] == 'damage':
            at = entry['at']
            if at == 'broken':
                at = rng.choice(['broken', 'without', 'mixed', 'unreadable'])
            elif at == 'complete' and rng.random() < .2:
                at = 'miscompiled'
            ops.append({'op': 'damage', 'f': entry['f'], 'at': at})
            continue
        if entry['op'] != 'import':
            kind, at = entry['op'], entry['at']
            fault = {'kind': kind, 'file': entry['f']}
            if at in ('create', 'replace'):
                fault.update(place=at, k=1)
            elif at in ('half', 'full'):
                fault.update(place='bytes', share=rng.random() if at == 'half' else .999)
            elif at == 'build':
                fault.update(place='build', k=rng.randint(1, 2))
            else:
                fault.update(place='line', k=int(10 ** rng.uniform(2, 5)))
        if entry['op'] in ('import', 'kill'):
            op = {'op': 'import', 'fault': fault}
            if rng.random() < .15:
                op['user'] = True
                op['ro'] = rng.random() < .6
            ops.append(op)
            fault = None
    return {'id': ident, 'ops': ops}


def faulty_imports(ctx):
    result = ctx.model_check('CacheFiles', files_cfg() + FILES_INVARIANTS
                             + 'INVARIANT Emit\n')
    rng = random.Random(ctx.seed)
    histories = sorted(result.lines('HISTORY '), key=json.dumps)
    ctx.add('histories', len(histories))
    chosen = rng.sample(histories, 1000 if not ctx.thorough else 40000)
    plans = [[] for _ in range(8)]
    for i, history in enumerate(chosen):
        plans[i % 8].append(to_scenario(f'history {i}', history['log'], rng))
    ctx.sample(plans[0][0])
    for i, plan in enumerate(plans):
        plan.append({'id': 'bytes', 'count': 100 if not ctx.thorough else 0,
                     'part': i, 'parts': 8})
        plan.append({'id': 'lines', 'count': 300 if not ctx.thorough else 0,
                     'part': i, 'parts': 8})
    os.chmod(ctx.scratch, 0o755)
    modules, asks = stub_worlds.world(ctx.seed, 'w0_', True)
    others, _ = stub_worlds.world(ctx.seed + 1, 'w0_', True)

    def run(numbered):
        i, plan = numbered
        root, old = ctx.path(f'lab{i}', 'x')[:-2], ctx.path(f'old{i}', 'x')[:-2]
        fake_world.write(root, modules, {'w0_a': 'def f(x): pass\n'}, vplib.REPO)
        fake_world.write(old, others, {}, vplib.REPO)
        files = [os.path.join(root, name) for name in ('asks', 'plan', 'traces')]
        with open(files[0], 'w') as file:
            json.dump(asks, file)
        with open(files[1], 'w') as file:
            file.write(''.join(json.dumps(p) + '\n' for p in plan))
        ctx.driver('cache_run.py', root, old, *files, ctx.seed,
                   sut=os.path.join(root, 'sut'), timeout=6000)
        found = stubchecks.load(files[2])
        shutil.rmtree(root)
        shutil.rmtree(old)
        return found
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, enumerate(plans)), [])
    events = [event for trace in traces for event in trace['events']]
    ctx.add('imports', len(events))
    ctx.add('killed', sum(e['fault'] == 'kill' for e in events))
    ctx.add('read_only', sum(e['ro'] == 'T' for e in events))
    for b in ctx.validate('CacheTrace', traces):
        event = b['event']
        ctx.violation(f'{b["trace"]}: import {b["at"]} with files {event["before"]} and '
                      f'fault {event["what"]}: {", ".join(b["clauses"])}: '
                      f'{event["out"]} {event["after"]}', id=b['trace'],
                      clauses=b['clauses'], event=event)


def library_caches(ctx):
    """The standard library asked with tables just built and with the saved ones."""
    sut = ctx.fresh_sut()
    answers = {}
    for who in ('built', 'saved'):
        out = ctx.path('session-' + who)
        ctx.driver('ask_session.py', out, who, 'forward', sut=sut, timeout=700)
        for event in stubchecks.load(out):
            answers.setdefault(event['x'], []).append(event)
    groups = list(answers.values())
    stubchecks.judge_history(
            ctx, [{'id': f's{i}', 'events': sum(groups[i:i + 10], [])}
                  for i in range(0, len(groups), 10)],
            20000, only=('determined', 'total'), what='built, then saved: ')


def caches(ctx):
    """C18"""
    ctx.model_check('CacheFiles', files_cfg(faults=2) + FILES_PROPERTIES)
    with ThreadPoolExecutor(1) as pool:
        library = pool.submit(library_caches, ctx)
        faulty_imports(ctx)
        library.result()
    ctx.assumptions += ['garbage is not a well-formed table of the same version, '
                        'compiled files are damaged by truncation only',
                        'files keep whole seconds between changes']


# ------------------------------------------------------------------ C20 builds
def build_cfg(n, attempts, **kwargs):
    values = {'Closing': 'TRUE', 'Restoring': 'TRUE', 'Inline': 'FALSE', **kwargs}
    return (f'CONSTANTS N={n} Attempts={attempts} '
            + ' '.join(f'{key}={value}' for key, value in values.items())
            + '\nSPECIFICATION Spec\nINVARIANT Contained\nINVARIANT MainKept\n'
              'INVARIANT Skipped\nINVARIANT Raised\nPROPERTY Ends\nPROPERTY Recovers\n')


def builds(ctx):
    """C20"""
    ctx.model_check('BuildProcess', build_cfg(3, 3))
    for name, value, broken in [('Closing', 'FALSE', 'temporal'),
                                ('Restoring', 'FALSE', 'MainKept'),
                                ('Inline', 'TRUE', 'Contained')]:
        result = ctx.tlc('BuildProcess', build_cfg(2, 2, **{name: value}), count=False)
        if result.ok:
            raise vplib.MachineryError(f'the model does not need {name}')
    histories = {}
    for n, attempts in [(2, 3), (3, 2)]:
        result = ctx.model_check('BuildProcess',
                                 build_cfg(n, attempts) + 'INVARIANT Emit\n')
        for history in result.lines('HISTORY '):
            histories[json.dumps(history)] = history
    rng = random.Random(ctx.seed)
    plan = []
    for i, key in enumerate(sorted(histories)):
        for how in ['fork'] + rng.sample(['thread', 'process', 'ignored', 'daemon',
                                          'fork', 'daemonthread', 'nostreams'],
                                         1 if not ctx.thorough else 7):
            if how == 'daemon' and any('die' in a['m'] or a['k']
                                       for a in histories[key]):
                how = 'fork'
            plan.append({'id': f'history {i} {how}', 'how': how, 'attempts': [
                {'m': a['m'], 'w': a['w'], 'k': a['k'],
                 'at': int(10 ** rng.uniform(.5, 4.5))} for a in histories[key]]})
    if not ctx.thorough:
        plan = rng.sample(plan, 900)
    for i in range(24 if not ctx.thorough else 400):
        n = rng.randint(1, 3)
        plan.append({'id': f'other {i}', 'how': rng.choice(['spawn', 'forkserver']),
                     'attempts': [
                         {'m': [rng.choice(['ok', 'raise', 'die']) for _ in range(n)],
                          'w': 'ok', 'k': False, 'at': 0},
                         {'m': ['ok'] * n, 'w': 'ok', 'k': False, 'at': 0}]})
    for i in range(60 if not ctx.thorough else 600):
        plan.append({'id': f'orphan {i}', 'how': 'orphan',
                     'at': int(10 ** rng.uniform(.5, 4.5))})
    ctx.sample(plan[0])
    rng.shuffle(plan)

    def run(i):
        root = ctx.path(f'build{i}', 'x')[:-2]
        fake_world.write(root, {}, {}, vplib.REPO)
        files = [os.path.join(root, name) for name in ('plan', 'traces')]
        with open(files[0], 'w') as file:
            file.write(''.join(json.dumps(p) + '\n' for p in plan[i::8]))
        ctx.driver('build_run.py', root, *files, ctx.seed * 10 + i,
                   sut=os.path.join(root, 'sut'), timeout=3000)
        found = stubchecks.load(files[1])
        shutil.rmtree(root)
        return found
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, range(8)), [])
    events = [event for trace in traces for event in trace['events']]
    ctx.add('builds', sum(e['op'] == 'build' for e in events))
    ctx.add('failed_builds', sum(e.get('out', 'ok') != 'ok' for e in events))
    ctx.add('answers_indexed', sum('stub' in e.get('ans', ()) for e in events))
    ctx.add('parents_killed', sum(e.get('status', 0) != 0 for e in events))
    if not (ctx.coverage['failed_builds'] and ctx.coverage['answers_indexed']
            and ctx.coverage['parents_killed']):
        raise vplib.MachineryError('nothing was built, failed or killed')
    for b in ctx.validate('BuildTrace', traces):
        event = b['event']
        ctx.violation(f'{b["trace"]}: attempt {b["at"]}: {", ".join(b["clauses"])}: '
                      f'{event.get("out")} {event.get("changed")} {event.get("loaded")}',
                      id=b['trace'], clauses=b['clauses'], event=event)
    ctx.assumptions += ['daemonic processes, which can have no children, import modules '
                        'themselves']


# ------------------------------------------------------------------- C19 races
def races(ctx):
    """C19"""
    if ctx.thorough:
        ctx.model_check('CacheFiles', files_cfg('{1, 2}', damages=0, runs=2, faults=2)
                        + FILES_PROPERTIES, timeout=3000)
        ctx.model_check('CacheFiles', files_cfg('{1, 2, 3}', damages=0, runs=1)
                        + 'VIEW Quiet\n' + FILES_INVARIANTS, timeout=3000, heap='16g')
    else:
        ctx.model_check('CacheFiles', files_cfg('{1, 2}', damages=0, runs=1)
                        + FILES_PROPERTIES)
    # writing in place would not do
    result = ctx.tlc('CacheFiles', files_cfg('{1, 2}', 'FALSE', damages=0, runs=1)
                     + 'VIEW Quiet\n' + FILES_INVARIANTS, count=False)
    if not result.violated:
        raise vplib.MachineryError('the model does not need atomic saving')
    rng = random.Random(ctx.seed)
    plan = []
    for i in range(800 if not ctx.thorough else 12000):
        kinds = (['absent'] * 2 if rng.random() < .5 else
                 [rng.choice(['absent', 'old', 'broken', 'partial', 'complete',
                              'without', 'miscompiled']) for _ in range(2)])
        procs = rng.choice([2, 2, 2, 3, 4])
        schedule = []
        for _ in range(rng.randint(1, 2 * procs)):
            p = rng.randrange(procs)
            draw = rng.random()
            schedule.append([p, rng.random() if draw < .75 else
                             rng.choice([1, 10, 100, 1000]) if draw < .9
                             else 'kill' if i % 3 == 0 else rng.random()])
            if rng.random() < .3:
                schedule.append([rng.choice([q for q in range(procs) if q != p]), None])
        plan.append({'id': f'race {i} {kinds} {schedule}', 'procs': procs,
                     'schedule': schedule,
                     'ops': [{'op': 'damage', 'f': f, 'at': kind}
                             for f, kind in enumerate(kinds)]})
    count = 240 if not ctx.thorough else 2400
    for i in range(count):
        # ends while files are changed, others are before, there or have not started
        share, kinds = (i + rng.random()) / count, ['absent'] * 2
        schedule = [[0, [share]], [0, 'kill']]
        if i % 3 == 1:
            schedule[1:1] = [[1, rng.choice([rng.random(), [rng.random()]])]]
        elif i % 3 == 2:
            schedule[:0] = [[1, rng.choice([rng.random(), [rng.random()]])]]
        plan.append({'id': f'end {i} {kinds} {schedule}', 'procs': 1 + (i % 3 > 0),
                     'schedule': schedule, 'ops': []})
    ctx.sample(plan[0])
    os.chmod(ctx.scratch, 0o755)
    modules, asks = stub_worlds.world(ctx.seed + 2, 'w0_', True)

    def run(i):
        root, old = ctx.path(f'race{i}', 'x')[:-2], ctx.path(f'old{i}', 'x')[:-2]
        fake_world.write(root, modules, {'w0_a': 'def f(x): pass\n'}, vplib.REPO)
        fake_world.write(old, {}, {}, vplib.REPO)
        files = [os.path.join(root, name) for name in ('asks', 'plan', 'traces')]
        with open(files[0], 'w') as file:
            json.dump(asks, file)
        with open(files[1], 'w') as file:
            file.write(''.join(json.dumps(p) + '\n' for p in plan[i::8]))
        ctx.driver('race_run.py', root, old, *files, ctx.seed + i,
                   sut=os.path.join(root, 'sut'), timeout=6000)
        found = stubchecks.load(files[2])
        shutil.rmtree(root)
        shutil.rmtree(old)
        return found
    with ThreadPoolExecutor(8) as pool:
        traces = sum(pool.map(run, range(8)), [])
    ctx.add('races', len(traces))
    outs = [event['outs'] for t in traces for event in t['events']
            if event['op'] == 'race']
    ctx.add('processes', sum(map(len, outs)))
    ctx.add('processes_killed', sum(x.count('killed') for x in outs))
    for b in ctx.validate('CacheTrace', traces):
        event = b['event']
        ctx.violation(f'{b["trace"]}: {event["op"]} with files {event["before"]}: '
                      f'{", ".join(b["clauses"])}: {event.get("outs", event.get("out"))}'
                      f' {event["after"]}', id=b['trace'], clauses=b['clauses'],
                      event=event)
    ctx.assumptions += ['processes are switched at lines of the package']
