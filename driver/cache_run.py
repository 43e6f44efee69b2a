"""Plays scenarios of damages and faulty imports.

usage: cache_run.py ROOT OLD_ROOT ASKS PLAN TRACES SEED
PLAN: lines {id, ops}; ops: {op: "damage", f, at, ...} and {op: "import", fault, uid, ro}
A line {id: "bytes" or "lines", count, part, parts} stands for many scenarios: files cut
anywhere, processes killed at any line."""
import json
import os
import random
import sys

from cache_lab import NOBODY, Lab

root, old_root, asks, plan, traces, seed = sys.argv[1:7]
with open(asks) as file:
    asks = json.load(file)
old = Lab(old_root, [], '0.0.1')
lab = Lab(root, asks)
unsound = lab.unsound() or old.unsound()
if unsound:
    # race_run.py asks for the traces too
    with open(os.environ.get('VP_TRACES', traces), 'w') as file:
        file.write(json.dumps({'id': 'first import', 'events': [unsound]}) + '\n')
    sys.exit(0)
directory = os.path.dirname(lab.paths[0])
rng = random.Random(int(seed))
GARBAGE = [b'', b'\0' * 100, b'(' * 5000, b'1 / 0\n', b'\xff\xfe', b'import nothing\n',
           b"version = '4.3.0'\n", b'definitions = {}\n', b'x = ' + b'[' * 150 + b']' * 150,
           b'raise Exception\n', b'\r' * 10, b'"""', b'def f(:\n', b'version =',
           b'\xef\xbb\xbf', b'# coding: nothing\n', b'lambda: (yield)\n']


def number(f):
    if isinstance(f, int):
        return f % len(lab.paths)
    return next((i for i, name in enumerate(lab.names) if f in name), 0)


def damage(op):
    path = lab.paths[number(op['f'])]
    kind, data = op['at'], lab.good[path]
    lab.take(path)
    if kind == 'old':
        data = old.good[old.paths[lab.paths.index(path)]]
        version = rng.choice(['0.0.1', '999.0.0', '', lab.version + '.post1',
                              lab.version[:-1], lab.version + '0', 'v' + lab.version,
                              lab.version.rpartition('.')[0]])
        lab.put(path, data.replace(repr('0.0.1').encode(), repr(version).encode()),
                compiled=True)
    elif kind == 'broken':
        lab.put(path, rng.choice(GARBAGE) if rng.random() < .7
                else rng.randbytes(rng.randrange(2000)))
    elif kind == 'partial':
        lab.put(path, data[:op.get('k', rng.randrange(len(data) - 30))],
                compiled=rng.random() < .5)
    elif kind == 'without':
        # whole statements are lost
        starts = [i for i in range(len(data))
                  if (i == 0 or data[i - 1:i] == b'\n') and data[i:i + 1].isalpha()]
        i = starts.index(rng.choice(starts))
        end = starts[i + 1] if i + 1 < len(starts) else len(data)
        lab.put(path, data[:starts[i]] + data[end:], compiled=True)
    elif kind == 'mixed':
        # one half is of another version
        other = old.good[old.paths[lab.paths.index(path)]]
        k = rng.randrange(len(data))
        lab.put(path, data[:k] + other[k:])
    elif kind == 'blocked':
        os.mkdir(path)
        if rng.random() < .5:
            open(os.path.join(path, 'file'), 'w').close()
    elif kind == 'complete':
        lab.put(path, data, compiled=rng.random() < .8)
    elif kind == 'miscompiled':
        lab.put(path, data, compiled=True)
        file, = lab.compiled(path)
        code = lab.read(file)
        with open(file, 'wb') as target:
            target.write(code[:rng.choice([0, 3, 16, 17, len(code) // 2,
                                           len(code) - 1, rng.randrange(len(code))])])
    elif kind == 'unreadable':
        lab.put(path, data)
        os.chmod(path, 0)
    elif kind != 'absent':
        raise ValueError(kind)


def bring(op):
    uid, fault = NOBODY if op.get('user') else 0, dict(op.get('fault') or {})
    if 'file' in fault:
        fault['file'] = lab.names[number(fault['file'])]
    if 'share' in fault:
        longest = max(len(lab.good[path]) for path, name in zip(lab.paths, lab.names)
                      if name == fault.get('file', name))
        fault['k'] = int(fault.pop('share') * longest)
    os.chmod(directory, 0o555 if op.get('ro') else 0o777 if uid else 0o755)
    before, marks = lab.state(uid), lab.marks()
    found = lab.bring(fault, uid)
    died = found['out'].startswith('died')
    event = {'op': 'import', 'before': before, 'after': lab.state(uid),
             'fault': 'kill' if died and fault.get('kind') == 'kill'
             else fault.get('kind', 'none') if fault.get('kind') == 'error' else 'none',
             'what': json.dumps(fault), 'ro': 'T' if op.get('ro') and uid else 'F',
             'out': found['out'], 'dg': found['dg'], 'fresh': lab.fresh,
             'built': 'T' if found['built'] else 'F',
             'touched': 'T' if lab.marks() != marks else 'F'}
    os.chmod(directory, 0o755)
    for path in lab.paths:
        if os.path.exists(path):
            os.chmod(path, 0o755 if os.path.isdir(path) else 0o644)
    return event


def play(scenario):
    lab.clear()
    events = []
    for op in scenario['ops']:
        if op['op'] == 'damage':
            damage(op)
        else:
            events.append(bring(op))
    return {'id': scenario['id'], 'events': events}


def scenarios(line):
    if line['id'] == 'bytes':
        for path in lab.paths:
            size = len(lab.good[path])
            cuts = range(size - 1)
            if line['count']:
                data = lab.good[path]
                near = [i for i in range(size) if data[i:i + 1] == b'\n'
                        and data[i + 1:i + 2].isalpha()]
                cuts = sorted({*rng.sample(cuts, min(line['count'], size - 1)),
                               *range(size - 8, size - 1),
                               *[c for n in near for c in (n - 1, n, n + 1, n + 2)
                                 if 0 <= c < size - 1]})
            for i, k in enumerate(cuts):
                if i % line['parts'] == line['part']:
                    f = lab.paths.index(path)
                    yield {'id': f'file {f} cut at {k}', 'ops': [
                        *[{'op': 'damage', 'f': j, 'at': 'complete'}
                          for j in range(len(lab.paths)) if j != f],
                        {'op': 'damage', 'f': f, 'at': 'partial', 'k': k},
                        {'op': 'import'}, {'op': 'import'}]}
    elif line['id'] == 'lines':
        lab.clear()
        probe = lab.bring({'kind': 'none', 'place': 'lines'})
        stops = probe['stops']
        stops += rng.sample(range(1, probe['length']), len(stops))
        if line['count']:
            stops = rng.sample(stops, line['count'])
        for i, k in enumerate(sorted(stops)):
            if i % line['parts'] == line['part']:
                yield {'id': f'killed at line {k}', 'ops': [
                    {'op': 'import', 'fault': {'kind': 'kill', 'place': 'line', 'k': k}},
                    {'op': 'import'}, {'op': 'import'}]}
    else:
        yield line


with open(plan) as source, open(traces, 'w') as target:
    for line in source:
        for scenario in scenarios(json.loads(line)):
            target.write(json.dumps(play(scenario)) + '\n')
