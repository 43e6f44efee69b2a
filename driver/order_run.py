"""Asks the same questions about random made-up worlds in several orders, each in a
fresh copy of the process.

usage: order_run.py ROOT QUESTIONS TRACES SEED SESSIONS"""
import json
import os
import random
import sys
import warnings

warnings.simplefilter('ignore')
import fake_world  # noqa: E402
import forks  # noqa: E402

root, questions, traces, seed, sessions = sys.argv[1:6]
real = fake_world.enter(root)
import paradigm.base  # noqa: E402

fake_world.leave(real)
assert os.path.dirname(os.path.dirname(paradigm.__file__)).startswith(root)
import ask_lib  # noqa: E402


def stand_in(a):
    qualname = '.'.join(a['p'])
    if a['how'] == 'type':
        return type(a['p'][-1], (), {'__module__': a['m'], '__qualname__': qualname})

    def function(*args, **kwargs):
        pass
    function.__module__, function.__qualname__ = a['m'], qualname
    function.__name__ = a['p'][-1]
    return function


def answers(world, order, who):
    result = []
    for a in order:
        event = ask_lib.ask(f'{world["id"]} {a["id"]} {a["how"]}', stand_in(a), who=who,
                            twice=False, keep=True)
        event['alts'] = []
        result.append(event)
    return result


rng = random.Random(int(seed))
with open(questions) as source, open(traces, 'w') as target:
    for line in source:
        world = json.loads(line)
        asks, events = world['asks'], []
        orders = [asks, asks[::-1], asks + asks]
        while len(orders) < int(sessions):
            orders.append(rng.sample(asks, len(asks)))
        for i, order in enumerate(orders):
            found, failure = forks.forked(lambda: answers(world, order, f's{i}'))
            if failure:
                found = [{'op': 'ask', 'x': f'{world["id"]} session', 'who': f's{i}',
                          'out': failure, 'alts': [], 'dg': '', 'eq': 'T', 'cls': '',
                          'must': 'F'}]
            events += found
        events.sort(key=lambda e: e['x'])
        # one group of questions per trace
        keys = sorted({e['x'] for e in events})
        for i in range(0, len(keys), 10):
            part = set(keys[i:i + 10])
            target.write(json.dumps({
                'id': f'{world["id"]}-{i}', 'sessions': len(orders) if i == 0 else 0,
                'events': [e for e in events if e['x'] in part]}) + '\n')
