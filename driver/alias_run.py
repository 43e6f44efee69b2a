"""Sessions of questions about graphs of aliases, each in a fresh copy of the process.

usage: alias_run.py ROOT WORLDS TRACES
WORLDS: lines {id, g, k, style, prefix, sessions: [[node...]...]}"""
import json
import os
import sys
import typing as t
import warnings

warnings.simplefilter('ignore')
import fake_world  # noqa: E402
import forks  # noqa: E402

root, worlds, traces = sys.argv[1:4]
real = fake_world.enter(root)
import paradigm.base  # noqa: E402

fake_world.leave(real)
assert os.path.dirname(os.path.dirname(paradigm.__file__)).startswith(root)
import alias_worlds  # noqa: E402


def stand_in(module, name):
    def function(*args, **kwargs):
        pass
    function.__module__, function.__qualname__ = module, name
    function.__name__ = name
    return function


def value(x):
    if isinstance(x, t.ForwardRef):
        return {'t': 'fwd', 'n': int(x.__forward_arg__[1:]), 'c': []}
    if isinstance(x, type) and t.get_origin(x) is None:
        return {'t': 'class', 'n': int(x.__name__[1:]), 'c': []}
    mark, *rest = t.get_args(x)
    return {'t': 'alias', 'n': int(t.get_args(mark)[0]), 'c': [value(r) for r in rest]}


def ask(world, node, who, given=None):
    event = {'op': 'ask', 'x': node, 'who': who, 'out': 'ok',
             'v': {'t': '?', 'n': node, 'c': []}}
    function = stand_in(alias_worlds.home(node, world['style'], world['prefix']),
                        f'f{node}')
    try:
        signature = paradigm.base.signature_from_callable(function)
        parameter, = signature.parameters
    except Exception as error:
        event['out'] = 'error:' + type(error).__name__
        return event
    if given is not None:
        given.append((event, signature))
    try:
        event['v'] = value(parameter.annotation)
    except Exception:
        pass
    return event


def main():
    with open(worlds) as source, open(traces, 'w') as target:
        for line in source:
            world = json.loads(line)
            events = []
            for i, session in enumerate(world['sessions']):
                who = f's{i}:' + ','.join(map(str, session))
                found, failure = forks.forked(lambda: [ask(world, node, who)
                                                       for node in session])
                events += found if not failure else [
                    {'op': 'ask', 'x': session[0], 'who': who, 'out': failure,
                     'v': {'t': '?', 'n': session[0], 'c': []}}]
            target.write(json.dumps({'id': world['id'], 'g': world['g'],
                                     'k': world['k'], 'events': events}) + '\n')


if __name__ == '__main__':
    main()
