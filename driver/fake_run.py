"""Answers questions in a made-up world.

usage: fake_run.py ROOT QUESTIONS TRACES WORLDS
QUESTIONS: lines {id, w, modules, asks: [{id, m, p, how}]}, w the number of the line;
TRACES: the answers for StubTrace.tla, or one line {"import": ...} when the code cannot
be imported; WORLDS: the parsed stubs with what exists when running."""
import json
import os
import sys
import warnings

warnings.simplefilter('ignore')
import fake_world  # noqa: E402

root, questions, traces_out, worlds_out = sys.argv[1:5]
real = fake_world.enter(root)
try:
    import paradigm.base  # noqa: F401
except BaseException as error:
    with open(traces_out, 'w') as file:
        file.write(json.dumps({'import': f'{type(error).__name__}: {error}'[:500]})
                   + '\n')
    sys.exit(0)
finally:
    fake_world.leave(real)
assert os.path.dirname(os.path.dirname(paradigm.__file__)).startswith(root)
import stub_ast  # noqa: E402
import stub_lib  # noqa: E402
from stub_terms import runtime_terms  # noqa: E402


def stand_in(module, path, how):
    """An object with the names of the definition."""
    qualname = '.'.join(path)
    if how == 'type':
        return type(path[-1], (), {'__module__': module, '__qualname__': qualname})

    def function(*args, **kwargs):
        pass
    function.__module__, function.__qualname__ = module, qualname
    function.__name__ = path[-1]
    return function


stubs = fake_world.typeshed(root)
env = {'version': [*sys.version_info[:3], 0, 0], 'platform': sys.platform}
base = stub_ast.world(stubs, only=set(fake_world.BASE))
base_terms = runtime_terms(base)
everything = stub_ast.world(stubs)
with open(questions) as source, open(traces_out, 'w') as target, \
        open(worlds_out, 'w') as worlds:
    for line in source:
        trace = json.loads(line)
        events = []
        for a in trace['asks']:
            events.append({'id': a['id'], 'how': a['how'], 'sp': 'T',
                           'locs': [{'m': a['m'], 'p': a['p']}],
                           **stub_lib.ask(stand_in(a['m'], a['p'], a['how']))})
        target.write(json.dumps({'id': trace['id'], 'w': trace['w'],
                                 'events': events}) + '\n')
        own = {name: everything[name] for name in trace['modules']}
        worlds.write(json.dumps({'w': {**base, **own}, 'env': env,
                                 'rt': {**base_terms, **runtime_terms(own)}}) + '\n')
