"""Asks for the signatures of the objects of the standard library: writes the world (the
bundled stubs and what exists when running) and the recorded answers.

usage: stub_stdlib.py WORLD_OUT TRACE_OUT SEED COUNT(0 for all)"""
import json
import os
import random
import sys
import types
import warnings

warnings.simplefilter('ignore')
import mypy  # noqa: E402
import stub_ast  # noqa: E402
import stub_lib  # noqa: E402
from stub_terms import runtime_terms  # noqa: E402
from stub_walk import module, module_names  # noqa: E402

HOW = {types.FunctionType: 'plain', types.BuiltinFunctionType: 'plain',
       types.MethodDescriptorType: 'plain', types.WrapperDescriptorType: 'plain'}


def places():
    """All the places where objects live, by identity."""
    found, order, kept = {}, [], []

    def note(value, m, path):
        if id(value) not in found:
            found[id(value)] = (value, [])
            order.append(id(value))
        found[id(value)][1].append((m, path))

    def walk(owner, m, path, seen):
        for name, value in list(vars(owner).items()):
            if isinstance(value, type):
                if value not in seen:
                    note(value, m, path + [name])
                    walk(value, m, path + [name], seen | {value})
            elif isinstance(value, types.BuiltinFunctionType):
                # bound methods of instances are another matter
                if isinstance(value.__self__, (types.ModuleType, type)):
                    note(value, m, path + [name])
            elif isinstance(value, types.ClassMethodDescriptorType):
                method = getattr(owner, name, None)
                if (isinstance(method, types.BuiltinMethodType)
                        and method.__self__ is owner):
                    kept.append(method)
                    note(method, m, path + [name])
            elif type(value) in HOW:
                note(value, m, path + [name])
            elif isinstance(value, staticmethod):
                # wrapped functions are found under their own names only
                function = value.__func__
                if (isinstance(function, types.BuiltinFunctionType)
                        or (getattr(function, '__module__', None) == m
                            and getattr(function, '__qualname__', None)
                            == '.'.join(path + [name]))):
                    note(function, m, path + [name])
    for name in module_names():
        m = module(name)
        if m is not None:
            walk(m, name, [], frozenset())
    return [found[i] for i in order]


def main():
    world_out, trace_out, seed, count = (sys.argv[1], sys.argv[2],
                                         int(sys.argv[3]), int(sys.argv[4]))
    root = os.path.join(os.path.dirname(mypy.__file__), 'typeshed', 'stdlib')
    world = stub_ast.world(root)
    values = places()
    traces, rng = {}, random.Random(seed)
    chosen = values if not count else rng.sample(values, min(count, len(values)))
    for value, locs in chosen:
        how = 'type' if isinstance(value, type) else 'plain'
        name = f'{locs[0][0]}:{".".join(locs[0][1])}'
        event = {'id': name, 'how': how,
                 'locs': [{'m': m, 'p': p} for m, p in locs],
                 **stub_lib.ask(value)}
        traces.setdefault(locs[0][0], []).append(event)
    env = {'version': [*sys.version_info[:3], 0, 0], 'platform': sys.platform}
    with open(world_out, 'w') as file:
        file.write(json.dumps({'w': world, 'env': env,
                               'rt': runtime_terms(world)}) + '\n')
    with open(trace_out, 'w') as file:
        for name, events in sorted(traces.items()):
            file.write(json.dumps({'id': name, 'w': 1, 'events': events}) + '\n')


main()
