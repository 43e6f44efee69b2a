"""Terms of the objects that exist when running."""
import stub_lib
from stub_walk import module


def runtime_terms(world):
    """Terms of the objects found where the stubs define something."""
    result = {}

    def visit(body, owner, m, path):
        for s in body:
            if s['k'] == 'if':
                visit(s['t'], owner, m, path)
                visit(s['f'], owner, m, path)
            elif s['k'] in ('class', 'var', 'assign', 'def'):
                try:
                    value = getattr(owner, s['n'])
                except Exception:
                    continue
                here = path + [s['n']]
                if s['k'] != 'def' or path == []:
                    result[f'{m}:{".".join(here)}'] = stub_lib.term(value)
                else:
                    result[f'{m}:{".".join(here)}'] = stub_lib.term(value)
                if s['k'] == 'class':
                    visit(s['body'], value, m, here)
    for name in world:
        m = module(name)
        if m is not None:
            visit(world[name]['b'], m, name, [])
    return result
