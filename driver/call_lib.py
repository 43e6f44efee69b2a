"""Real programs (functions, classes, partials) for the terms of
spec/Callables.tla and the projection of their signatures."""
import functools
import itertools
import keyword
import sys
import types

from paradigm.base import signature_from_callable
from sig_lib import ANNOTATIONS, NO_DEFAULT, VALUES, outcome, project, value_of

class Stop(Exception):
    pass


NAMESPACE = {'Stop_': Stop, 'A_': ANNOTATIONS, 'V_': VALUES, 'functools_': functools}


def parameters_source(ps, *, annotate=True, bare=None):
    """`bare` tells whether an Any annotation is left out."""
    parts = []
    last_po = max([i for i, p in enumerate(ps) if p['k'] == 'PO'], default=None)
    has_vp = any(p['k'] == 'VP' for p in ps)
    starred = False
    for i, p in enumerate(ps):
        if p['k'] == 'KO' and not has_vp and not starred:
            parts.append('*')
            starred = True
        text = {'VP': '*', 'VK': '**'}.get(p['k'], '') + p['n']
        if annotate and not (p['a'] == 'a_any' and (bare is None or bare())):
            text += f": A_['{p['a']}']"
        if p['d'] != NO_DEFAULT:
            text += f" = V_['{p['d']}']"
        parts.append(text)
        if i == last_po:
            parts.append('/')
    return ', '.join(parts)


def function_source(name, term, style, indent='', bare=None):
    head = parameters_source(term['ps'], annotate=style != 'lambda', bare=bare)
    if style == 'lambda':
        return [f'{indent}{name} = lambda {head}: None']
    returns = ('' if term['r'] == 'a_any' and (bare is None or bare())
               else f" -> A_['{term['r']}']")
    prefix = 'async def' if style in ('async', 'agen') else 'def'
    body = 'yield' if style in ('gen', 'agen') else 'return None'
    lines = [f'{indent}{prefix} {name}({head}){returns}:', f'{indent}    {body}']
    if style == 'wrapped':
        lines += [f'{indent}def wrapper_(inner_):',
                  f'{indent}    @functools_.wraps(inner_)',
                  f'{indent}    def result_(*args, **kwargs):',
                  f'{indent}        return inner_(*args, **kwargs)',
                  f'{indent}    return result_',
                  f'{indent}{name} = wrapper_({name})']
    if style == 'closure':
        inner = [f'{indent}def outer_():', f'{indent}    seen_ = []']
        inner += ['    ' + line for line in lines[:-1]]
        inner += [f'{indent}        return seen_.append(1)',
                  f'{indent}    return {name}', f'{indent}{name} = outer_()']
        lines = inner
    return lines


def make_module(name, source):
    module = types.ModuleType(name)
    vars(module).update(NAMESPACE)
    previous = sys.modules.get(name)
    sys.modules[name] = module
    try:
        exec(compile(source, f'<{name}>', 'exec'), vars(module))
    except Stop:
        pass
    return module, previous


def restore_module(name, previous):
    if previous is None:
        sys.modules.pop(name, None)
    else:
        sys.modules[name] = previous


def instance_of(cls):
    for base in cls.__mro__:
        if base.__module__ == 'builtins':
            return base.__new__(cls)
    raise TypeError(cls)


def evaluate(x, functions, classes, values=value_of):
    if x['e'] == 'func':
        return functions[x['f'] - 1]
    if x['e'] == 'class':
        return classes[x['c'] - 1]
    if x['e'] == 'get':
        cls = classes[x['c'] - 1]
        return getattr(cls if x['how'] == 'class' else instance_of(cls), x['m'])
    inner = evaluate(x['x'], functions, classes, values)
    if x.get('how') == 'method':
        return types.MethodType(inner, 0)
    if x.get('how') == 'classmethod':
        return types.MethodType(inner, int)
    return partial(inner, *[0] * x['n'], **{k: values(v) for k, v in x['kv']})


class Partial(functools.partial):
    pass


made = itertools.count()


def partial(function, /, *args, **kwargs):
    """Partials having attributes stay nested in the ones of them."""
    kind = next(made) % 4
    result = (Partial if kind == 3 else functools.partial)(function, *args, **kwargs)
    if kind:
        result.note = 'kept'
    return result


def ask(value):
    return outcome(signature_from_callable, value)


def accepts(value, n, names):
    try:
        result = value(*[0] * n, **{k: 0 for k in names})
    except TypeError:
        return False
    if hasattr(result, 'close'):
        result.close()
    return True


def usable(name):
    return (name.isidentifier() and not keyword.iskeyword(name)
            and not (name.startswith('__') and not name.endswith('__')))


__all__ = ['accepts', 'ask', 'evaluate', 'function_source', 'make_module',
           'partial', 'project', 'restore_module', 'usable']
