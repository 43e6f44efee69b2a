"""Projects annotations, parameters and signatures of the code under test to the terms
of Stubs.tla."""
import types
import typing as t

import typing_extensions as te

from paradigm import base
from stub_ast import literal

KINDS = {0: 'PO', 1: 'PK', 2: 'VP', 3: 'KO', 4: 'VK'}
SYNTHESIZED = 'paradigm.'


def T(o, *a):
    return {'o': o, 'a': list(a)}


def class_term(x):
    if x is type(None):
        return T('none')
    if str(getattr(x, '__module__', '')).startswith(SYNTHESIZED):
        return T('s|' + x.__qualname__)
    if x is te.Self:
        return T('self')
    if isinstance(x, type) and x.__module__ == 'collections.abc' \
            and x.__qualname__ == 'Callable':
        return T('callable')
    try:
        x[int]
        prefix = 'c|'
    except TypeError as error:
        prefix = 'n|' if 'not subscriptable' in str(error) \
            or 'not a generic' in str(error) else 'c|'
    except Exception:
        prefix = 'c|'
    return T(f'{prefix}{x.__module__}:{x.__qualname__}')


SPECIAL = {id(t.Any): T('any'), id(te.Any): T('any'), id(t.Union): T('Union'),
           id(t.Optional): T('Optional'), id(t.Literal): T('Literal'),
           id(te.Literal): T('Literal'), id(te.Self): T('self'),
           id(te.Annotated): T('Annotated'), id(t.Callable): T('callable'),
           id(t.NoReturn): T('noreturn'), id(te.NoReturn): T('noreturn'),
           id(Ellipsis): T('dots'), id(None): T('none')}


def term(x):
    """Term of an annotation or of an object found where a stub defines one."""
    try:
        if id(x) in SPECIAL:
            return SPECIAL[id(x)]
        if isinstance(x, t.ParamSpec):
            return T('var|' + x.__name__)
        if isinstance(x, t.TypeVar):
            return T('var|' + x.__name__,
                     T('co' if x.__covariant__ else
                       'contra' if x.__contravariant__ else 'in'),
                     T('nobound') if x.__bound__ is None else term(x.__bound__),
                     *map(term, x.__constraints__))
        if isinstance(x, t.ForwardRef):
            return T('fwd|' + x.__forward_arg__)
        if isinstance(x, (list, tuple)):
            return T('list', *map(term, x))
        if isinstance(x, (bool, int, str, bytes, float)) and not isinstance(x, type):
            return T('const|' + literal(x))
        origin = te.get_origin(x)
        if origin is not None:
            args = te.get_args(x)
            if origin is t.Union or origin is types.UnionType:
                # spellings of the same type in different ways are the same
                members = []
                for member in map(term, args):
                    if member not in members:
                        members.append(member)
                return (members[0] if len(members) == 1
                        else T('union', *members))
            if origin is t.Literal:
                return T('literal', *[T('const|' + literal(a)) if not a is None
                                      else T('none') for a in args])
            if origin is te.Annotated:
                return term(args[0])
            head = term(origin)
            if not args and isinstance(x, types.GenericAlias):
                return T(head['o'], T('list'))
            if head['o'].startswith(('n|', 's|')):
                return head
            return T(head['o'], *map(term, args))
        if isinstance(x, type):
            return class_term(x)
        if isinstance(x, types.ModuleType):
            return T('mod|' + x.__name__)
        if type(x).__module__ in ('typing', 'typing_extensions'):
            return T('x|' + repr(x))
        if isinstance(x, (types.FunctionType, types.BuiltinFunctionType,
                          types.MethodType)):
            return T(f'f|{getattr(x, "__module__", "")}:'
                     f'{getattr(x, "__qualname__", "")}')
    except Exception:
        pass
    return T('?')


def default(parameter):
    if not getattr(parameter, 'has_default', False):
        return '-'
    value = parameter.default
    try:
        return literal(value)
    except Exception:
        return '?'


def parameter(p):
    return {'n': p.name, 'k': KINDS[int(p.kind)],
            'o': 'R' if isinstance(p, base.RequiredParameter) else 'O',
            'd': '-' if isinstance(p, base.RequiredParameter) else default(p),
            'a': term(p.annotation)}


def plain(s):
    return {'ps': [parameter(p) for p in s.parameters], 'r': term(s.returns)}


def signature(s):
    return [plain(x) for x in (s.signatures if hasattr(s, 'signatures') else [s])]


def ask(x):
    """Outcome of the question for the signature of the object."""
    try:
        s = base.signature_from_callable(x)
    except Exception as error:
        return {'out': 'error:' + type(error).__name__, 'alts': []}
    return {'out': 'ok', 'alts': signature(s)}
