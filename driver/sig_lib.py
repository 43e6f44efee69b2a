"""Projection between real signature objects and the terms of spec/Signature.tla,
and generators of parameter lists, argument shapes and histories."""
import copy
import keyword
import pickle
import random
import typing as t

import typing_extensions as te

import paradigm.base as base
from paradigm.base import (OptionalParameter, OverloadedSignature, ParameterKind,
                           PlainSignature, RequiredParameter)

KINDS = {'PO': ParameterKind.POSITIONAL_ONLY,
         'PK': ParameterKind.POSITIONAL_OR_KEYWORD,
         'VP': ParameterKind.VARIADIC_POSITIONAL,
         'KO': ParameterKind.KEYWORD_ONLY,
         'VK': ParameterKind.VARIADIC_KEYWORD}
KIND_NAMES = {v: k for k, v in KINDS.items()}
NO_DEFAULT = '-'

T_ = t.TypeVar('T_')


class Sentinel:
    def __repr__(self):
        return 'sig_lib.SENTINEL'

    def __reduce__(self):
        return 'SENTINEL'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


SENTINEL = Sentinel()


class Plain:
    pass


class Odd:
    """Value whose truth and equality must not matter."""
    def __bool__(self):
        raise RuntimeError('truth value asked')

    def __eq__(self, other):
        return self is other

    def __hash__(self):
        return 7

    def __repr__(self):
        return 'sig_lib.ODD'

    def __reduce__(self):
        return 'ODD'

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


ODD = Odd()

ANNOTATIONS = {
    'a_int': int, 'a_str': str, 'a_any': t.Any, 'a_self': te.Self,
    'a_none': None, 'a_listint': t.List[int], 'a_blist': list,
    'a_opt': t.Optional[int], 'a_union': t.Union[int, str],
    'a_call': t.Callable[[int], str], 'a_tuple': t.Tuple[int, ...],
    'a_lit': te.Literal['a', 1], 'a_nested': t.Dict[str, t.List[t.Optional[int]]],
    'a_pep585': list[int], 'a_pep604': int | None, 'a_plain': Plain,
    'a_typevar': T_, 'a_type': t.Type[int], 'a_nonetype': type(None),
    'a_empty': t.Tuple[()],
}
VALUES = {
    'v_none': None, 'v_0': 0, 'v_1': 1, 'v_true': True, 'v_false': False,
    'v_empty': '', 'v_a': 'a', 'v_unit': (), 'v_pair': (1, 2), 'v_list': [],
    'v_dict': {}, 'v_ell': ..., 'v_f': 1.5, 'v_b': b'x', 'v_cls': int,
    'v_sent': SENTINEL, 'v_odd': ODD, 'v_ni': NotImplemented, 'v_neg': -3,
    'v_quote': "it's", 'v_nl': 'a\nb', 'v_tup1': (None,), 'v_kind': 3.0,
}
UNHASHABLE = {'v_list', 'v_dict'}
TOKENS = {**ANNOTATIONS, **VALUES}
NOT_EVALUABLE = {'v_ni'}


def _lookup(table, value, prefix):
    for token, candidate in table.items():
        if candidate is value:
            return token
    for token, candidate in table.items():
        if type(candidate) is type(value) and repr(candidate) == repr(value):
            return token
    if isinstance(value, str) and value.startswith('tok:'):
        return value[4:]
    return prefix + repr(value)[:60]


def annotation_token(value):
    return _lookup(ANNOTATIONS, value, '?')


def value_token(value):
    return _lookup(VALUES, value, '?')


def annotation_of(token):
    return ANNOTATIONS[token] if token in ANNOTATIONS else 'tok:' + token


def value_of(token):
    return VALUES[token] if token in VALUES else 'tok:' + token


# ---------------------------------------------------------------- projection
def project_parameter(p):
    try:
        if type(p) is RequiredParameter:
            o, d = 'R', NO_DEFAULT
        elif type(p) is OptionalParameter:
            o = 'O'
            if p.has_default is True:
                d = value_token(p.default)
            elif p.has_default is False:
                d = NO_DEFAULT
            else:
                d = '?has_default=' + repr(p.has_default)
        else:
            o, d = '?' + type(p).__name__, NO_DEFAULT
        return {'n': p.name if isinstance(p.name, str) else '?' + repr(p.name),
                'k': KIND_NAMES.get(p.kind, '?' + repr(p.kind)), 'o': o, 'd': d,
                'a': annotation_token(p.annotation)}
    except Exception as error:
        return {'n': '?' + type(error).__name__, 'k': '?', 'o': '?', 'd': '?',
                'a': '?'}


def project_plain(s):
    try:
        return {'ps': [project_parameter(p) for p in s.parameters],
                'r': annotation_token(s.returns)}
    except Exception as error:
        return {'ps': [], 'r': '?' + type(error).__name__}


def project(s):
    if type(s) is PlainSignature:
        return {'cls': 'plain', 'alts': [project_plain(s)]}
    if type(s) is OverloadedSignature:
        try:
            return {'cls': 'over', 'alts': [project_plain(x)
                                            for x in s.signatures]}
        except Exception as error:
            return {'cls': '?' + type(error).__name__, 'alts': []}
    return {'cls': '?' + type(s).__name__, 'alts': []}


NOTHING = {'cls': 'none', 'alts': []}


def build_parameter(p):
    if p['o'] == 'R':
        return RequiredParameter(annotation=annotation_of(p['a']),
                                 kind=KINDS[p['k']], name=p['n'])
    extra = {} if p['d'] == NO_DEFAULT else {'default': value_of(p['d'])}
    return OptionalParameter(annotation=annotation_of(p['a']),
                             kind=KINDS[p['k']], name=p['n'], **extra)


def build_plain(term):
    return PlainSignature(*map(build_parameter, term['ps']),
                          returns=annotation_of(term['r']))


def build(cls, alts):
    plains = [build_plain(a) for a in alts]
    return plains[0] if cls == 'plain' else OverloadedSignature(*plains)


def outcome(function, /, *args, **kwargs):
    """-> ('ok', value) or ('error:Type', None)"""
    try:
        return 'ok', function(*args, **kwargs)
    except Exception as error:
        return 'error:' + type(error).__name__, None


def truth(function, /, *args, **kwargs):
    out, value = outcome(function, *args, **kwargs)
    if out != 'ok':
        return out
    return {True: 'T', False: 'F'}.get(value, '?' + repr(value)) \
        if isinstance(value, bool) else '?' + repr(value)


# ------------------------------------------------------------------- Python
def python_function(ps):
    """A real function with the parameters of the term, None if names forbid."""
    if any(not p['n'].isidentifier() or keyword.iskeyword(p['n']) for p in ps):
        return None
    parts, names = [], [p['n'] for p in ps]
    last_po = max([i for i, p in enumerate(ps) if p['k'] == 'PO'], default=None)
    has_vp = any(p['k'] == 'VP' for p in ps)
    starred = False
    for i, p in enumerate(ps):
        if p['k'] == 'KO' and not has_vp and not starred:
            parts.append('*')
            starred = True
        prefix = {'VP': '*', 'VK': '**'}.get(p['k'], '')
        parts.append(prefix + p['n']
                     + ('=None' if p['o'] == 'O' and not prefix else ''))
        if i == last_po:
            parts.append('/')
    namespace = {}
    exec(f'def _function_({", ".join(parts)}):\n    return None', namespace)
    return namespace['_function_']


def python_accepts(function, n, names):
    try:
        function(*[0] * n, **{k: 0 for k in names})
    except TypeError:
        return False
    return True


# --------------------------------------------------------------- generators
NAMES = ['a', 'b', 'c', 'x', 'y', 'z', 'self', 'cls', 'args', 'kwargs', '_',
         '__x', '__dunder__', 'name', 'kind', 'default', 'annotation', 'returns',
         'parameter', 'parameters', 'signature', 'function', 'func', 'key', 'n1',
         'n2', 'n3', 'ünï', 'A', 'other', 'value', 'item', 'has_variadic']
FOREIGN = ['zzz', 'q', 'foreign', 'not an identifier', '', 'class', '*', '/']


def random_list(rnd, size, *, values=True):
    """A legal parameter list with `size` parameters."""
    names = rnd.sample(NAMES, size)
    style = rnd.random()
    kinds = []
    for _ in range(size):
        kinds.append(rnd.choices(['PO', 'PK', 'VP', 'KO', 'VK'],
                                 [3, 4, 1, 3, 1] if style < .6
                                 else ([1, 6, .5, 2, .5] if style < .8
                                       else [6, 3, .5, 1, .5]))[0])
    order = ['PO', 'PK', 'VP', 'KO', 'VK']
    kinds.sort(key=order.index)
    seen, result = set(), []
    optional_from = rnd.choice([0, rnd.randrange(size + 1), size])
    position = 0
    for kind in kinds:
        if kind in ('VP', 'VK'):
            if kind in seen:
                kind_ = 'KO'
                if kind == 'VP':
                    continue
                continue
            seen.add(kind)
        name = names[len(result)]
        if kind in ('VP', 'VK'):
            optional, default = True, NO_DEFAULT
        else:
            if kind in ('PO', 'PK'):
                optional = position >= optional_from
                position += 1
            else:
                optional = rnd.random() < .5
            default = (rnd.choice(list(VALUES))
                       if optional and rnd.random() < .8 else NO_DEFAULT)
        result.append({'n': name, 'k': kind, 'o': 'O' if optional else 'R',
                       'd': default, 'a': rnd.choice(list(ANNOTATIONS))})
    return result


def random_plain(rnd, size):
    return {'ps': random_list(rnd, size), 'r': rnd.choice(list(ANNOTATIONS))}


def random_shape(rnd, alts, *, spoil=.3):
    """An argument shape near the border between fitting and not fitting."""
    ps = rnd.choice(alts)['ps'] if alts else []
    pos = [p for p in ps if p['k'] in ('PO', 'PK')]
    n = rnd.choice([0, len([p for p in pos if p['k'] == 'PO']), len(pos),
                    rnd.randrange(len(pos) + 1), rnd.randrange(len(pos) + 1),
                    rnd.randrange(len(pos) + 1)])
    if rnd.random() < spoil / 2:
        n = rnd.choice([len(pos) + 1, len(pos) + 2, max(0, n - 1)])
    rest = [p for p in pos[n:] if p['k'] == 'PK'] + [p for p in ps
                                                     if p['k'] == 'KO']
    mode = rnd.random()
    names = {p['n'] for p in rest
             if (p['o'] == 'R' and mode < .7) or rnd.random() < .35}
    if rnd.random() < spoil and names:
        names.discard(rnd.choice(sorted(names)))
    if rnd.random() < spoil:
        everyone = [p['n'] for alt in alts for p in alt['ps']]
        names.add(rnd.choice(everyone + FOREIGN))
    if rnd.random() < spoil / 2:
        names.add(rnd.choice(FOREIGN))
    names = sorted(names)
    rnd.shuffle(names)
    return n, names


def random_values(rnd, names):
    return [[k, rnd.choice(list(VALUES))] for k in names]


# ------------------------------------------------------------------- events
class History:
    """Records what happens to one signature object."""
    def __init__(self, id_):
        self.id, self.events = id_, []
        self.current = None

    def new(self, cls, alts):
        out, value = outcome(build, cls, alts)
        self.current = value
        self.events.append({'op': 'new', 'cls': cls, 'alts': alts, 'out': out,
                            'rep': project(value) if out == 'ok' else NOTHING})
        return out == 'ok'

    def probe(self, n, names, *, args=None, values=None):
        s = self.current
        before = project(s)
        args = [0] * n if args is None else args
        kwargs = {k: 0 for k in names} if values is None else dict(zip(names,
                                                                       values))
        all_ = truth(s.all_set, *args, **kwargs)
        exp = truth(s.expects, *args, **kwargs)
        self.events.append({'op': 'probe', 'n': n, 'K': list(names), 'all': all_,
                            'exp': exp, 'keep': project(s) == before})

    def bind(self, n, kv, *, args=None):
        s = self.current
        before = project(s)
        out, value = outcome(s.bind, *([0] * n if args is None else args),
                             **{k: value_of(v) for k, v in kv})
        ok = out == 'ok'
        eq = False
        if ok:
            eq = truth(lambda: s == value) == 'T'
        self.events.append({'op': 'bind', 'n': n, 'kv': kv, 'out': out,
                            'rep': project(value) if ok else NOTHING, 'eq': eq,
                            'keep': project(s) == before})
        if ok and type(value) in (PlainSignature, OverloadedSignature):
            self.current = value
        elif ok:
            self.current = None
        return ok

    def trip(self, how):
        s = self.current
        out, value = outcome(round_trip, s, how)
        ok = out == 'ok'
        event = {'op': 'trip', 'how': how, 'out': out,
                 'rep': project(value) if ok else NOTHING, 'eq': False,
                 'hash': False, 'text': False}
        if ok:
            event['eq'] = (truth(lambda: s == value) == 'T'
                           and truth(lambda: value == s) == 'T'
                           and truth(lambda: s != value) == 'F')
            event['hash'] = outcome(hash, s) == outcome(hash, value)
            event['text'] = (outcome(str, s) == outcome(str, value)
                             and outcome(repr, s) == outcome(repr, value))
        self.events.append(event)
        # type variables of an evaluated representation cannot be pickled
        if ok and type(value) is type(s) and how != 'repr':
            self.current = value

    def text(self, texts):
        out, value = outcome(str, self.current)
        self.events.append({'op': 'str', 'str': value if out == 'ok' else out,
                            'texts': texts})

    def term(self):
        return {'id': self.id, 'events': self.events}


def evaluation_namespace():
    import builtins
    import sig_lib
    import typing_extensions
    import typing
    return {**{n: getattr(base, n)
               for n in ('OptionalParameter', 'OverloadedSignature',
                         'ParameterKind', 'PlainSignature', 'RequiredParameter')},
            'builtins': builtins, 'typing': typing, 'collections': __import__(
                'collections.abc'), 'sig_lib': sig_lib,
            'typing_extensions': typing_extensions, **vars(builtins)}


def round_trip(value, how):
    if how.startswith('pickle'):
        return pickle.loads(pickle.dumps(value, int(how[6:])))
    if how == 'copy':
        return copy.copy(value)
    if how == 'deepcopy':
        return copy.deepcopy(value)
    if how == 'repr':
        namespace = evaluation_namespace()
        namespace['typing'] = t
        return eval(repr(value), namespace)
    raise ValueError(how)


TRIPS = ['pickle2', 'pickle3', 'pickle4', 'pickle5', 'copy',
         'deepcopy', 'repr']
