"""code -> spec: random programs, the signatures of their callables and real calls;
binding laws over standard library callables.
usage: call_traces.py user|stdlib COUNT SEED"""
import functools
import importlib
import inspect
import json
import random
import sys
import types
import warnings

from call_lib import (accepts, ask, evaluate, function_source, make_module, partial,
                      project, restore_module, usable)
from paradigm.base import signature_from_callable
from sig_lib import (NO_DEFAULT, NOTHING, VALUES, outcome, random_plain,
                     random_shape, truth, value_of)

what, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
rnd = random.Random(f'{what} {seed}')
warnings.simplefilter('ignore')

MODULES = ['user_module', 'package_.module_', 'imp', 'distutils.util', 'asynchat',
           '__main__', 'smtpd', 'typing_like', 'os_', '_typeshed', 'mypy_extensions',
           '_bootlocale', 'binhex', 'distutils', 'asyncio_', 'dummy_threading']
NAMES = ['f', 'open', 'print', 'len', 'dict', 'load_module', 'strtobool', 'reduce',
         'namedtuple', 'handler', 'find_module', 'copy', 'sorted', 'getattr', 'mkpath',
         'overload', 'cast', 'reload']
CLASSES = ['Foo', 'dict', 'list', 'str', 'OrderedDict', 'Thread', 'NullImporter',
           'partial', 'object_', 'Path', 'Command', 'type_', 'SMTPServer', 'int',
           'TypeVar', 'property_']
MEMBERS = ['m', 'run', 'get', 'join', 'append', 'keys', '__call__', 'fromkeys',
           'encode', '__len__', 'update', 'find_module', 'copy']
STYLES = ['def', 'def', 'def', 'async', 'gen', 'agen', 'lambda', 'closure', 'wrapped']


def function_term(style):
    while True:
        term = random_plain(rnd, rnd.choice([0, 1, 2, 3, 3, 4, 5, 7]))
        if all(usable(p['n']) for p in term['ps']):
            break
    for p in term['ps']:
        if p['o'] == 'O' and p['k'] not in ('VP', 'VK') and p['d'] == NO_DEFAULT:
            p['d'] = rnd.choice(list(VALUES))
        if rnd.random() < .3:
            p['a'] = 'a_any'
        if style == 'lambda':
            p['a'] = 'a_any'
    # defaults of positional parameters are contiguous in definitions already
    if style == 'lambda' or rnd.random() < .3:
        term['r'] = 'a_any'
    return term


def bare():
    return rnd.random() < .6


def random_program(index):
    fs, cs, lines, where = [], [], [], []
    used = set()

    def name_from(pool):
        while True:
            name = rnd.choice(pool)
            if rnd.random() < .3:
                name += str(rnd.randrange(9))
            if name not in used:
                used.add(name)
                return name

    for _ in range(rnd.randrange(1, 4)):
        style, name = rnd.choice(STYLES), name_from(NAMES)
        term = function_term(style)
        fs.append(term)
        lines += function_source(name, term, style, '', bare)
        if rnd.random() < .15:
            lines.append(f"{name}.__name__ = {rnd.choice(NAMES)!r}")
        if rnd.random() < .15:
            lines.append(f"{name}.__qualname__ = {rnd.choice(NAMES)!r}")
        where.append(name)
    builder = rnd.choice(['__init__', '__new__'])
    roots = rnd.choice(['', '', '', 'dict', 'Exception', 'abc', 'generic', 'list'])
    names, members = [], rnd.sample(MEMBERS, rnd.randrange(1, 4))
    legal = True
    for c in range(rnd.choice([0, 1, 2, 3, 4, 5])):
        name = name_from(CLASSES)
        k = rnd.choice([0, 1, 1, 2, 2, 3])
        bases = rnd.sample(range(1, c + 1), min(k, c))
        if rnd.random() < .03 and bases:
            bases.append(bases[0])
        header = [names[b - 1] for b in bases]
        if not bases:
            header += {'': [], 'dict': ['b_.dict'], 'Exception': ['b_.Exception'],
                       'abc': ['metaclass=abc_.ABCMeta'], 'list': ['b_.list'],
                       'generic': ['t_.Generic[T_]']}[roots]
        indent = ''
        lines.append('try:')
        body, ms = [], []
        for member in members + [builder]:
            if rnd.random() < .5:
                continue
            sort = ('func' if member == builder
                    else rnd.choice(['func', 'func', 'static', 'classm']))
            plain = [i for i, f in enumerate(fs, 1) if i <= len(where)]
            if rnd.random() < .15 and plain and member != builder:
                f = rnd.choice(plain)
                text = {'func': where[f - 1],
                        'static': f'b_.staticmethod({where[f - 1]})',
                        'classm': f'b_.classmethod({where[f - 1]})'}[sort]
                body.append(f'        {member} = {text}')
                ms.append({'name': member, 'sort': sort, 'f': f})
                continue
            style = rnd.choice(STYLES if member != builder else ['def', 'wrapped'])
            term = function_term(style)
            if sort != 'static' and (member == builder or rnd.random() < .9):
                # something takes the receiver
                while not any(p['k'] in ('PO', 'PK', 'VP') for p in term['ps']):
                    term = function_term(style)
            fs.append(term)
            inside = function_source(member, term, style, '        ', bare)
            if sort != 'func':
                decorator = 'b_.' + {'static': 'staticmethod',
                                     'classm': 'classmethod'}[sort]
                if style in ('closure', 'lambda', 'wrapped'):
                    inside.append(f'        {member} = {decorator}({member})')
                else:
                    inside.insert(0, f'        @{decorator}')
            body += inside
            ms.append({'name': member, 'sort': sort, 'f': len(fs)})
        lines.append(f'    class {name}({", ".join(header)}):')
        lines.append('        pass')
        lines += body
        lines += ['except TypeError as error_:',
                  '    made_ = False; why_ = b_.str(error_); raise Stop_', 'else:',
                  f'    classes_.append({name})']
        names.append(name)
        cs.append({'bases': bases, 'ms': ms})
    prelude = ['import builtins as b_, abc as abc_, typing as t_',
               'T_ = t_.TypeVar("T_")', 'made_ = True', 'classes_ = []']
    cut = []
    for number, line in enumerate(lines):
        cut.append(line)
    source = '\n'.join(prelude + cut) + '\n'
    return fs, cs, where, source, names


def expressions(fs, cs, where):
    result = [{'e': 'func', 'f': i} for i in range(1, len(where) + 1)]
    for c in range(1, len(cs) + 1):
        result.append({'e': 'class', 'c': c})
        for name in {m['name'] for k in cs for m in k['ms']}:
            result += [{'e': 'get', 'c': c, 'how': how, 'm': name}
                       for how in ('class', 'inst')]
    return result


def user_trace(index):
    fs, cs, where, source, _ = random_program(index)
    module_name = rnd.choice(MODULES)
    events = []
    previous, made = None, True
    module, previous = make_module(module_name, source)
    try:
        events.append({'op': 'prog', 'fs': fs, 'cs': cs,
                       'made': 'T' if module.made_ else 'F'})
        if not module.made_:
            if 'linear' not in module.why_ and 'duplicate' not in module.why_ \
                    and 'MRO' not in module.why_:
                return None
            return {'id': f'{module_name}-{index}', 'events': events}
        functions = [getattr(module, name) for name in where]
        classes = module.classes_
        candidates = expressions(fs, cs, where)
        rnd.shuffle(candidates)
        for x in candidates[:8]:
            if x['e'] == 'get':
                owner = classes[x['c'] - 1]
                user = [k for k in owner.__mro__ if k.__module__ == module_name]
                if not any(x['m'] in vars(k) for k in user):
                    continue
                if x['m'].startswith('__') and x['how'] == 'class' \
                        and x['m'] == '__call__':
                    pass
            if x['e'] == 'class' and not builder_known(classes[x['c'] - 1],
                                                       module_name):
                continue
            try:
                value = evaluate(x, functions, classes)
            except TypeError:
                continue
            record(events, x, value, cs, fs)
            shape_base = events[-1]['rep']['alts'] or [{'ps': [], 'r': ''}]
            current, current_x = value, x
            for _ in range(rnd.choice([0, 1, 1, 2])):
                n, names = random_shape(rnd, shape_base, spoil=.12)
                if rnd.random() < .6:
                    n, names = rnd.randrange(n + 1), names[:rnd.randrange(
                            len(names) + 1)]
                how = ''
                if x['e'] == 'func' and rnd.random() < .3 \
                        and isinstance(current, types.FunctionType):
                    how, n, names = rnd.choice(['method', 'classmethod']), 1, []
                current_x = {'e': 'part', 'x': current_x, 'n': n,
                             'kv': [[k, rnd.choice(list(VALUES))] for k in names]}
                if how:
                    current_x['how'] = how
                current = evaluate(current_x, functions, classes)
                if record(events, current_x, current, cs, fs):
                    shape_base = events[-1]['rep']['alts']
                    probe(events, current_x, current, shape_base)
                else:
                    break
            else:
                if events[-1]['op'] != 'ask' or events[-1]['out'] == 'ok':
                    probe(events, current_x, current, shape_base)
            if x['e'] in ('func', 'class', 'get') and current is not value:
                base = [e for e in events if e['op'] == 'ask' and e['x'] == x][0]
                if base['out'] == 'ok':
                    probe(events, x, value, base['rep']['alts'])
    finally:
        restore_module(module_name, previous)
    return {'id': f'{module_name}-{index}', 'events': events}


def builder_known(cls, module_name):
    """Constructed by user code, or by object itself."""
    for base in cls.__mro__:
        if base.__module__ == module_name:
            if '__init__' in vars(base) or '__new__' in vars(base):
                return True
    return all(base is object or base.__module__ == module_name
               for base in cls.__mro__)


def record(events, x, value, cs, fs):
    out, signature = ask(value)
    out2, again = ask(value)
    same = out == out2 and (out != 'ok' or truth(lambda: signature == again) == 'T')
    events.append({'op': 'ask', 'x': x, 'out': out, 'same': same,
                   'rep': project(signature) if out == 'ok' else NOTHING})
    return out == 'ok'


def probe(events, x, value, alts):
    out, signature = ask(value)
    if out != 'ok':
        return
    for _ in range(2):
        n, names = random_shape(rnd, alts)
        all_ = truth(signature.all_set, *[0] * n, **{k: 0 for k in names})
        events.append({'op': 'call', 'x': x, 'n': n, 'K': names, 'all': all_,
                       'py': 'T' if accepts(value, n, names) else 'F'})


# ------------------------------------------------------------ standard library
STDLIB = ['builtins', 'os', 'os.path', 'collections', 'functools', 'itertools', 're',
          'json', 'math', 'random', 'threading', 'subprocess', 'pathlib', 'logging',
          'argparse', 'datetime', 'decimal', 'string', 'io', 'socket', 'struct',
          'operator', 'heapq', 'bisect', 'copy', 'enum', 'fractions', 'hashlib',
          'inspect', 'ipaddress', 'shutil', 'statistics', 'tempfile', 'textwrap',
          'time', 'types', 'typing', 'urllib.parse', 'uuid', 'weakref', 'zipfile',
          'asyncio', 'contextlib', 'csv', 'difflib', 'email.message', 'configparser',
          'concurrent.futures', 'queue', 'sched', 'select', 'shlex', 'ast', 'array',
          'xml.etree.ElementTree', 'unittest', 'collections.abc', 'traceback', 'zlib']
INSTANCES = '''
[1] | {1: 2} | 'a' | b'a' | 1 | 1.5 | 1j | (1,) | {1} | frozenset({1}) | bytearray(b'a')
True | range(3) | slice(1) | memoryview(b'a') | object() | None | iter([1]) | iter({})
reversed([1]) | enumerate([]) | zip() | map(len, []) | (x for x in [])
ValueError('a') | property(len) | staticmethod(len) | classmethod(len) | super(int, 1)
collections.OrderedDict() | collections.Counter() | collections.defaultdict(int)
collections.deque() | collections.ChainMap() | collections.UserDict()
functools.partial(len) | itertools.chain() | itertools.count() | itertools.cycle([])
random.Random() | threading.Lock() | threading.RLock() | threading.Thread()
threading.Event() | threading.Condition() | threading.Semaphore() | threading.local()
pathlib.Path('.') | pathlib.PurePosixPath('.') | logging.getLogger('x')
logging.StreamHandler() | logging.Formatter() | argparse.ArgumentParser()
argparse.Namespace() | datetime.datetime(2000, 1, 1) | datetime.date(2000, 1, 1)
datetime.timedelta(1) | datetime.timezone.utc | decimal.Decimal(1)
decimal.Context() | string.Template('a') | string.Formatter() | io.StringIO()
io.BytesIO() | struct.Struct('i') | fractions.Fraction(1) | hashlib.sha256()
hashlib.md5() | inspect.Signature() | ipaddress.ip_address('1.2.3.4')
ipaddress.ip_network('1.2.3.0/24') | textwrap.TextWrapper() | uuid.uuid4()
weakref.WeakValueDictionary() | weakref.WeakSet() | queue.Queue() | queue.SimpleQueue()
sched.scheduler() | shlex.shlex('a') | ast.parse('1') | ast.NodeVisitor()
array.array('i') | xml.etree.ElementTree.Element('a') | unittest.TestCase()
email.message.EmailMessage() | configparser.ConfigParser() | csv.DictReader([])
re.compile('a') | re.match('a', 'a') | zlib.compressobj() | json.JSONEncoder()
json.JSONDecoder() | contextlib.ExitStack() | difflib.SequenceMatcher()
statistics.NormalDist() | tempfile.SpooledTemporaryFile() | types.SimpleNamespace()
types.MappingProxyType({}) | operator.itemgetter(1) | operator.attrgetter('a')
concurrent.futures.Future() | urllib.parse.urlparse('a') | time.gmtime()
traceback.TracebackException(ValueError, ValueError(), None) | enum.auto()
int | str | dict | type | len | lambda: 0 | types | ast.Name('a')
'''


def wide(rep):
    return rep


def stdlib_events(number):
    namespace = {}
    for name in STDLIB:
        try:
            module = importlib.import_module(name)
        except ImportError:
            continue
        namespace[name.split('.')[0]] = sys.modules[name.split('.')[0]]
    callables = []
    for name in STDLIB:
        module = sys.modules.get(name)
        for key, value in sorted(vars(module).items() if module else ()):
            if not callable(value):
                continue
            callables.append((f'{name}.{key}', value))
            if isinstance(value, type):
                for sub in sorted(vars(value)):
                    inner = getattr(value, sub, None)
                    if callable(inner):
                        callables.append((f'{name}.{key}.{sub}', inner))
    instances = []
    for text in INSTANCES.replace('\n', ' | ').split(' | '):
        if text.strip():
            try:
                instances.append((text, eval(text, dict(namespace))))
            except Exception:
                continue
    for k in ('dict', 'list', 'str', 'int', 'Exception', 'collections.Counter',
              'threading.Thread', 'collections.UserDict', 'json.JSONEncoder'):
        cls = type('User', (eval(k, dict(namespace)),), {'__module__': 'user_module'})
        instances.append((f'user subclass of {k}', cls()))
    return callables, instances


def law(base_value, value, n, kv, label, **how):
    out0, base = ask(base_value)
    if out0 != 'ok':
        return None
    out, signature = ask(value)
    same = False
    if out == 'ok':
        bound = outcome(base.bind, *[0] * n, **{k: value_of(v) for k, v in kv})
        same = (bound[0] == 'ok'
                and truth(lambda: bound[1] == signature) == 'T')
    return {'op': 'law', 'label': label, 'base': project(base)['alts'], 'n': n,
            'kv': kv, 'out': out, 'same': same,
            'rep': project(signature) if out == 'ok' else NOTHING, **how}


def instance_made(cls):
    return cls.__new__(cls)


def bound_kind(instance, name):
    """The attribute is a function of the class bound to the instance."""
    for cls in type(instance).__mro__:
        if name in vars(cls):
            raw = vars(cls)[name]
            return isinstance(raw, (types.FunctionType, types.MethodDescriptorType,
                                    types.WrapperDescriptorType))
    return False


def stdlib_traces(count):
    callables, instances = stdlib_events(count)
    everything = []
    for text, instance in instances:
        cls = type(instance)
        for name in dir(cls):
            if not bound_kind(instance, name) or name in getattr(
                    instance, '__dict__', {}):
                continue
            try:
                bound, raw = getattr(instance, name), getattr(cls, name)
            except Exception:
                continue
            if getattr(bound, '__self__', None) is not instance:
                continue
            everything.append((f'({text}).{name}', bound, raw))
    for k in (dict, list, str, set, __import__('collections').OrderedDict,
              __import__('collections').deque, random.Random, bytes):
        names = [n for n in dir(k) if callable(getattr(k, n))
                 and isinstance(inspect.getattr_static(k, n),
                                (types.FunctionType, types.MethodDescriptorType,
                                 types.WrapperDescriptorType))
                 and n not in ('__getattribute__', '__setattr__', '__delattr__',
                               '__init__', '__hash__')]
        over = type('Over', (k,), {'__module__': 'user_module',
                                   **{n: lambda self, only: None for n in names}})
        receiver = instance_made(over)
        for n in names:
            bound = getattr(super(over, receiver), n)
            if getattr(bound, '__self__', None) is receiver:
                everything.append((f'super({k.__name__} subclass).{n}', bound,
                                   getattr(k, n)))
    rnd.shuffle(everything)
    traces, total = [], 0
    kept = everything[:count]
    for label, bound, raw in kept:
        event = law(raw, bound, 1, [], label)
        if event is None:
            continue
        traces.append({'id': label, 'events': [event]})
        if event['out'] == 'ok' and rnd.random() < .3:
            n, names = random_shape(rnd, event['rep']['alts'])
            kv = [[k, rnd.choice(list(VALUES))] for k in names]
            inner = partial(bound, *[0] * n,
                            **{k: value_of(v) for k, v in kv})
            event = law(bound, inner, n, kv, 'partial ' + label)
            if event is not None:
                traces[-1]['events'].append(event)
    rnd.shuffle(callables)
    for label, value in callables[:count]:
        out, signature = ask(value)
        if out != 'ok' or isinstance(value, functools.partial):
            continue
        alts = project(signature)['alts']
        events, current, chain = [], value, label
        for _ in range(rnd.choice([1, 1, 2])):
            n, names = random_shape(rnd, alts, spoil=.15)
            if rnd.random() < .6:
                n, names = rnd.randrange(n + 1), names[:rnd.randrange(
                        len(names) + 1)]
            kv = [[k, rnd.choice(list(VALUES))] for k in names]
            following = partial(current, *[0] * n,
                                **{k: value_of(v) for k, v in kv})
            nested = following.func is not current
            event = law(current, following, n, kv, f'partial {chain} {n} {names}')
            if event is None:
                break
            # flattened partials merge keywords: order of binding is that of the
            # merged dictionary, only the final signature is compared
            events.append(event)
            if event['out'] != 'ok':
                break
            current, alts, chain = following, event['rep']['alts'], 'of ' + label
        if events:
            traces.append({'id': label, 'events': events})
    return traces


if what == 'user':
    for index in range(count):
        trace = user_trace(index)
        if trace is not None:
            print(json.dumps(trace))
else:
    for trace in stdlib_traces(count):
        print(json.dumps(trace))
