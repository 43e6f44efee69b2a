"""Builds tables of made-up worlds whose modules fail, exit and kill their process.

usage: build_run.py ROOT PLAN TRACES SEED
PLAN: lines {id, how, attempts: [{m: [behaviour...], w, k}]}"""
import glob
import importlib
import json
import os
import random
import re
import signal
import sys
import threading
import time
import warnings

warnings.simplefilter('ignore')
import multiprocessing  # noqa: E402
import multiprocessing.popen_fork  # noqa: E402,F401
import multiprocessing.resource_tracker  # noqa: E402,F401

import fake_world  # noqa: E402
import forks  # noqa: E402

root, plan, traces, seed = sys.argv[1:5]
package = os.path.join(root, 'sut', 'paradigm') + os.sep
control, marks = os.path.join(root, 'control'), os.path.join(root, 'marks')
broken_stub = os.path.join(fake_world.typeshed(root), 'broken.pyi')
SECONDS = 60
RAISING = {
    'value': 'raise ValueError("broken")', 'import': 'import there_is_nothing',
    'importerror': 'raise ImportError',
    'str': 'class E(Exception):\n    def __str__(self):\n        raise TypeError\n'
           'raise E',
    'custom': 'class E(Exception):\n    def __init__(self, a, b):\n'
              '        super().__init__("one")\nraise E(1, lambda: 0)',
    'recursion': 'def f():\n    f()\nf()', 'assertion': 'assert 0',
    'group': 'raise ExceptionGroup("many", [ValueError(1), TypeError(2)])',
    'stop': 'raise StopIteration', 'syntax': 'compile("1 +", "x", "exec")',
    'huge': 'raise OSError("x" * 300000)', 'memory': 'raise MemoryError',
    'warning': 'raise UserWarning("w")',
    'chain': 'try:\n    raise KeyError(1)\nexcept KeyError as e:\n'
             '    raise RuntimeError from e',
    'gone': 'import sys\nsys.modules.pop(__name__)\nraise AttributeError("x")'}
DYING = {
    'exit': 'raise SystemExit(0)', 'exit3': 'raise SystemExit("bye")',
    'interrupt': 'raise KeyboardInterrupt', '_exit': 'import os\nos._exit(0)',
    '_exit3': 'import os\nos._exit(3)',
    'kill': 'import os, signal\nos.kill(os.getpid(), signal.SIGKILL)',
    'term': 'import os, signal\nos.kill(os.getpid(), signal.SIGTERM)',
    'base': 'class B(BaseException):\n    pass\nraise B',
    'generator': 'raise GeneratorExit',
    'abort': 'import os, resource\nresource.setrlimit(resource.RLIMIT_CORE, (0, 0))\n'
             'os.abort()'}
FINE = {
    'plain': 'pass', 'chdir': 'import os\nos.chdir("/")',
    'env': 'import os\nos.environ["VP_CHANGED"] = "1"',
    'path': 'import sys\nsys.path.append("/nowhere")\nsys.argv.append("x")',
    'signal': 'import signal\nsignal.signal(signal.SIGUSR1, signal.SIG_IGN)',
    'stdout': 'import io, sys\nsys.stdout = io.StringIO()',
    'print': 'print("x" * 100000)',
    'main': 'import sys, types\nsys.modules["__main__"] = types.ModuleType("__main__")',
    'thread': 'import threading\nthreading.Thread(target=lambda: None).start()',
    'daemon': 'import threading, time\n'
              'threading.Thread(target=time.sleep, args=(60,), daemon=True).start()',
    'atexit': 'import atexit\natexit.register(print, "bye")',
    'recursionlimit': 'import sys\nsys.setrecursionlimit(400)',
    'filters': 'import warnings\nwarnings.simplefilter("error")',
    'hook': 'import sys\nsys.excepthook = print',
    'builtins': 'import builtins\nbuiltins.vp_changed = 1'}
OBJECTS = {
    'getattr': '    def __getattr__(self, name):\n        raise ValueError(name)',
    'module': '    __module__ = 5\n    __qualname__ = "a.b"',
    'property': '    @property\n    def __module__(self):\n        return 1 / 0',
    'exit': '    def __getattr__(self, name):\n        raise KeyError(name)',
    'eq': '    def __eq__(self, other):\n        raise ValueError\n    __hash__ = None',
    'grow': '    def __getattr__(self, name):\n'
            '        m.__dict__["x" + str(len(m.__dict__))] = 1\n'
            '        raise AttributeError',
    'self': '    pass\nH.H = H\nH.K = type("K", (H,), {"H": H})\nH.K.K = H.K',
    'bool': '    def __bool__(self):\n        raise ValueError\n'
            '    def __getattr__(self, name):\n        return H()'}
FINE.update({'object ' + key: f'import sys\nm = sys.modules[__name__]\nclass H:\n{value}\n'
                              'm.a_value = H()\nm.AType = H'
             for key, value in OBJECTS.items()})
KINDS = {'ok': FINE, 'raise': RAISING, 'die': DYING}
NUMBERS = range(1, 4)


def prepare():
    with open(os.path.join(root, 'rt', 'acting.py'), 'w') as file:
        file.write(f'''
import json, os
def act(name):
    with open({marks!r}, "a") as file:
        file.write(f"{{name}} {{os.getpid()}}\\n")
    with open({control!r}) as file:
        code = json.load(file).get(name, "pass")
    exec(code, {{"__name__": name}})
''')
    for i in NUMBERS:
        for name, text in [(f'real{i}', 'def f(*args):\n    pass\n'),
                           (f'shown{i}', 'import acting\nacting.act(__name__)\n'
                                         f'from real{i} import f\n')]:
            with open(os.path.join(root, 'rt', name + '.py'), 'w') as file:
                file.write(text)
        with open(os.path.join(fake_world.typeshed(root), f'shown{i}.pyi'),
                  'w') as file:
            file.write('def f(x: int) -> str: ...\n')


def files():
    return {os.path.join(directory, name)
            for directory, _, names in os.walk(package) for name in names}


def reset():
    """Leaves no caches."""
    stems = {os.path.splitext(os.path.basename(path))[0] for path in initial}
    for path in files():
        if (os.path.basename(path).partition('.')[0] not in stems
                if os.path.basename(os.path.dirname(path)) == '__pycache__'
                else path not in initial):
            os.unlink(path)


def behave(attempt):
    """Names of what the modules do."""
    names = [rng.choice(sorted(KINDS[kind])) for kind in attempt['m']]
    chosen = {f'shown{i}': KINDS[kind][name]
              for i, (kind, name) in enumerate(zip(attempt['m'], names), 1)}
    with open(control, 'w') as file:
        json.dump(chosen, file)
    with open(broken_stub, 'w') as file:
        file.write('def f(:\n' if attempt['w'] == 'error' else 'def f() -> int: ...\n')
    open(marks, 'w').close()
    return names


class Killer:
    """Kills the children of the process at the k-th line they execute."""

    def __init__(self, k):
        self.parent, self.k, self.count, self.number = os.getpid(), k, 0, 0

    def trace(self, frame, event, arg):
        if os.getpid() == self.parent \
                or not frame.f_code.co_filename.startswith(package):
            return None
        return self.step

    def step(self, frame, event, arg):
        if event == 'line' and os.getpid() != self.parent:
            self.count += 1
            if self.count == self.k:
                os.kill(os.getpid(), signal.SIGKILL)
        return self.step


def snapshot():
    import builtins
    return {'cwd': os.getcwd(), 'environ': dict(os.environ), 'path': list(sys.path),
            'argv': list(sys.argv), 'stdout': id(sys.stdout),
            'signal': str(signal.getsignal(signal.SIGUSR1)),
            'recursion': sys.getrecursionlimit(), 'hook': id(sys.excepthook),
            'filters': len(warnings.filters), 'builtins': hasattr(builtins, 'vp_changed'),
            'children': 0 if signal.getsignal(signal.SIGCHLD) is signal.SIG_IGN
            else len(multiprocessing.active_children())}


def one(attempt, how):
    does = behave(attempt)
    main = sys.modules.get('__main__')
    names, before = set(vars(main) if main else ()), snapshot()
    out, killer = 'ok', None
    if attempt['k']:
        killer = Killer(attempt['at'])
        sys.settrace(killer.trace)
    try:
        import paradigm.base  # noqa: F401
    except Exception as error:
        out = f'error:{type(error).__name__}'
    except BaseException as error:
        out = f'base:{type(error).__name__}'
    finally:
        sys.settrace(None)
    after = snapshot()
    with open(marks) as file:
        own = [line for line in file if int(line.split()[1]) == os.getpid()]
    event = {'op': 'build', 'how': how, 'does': does, 'm': attempt['m'], 'w': attempt['w'],
             'k': 'T' if attempt['k'] else 'F', 'out': out,
             'main': 'T' if sys.modules.get('__main__') is main
             and set(vars(main) if main else ()) == names else 'F',
             'loaded': sorted(name for name in sys.modules
                              if re.match('shown|real|acting', name)),
             'own': 'T' if own else 'F',
             'changed': sorted(key for key in before if before[key] != after[key]),
             'ans': []}
    if out == 'ok':
        with open(control, 'w') as file:
            file.write('{}')
        for i in range(1, len(attempt['m']) + 1):
            function = importlib.import_module(f'real{i}').f
            text = str(paradigm.base.signature_from_callable(function))
            event['ans'].append('stub' if 'int' in text and 'str' in text else text)
    return event


def attempts(scenario):
    real = fake_world.enter(root)
    importlib.invalidate_caches()
    how, events = scenario['how'], []

    def play():
        for attempt in scenario['attempts']:
            # directories are compared by their times
            importlib.invalidate_caches()
            events.append(one(attempt, how))
            if events[-1]['out'] == 'ok':
                break
    if how in ('spawn', 'forkserver'):
        multiprocessing.set_start_method(how)
    if how == 'ignored':
        signal.signal(signal.SIGCHLD, signal.SIG_IGN)
    if how == 'nostreams':
        sys.stdin = sys.stdout = sys.stderr = None
    if how in ('thread', 'daemonthread'):
        thread = threading.Thread(target=play, daemon=how == 'daemonthread')
        thread.start()
        thread.join()
    elif how in ('process', 'daemon'):
        context = multiprocessing.get_context('fork')
        receiver, sender = context.Pipe(duplex=False)

        def work():
            play()
            sender.send(events)
        process = context.Process(target=work, daemon=how == 'daemon', name='user')
        process.start()
        sender.close()
        return receiver.recv()
    else:
        play()
    fake_world.leave(real)
    return events


def group(pid):
    """Processes of the group which still exist."""
    result = []
    for path in glob.glob('/proc/[0-9]*/stat'):
        try:
            with open(path) as file:
                fields = file.read().rpartition(')')[2].split()
        except OSError:
            continue
        if int(fields[2]) == pid and fields[0] != 'Z':
            result.append(path)
    return result


def orphans(scenario):
    """The importing process is killed while the child works."""
    behave({'m': [], 'w': 'ok'})
    moment = scenario['at']
    pid = os.fork()
    if pid == 0:
        try:
            os.setpgid(0, 0)
            owner = os.getpid()
            # output is not waited for
            for fd in (0, 1, 2):
                os.dup2(os.open(os.devnull, os.O_RDWR), fd)
            fake_world.enter(root)
            importlib.invalidate_caches()
            seen = 0

            def trace(frame, event, arg):
                if os.getpid() == owner or 'paradigm' not in frame.f_code.co_filename:
                    return None
                return step

            def step(frame, event, arg):
                nonlocal seen
                if event == 'line' and os.getpid() != owner:
                    seen += 1
                    if seen == moment:
                        os.kill(owner, signal.SIGKILL)
                return step
            sys.settrace(trace)
            import paradigm.base  # noqa: F401
        finally:
            os._exit(0)
    _, status = os.waitpid(pid, 0)
    deadline = time.monotonic() + 20
    while group(pid) and time.monotonic() < deadline:
        time.sleep(.05)
    left = len(group(pid))
    try:
        os.killpg(pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    return [{'op': 'orphan', 'status': status, 'left': left, 'how': f'{moment}'}]


prepare()
initial = files()
with open(plan) as source, open(traces, 'w') as target:
    for line in source:
        scenario = json.loads(line)
        rng = random.Random(f'{seed} {scenario["id"]}')
        reset()
        if scenario['how'] == 'orphan':
            events = orphans(scenario)
        else:
            events, failure = forks.forked(lambda: attempts(scenario), SECONDS)
            if failure:
                first = scenario['attempts'][0]
                events = [{'op': 'build', 'how': scenario['how'], 'does': [], 'm': first['m'],
                           'w': first['w'], 'k': 'T' if first['k'] else 'F',
                           'out': failure, 'main': 'T', 'loaded': [], 'own': 'F',
                           'changed': [], 'ans': []}]
        target.write(json.dumps({'id': scenario['id'], 'events': events}) + '\n')
