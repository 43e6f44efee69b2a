"""A made-up world whose cache files are damaged, imported with faults and looked at.

Every import happens in a fork of a process which has everything but the package."""
import glob
import hashlib
import importlib
import json
import marshal
import os
import re
import resource
import shutil
import signal
import sys
import time
import warnings

warnings.simplefilter('ignore')
import multiprocessing.connection  # noqa: E402,F401
import multiprocessing.context  # noqa: E402,F401
import multiprocessing.popen_fork  # noqa: E402,F401
import multiprocessing.reduction  # noqa: E402,F401
import multiprocessing.resource_tracker  # noqa: E402,F401
import compileall  # noqa: E402
import sysconfig  # noqa: E402

import fake_world  # noqa: E402
import forks  # noqa: E402

NOBODY = 65534
SECONDS = 60
WRITING = os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND


class Fault(OSError):
    pass


class Lab:
    def __init__(self, root, asks, version=None):
        self.root, self.asks = root, asks
        self.package = os.path.join(root, 'sut', 'paradigm')
        if version is not None:
            init = os.path.join(self.package, '__init__.py')
            with open(init) as file:
                text = file.read()
            text, count = re.subn(r"__version__ = .*", f'__version__ = {version!r}',
                                  text)
            assert count == 1
            with open(init, 'w') as file:
                file.write(text)
        compileall.compile_dir(self.package, quiet=2)
        before = set(self.files())
        first = self.first = self.bring()
        self.version, self.fresh = first['version'], first['dg']
        self.paths = sorted(set(self.files()) - before)
        self.good = {path: self.read(path) for path in self.paths}
        self.tables = {path: self.execute(self.good[path]) for path in self.paths}
        self.names = [os.path.splitext(os.path.basename(path))[0]
                      for path in self.paths]

    def unsound(self):
        """The event of the first import, if there is nothing to damage after it."""
        kinds = ['broken' if table is None else 'complete'
                 for table in self.tables.values()] or ['absent']
        if self.first['out'] == 'ok' and set(kinds) == {'complete'}:
            return None
        return {'op': 'import', 'before': ['absent'] * len(kinds), 'after': kinds,
                'fault': 'none', 'what': 'first import', 'ro': 'F',
                'out': self.first['out'], 'dg': self.fresh, 'fresh': self.fresh,
                'built': 'T', 'touched': 'T'}

    def files(self):
        for directory, _, names in os.walk(os.path.dirname(self.package)):
            if os.path.basename(directory) != '__pycache__':
                for name in names:
                    yield os.path.join(directory, name)

    @staticmethod
    def read(path):
        with open(path, 'rb') as file:
            return file.read()

    @staticmethod
    def execute(data):
        try:
            namespace = {}
            exec(compile(data, 'cache', 'exec'), namespace)
        except Exception:
            return None
        namespace.pop('__builtins__', None)
        return namespace

    # -------------------------------------------------------------- states
    def compiled(self, path):
        stem = os.path.splitext(os.path.basename(path))[0]
        return glob.glob(os.path.join(os.path.dirname(path), '__pycache__',
                                      glob.escape(stem) + '.*'))

    def clear(self):
        for path in list(self.files()):
            stem = os.path.basename(path)
            if path in self.paths or any(stem.startswith(name) for name in self.names):
                os.unlink(path)
        for path in self.paths:
            if os.path.isdir(path):
                shutil.rmtree(path)
            for file in self.compiled(path):
                os.unlink(file)

    def put(self, path, data, old=True, compiled=False):
        """Files are a minute old for changes to be noticed by the import system."""
        self.take(path)
        with open(path, 'wb') as file:
            file.write(data)
        if old:
            moment = time.time() - 60
            os.utime(path, (moment, moment))
        if compiled:
            compileall.compile_file(path, quiet=2, force=True)

    def take(self, path):
        if os.path.isdir(path):
            shutil.rmtree(path)
        elif os.path.exists(path):
            os.unlink(path)
        for file in self.compiled(path):
            os.unlink(file)

    def kind(self, path, uid=0):
        if not os.path.lexists(path):
            return 'absent'
        if os.path.isdir(path):
            return 'blocked'
        if uid and not os.stat(path).st_mode & 0o004 and os.stat(path).st_uid != uid:
            return 'unreadable'
        data = self.read(path)
        tables = self.execute(data)
        good = self.tables[path]
        if tables is None or not set(good) <= set(tables):
            return 'broken'
        versions = [name for name, value in good.items() if value == self.version]
        if any(tables[name] != self.version for name in versions):
            return 'old'
        if any(tables[name] != good[name] for name in good):
            return 'wrong'
        for file in self.compiled(path):
            code = self.read(file)
            if len(code) < 16:
                continue
            stat = os.stat(path)
            if (code[:4] == importlib.util.MAGIC_NUMBER
                    and code[8:16] == (int(stat.st_mtime) & 0xFFFFFFFF).to_bytes(
                            4, 'little')
                    + (stat.st_size & 0xFFFFFFFF).to_bytes(4, 'little')):
                try:
                    marshal.loads(code[16:])
                except Exception:
                    return 'miscompiled'
        return 'complete'

    def state(self, uid=0):
        return [self.kind(path, uid) for path in self.paths]

    def marks(self):
        return [(os.stat(path).st_mtime_ns, os.stat(path).st_ino)
                if os.path.exists(path) else None for path in self.paths]

    # ------------------------------------------------------------- imports
    def bring(self, fault=None, uid=0):
        """Imports the package and asks; fault: {kind, place, file, k}."""
        result, failure = forks.forked(
                lambda: self.inside(fault or {}, uid), SECONDS)
        if failure:
            return {'out': failure, 'dg': '', 'built': 0, 'fired': True,
                    'version': '', 'warned': 0, 'stops': [], 'length': 0}
        return result

    def inside(self, fault, uid):
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        if uid:
            os.setgroups([])
            os.setgid(uid)
            os.setuid(uid)
        watch = Watch(self, fault)
        real = fake_world.enter(self.root)
        importlib.invalidate_caches()
        # threads & forks keep to the importing process
        out, version, dg, caught = 'ok', '', '', []
        watch.start()
        try:
            with warnings.catch_warnings(record=True) as caught:
                warnings.simplefilter('always')
                import paradigm.base
            watch.stop()
            version = paradigm.__version__
            dg = self.answers()
        except BaseException as error:
            watch.stop()
            out = f'error:{type(error).__name__}: {error}'[:300]
        finally:
            fake_world.leave(real)
        return {'out': out, 'dg': dg, 'built': watch.forks, 'fired': watch.fired,
                'version': version, 'warned': len(caught), 'length': watch.count,
                'stops': watch.stops()}

    def answers(self):
        import stub_lib
        texts = [json.dumps(stub_lib.ask(stand_in(a)), sort_keys=True)
                 for a in self.asks]
        return hashlib.sha1('\n'.join(texts).encode()).hexdigest()[:16]


def stand_in(a):
    qualname = '.'.join(a['p'])
    if a['how'] == 'type':
        return type(a['p'][-1], (), {'__module__': a['m'], '__qualname__': qualname})

    def function(*args, **kwargs):
        pass
    function.__module__, function.__qualname__ = a['m'], qualname
    function.__name__ = a['p'][-1]
    return function


class Watch:
    """Counts what the importing process does and makes it fail there."""

    def __init__(self, lab, fault):
        self.lab, self.fault = lab, fault
        self.pid = os.getpid()
        self.forks = self.count = 0
        self.fired = self.on = False
        self.places = []
        self.inside = os.path.dirname(lab.package) + os.sep
        self.limit = None

    def start(self):
        self.on = True
        sys.addaudithook(self.hook)
        if self.fault.get('place') in ('line', 'lines'):
            sys.settrace(self.trace)

    def stop(self):
        self.on = False
        sys.settrace(None)
        if self.limit is not None:
            resource.setrlimit(resource.RLIMIT_FSIZE, self.limit)

    def mine(self, path):
        if not isinstance(path, (str, os.PathLike, bytes)):
            return False
        path = os.fsdecode(path)
        if not path.startswith(self.inside) or '__pycache__' in path:
            return False
        wanted = self.fault.get('file', '')
        others = [name for name in self.lab.__dict__.get('names', ())]
        stem = os.path.basename(path)
        matching = [name for name in others if stem.startswith(name)]
        return not wanted or not matching or wanted in matching

    def hook(self, event, args):
        if not self.on or os.getpid() != self.pid:
            return
        if event == 'os.fork':
            self.forks += 1
            if self.fault.get('place') == 'build':
                self.act(self.forks)
        elif event == 'open':
            path, mode, flags = args
            writing = (isinstance(mode, str) and set(mode) & set('wax+')
                       or mode is None and isinstance(flags, int)
                       and flags & WRITING)
            if writing and self.mine(path):
                if self.fault.get('place') == 'create':
                    self.act(self.fault.get('k', 1))
                elif self.fault.get('place') == 'bytes' and self.limit is None:
                    self.limit = resource.getrlimit(resource.RLIMIT_FSIZE)
                    if self.fault['kind'] == 'kill':
                        signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE,
                                       (self.fault['k'], self.limit[1]))
        elif event == 'os.rename':
            if self.limit is not None:
                resource.setrlimit(resource.RLIMIT_FSIZE, self.limit)
                self.limit = None
            if self.fault.get('place') == 'replace' and self.mine(args[1]):
                self.act(self.fault.get('k', 1))

    def act(self, number):
        if self.fired or number != self.fault.get('k', 1):
            return
        self.fired = True
        if self.fault['kind'] == 'kill':
            os.kill(self.pid, signal.SIGKILL)
        raise Fault(28, 'No space left on device')

    def trace(self, frame, event, arg):
        if os.getpid() != self.pid:
            sys.settrace(None)
            return None
        if not frame.f_code.co_filename.startswith(self.inside):
            return None
        return self.step

    def step(self, frame, event, arg):
        if event == 'line' and os.getpid() == self.pid:
            self.count += 1
            if self.fault['place'] == 'line':
                if self.count == self.fault['k']:
                    os.kill(self.pid, signal.SIGKILL)
            else:
                self.places.append((frame.f_code.co_filename, frame.f_lineno))
        return self.step

    def stops(self):
        """The first and the last visit of every place."""
        first, last = {}, {}
        for i, place in enumerate(self.places, 1):
            first.setdefault(place, i)
            last[place] = i
        return sorted({*first.values(), *last.values()})
