"""Forks importing processes which are stopped and let go by race_run.py.

usage: race_zygote.py ROOT SOCKET, a line {id, steps} on stdin starts a process."""
import importlib
import json
import os
import signal
import socket
import sys
import warnings

warnings.simplefilter('ignore')
import cache_lab  # noqa: E402
import fake_world  # noqa: E402

root, address = sys.argv[1:3]
package = os.path.join(root, 'sut', 'paradigm') + os.sep
with open(os.path.join(root, 'asks')) as file:
    asks = json.load(file)


class Importer:
    def __init__(self, order):
        self.connection = socket.socket(socket.AF_UNIX)
        self.connection.connect(address)
        self.lines = self.connection.makefile('rw')
        self.pid, self.count, self.places = os.getpid(), 0, []
        self.changes = []
        self.probe = order.get('probe')
        self.say({'id': order['id'], 'pid': self.pid})
        self.left = self.hear()

    def say(self, value):
        self.lines.write(json.dumps(value) + '\n')
        self.lines.flush()

    def hear(self):
        line = self.lines.readline()
        if not line:
            os._exit(1)
        return json.loads(line)

    def trace(self, frame, event, arg):
        if os.getpid() != self.pid:
            sys.settrace(None)
            return None
        return (self.step if frame.f_code.co_filename.startswith(package) else None)

    def step(self, frame, event, arg):
        if event == 'line' and os.getpid() == self.pid:
            if self.probe:
                self.places.append((frame.f_code.co_filename, frame.f_lineno))
            while self.left is not None and self.left <= 0:
                self.say({'paused': self.count})
                self.left = self.hear()
            self.count += 1
            if self.left is None:
                if not self.probe:
                    # runs freely from now on
                    sys.settrace(None)
                    frame.f_trace = None
                    return None
            else:
                self.left -= 1
        return self.step

    def hook(self, event, args):
        if (event in ('open', 'os.rename', 'os.remove', 'os.mkdir', 'os.link',
                      'os.symlink') and os.getpid() == self.pid
                and isinstance(args[0], (str, os.PathLike))
                and os.fspath(args[0]).startswith(package)
                and (event != 'open' or isinstance(args[2], int)
                     and args[2] & cache_lab.WRITING)):
            self.changes.append(self.count)

    def run(self):
        if self.probe:
            sys.addaudithook(self.hook)
        fake_world.enter(root)
        importlib.invalidate_caches()
        out, dg = 'ok', ''
        if self.left is not None or self.probe:
            sys.settrace(self.trace)
        try:
            import paradigm.base  # noqa: F401
            sys.settrace(None)
            lab = cache_lab.Lab.__new__(cache_lab.Lab)
            lab.asks = asks
            dg = lab.answers()
        except BaseException as error:
            sys.settrace(None)
            out = f'error:{type(error).__name__}: {error}'[:300]
        first, last = {}, {}
        for i, place in enumerate(self.places, 1):
            first.setdefault(place, i)
            last[place] = i
        stops = sorted({*first.values(), *last.values()})
        # around changes of files
        saving = [stop for stop in stops if self.changes
                  and min(self.changes) - 9 <= stop <= max(self.changes) + 9]
        self.say({'done': out, 'dg': dg, 'length': self.count,
                  'stops': stops, 'saving': saving or stops})


signal.signal(signal.SIGCHLD, signal.SIG_DFL)
for line in sys.stdin:
    order = json.loads(line)
    pid = os.fork()
    if pid == 0:
        try:
            sys.stdin.close()
            Importer(order).run()
        finally:
            os._exit(0)
    while True:
        try:
            if os.waitpid(-1, os.WNOHANG)[0] == 0:
                break
        except ChildProcessError:
            break
