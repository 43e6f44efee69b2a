"""Several processes importing the package at once, stopped at chosen lines.

usage: race_run.py ROOT OLD_ROOT ASKS PLAN TRACES SEED
PLAN: lines {id, ops: [damages], procs, schedule: [[process, steps or "share" or "kill"]]}
Steps may be a fraction: a share of the lines of interest of an import."""
import json
import os
import random
import select
import signal
import socket
import subprocess
import sys
import time

sys.argv[5], traces = os.devnull, sys.argv[5]
os.environ['VP_TRACES'] = traces
plan, sys.argv[4] = sys.argv[4], os.devnull
import cache_run  # noqa: E402

lab, rng = cache_run.lab, cache_run.rng
root = sys.argv[1]
address = os.path.join(root, 'socket')
server = socket.socket(socket.AF_UNIX)
server.bind(address)
server.listen(16)
PATIENCE, SECONDS = 3, 90


class Process:
    def __init__(self, number, probe=False):
        # processes have hash seeds of their own
        ident = rng.random()
        zygotes[number % len(zygotes)].stdin.write(
                json.dumps({'id': ident, 'probe': probe}) + '\n')
        zygotes[number % len(zygotes)].stdin.flush()
        self.connection, _ = server.accept()
        self.buffer = b''
        self.pid = self.message(SECONDS)['pid']
        self.state, self.result = 'paused', {'done': 'hang', 'dg': ''}

    def message(self, seconds):
        """Next message, None if there is none in time, {} at the end."""
        deadline = time.monotonic() + seconds
        while b'\n' not in self.buffer:
            left = deadline - time.monotonic()
            if left <= 0 or not select.select([self.connection], [], [], left)[0]:
                return None
            try:
                data = self.connection.recv(1 << 16)
            except ConnectionError:
                return {}
            if not data:
                return {}
            self.buffer += data
        line, _, self.buffer = self.buffer.partition(b'\n')
        return json.loads(line)

    def note(self, message):
        if message == {}:
            self.state, self.result = 'dead', {'done': 'died', 'dg': ''}
        elif message and 'done' in message:
            self.state, self.result = 'done', message
        elif message:
            self.state = 'paused'

    def go(self, steps, seconds):
        if self.state == 'waiting':
            self.note(self.message(.01))
        if self.state == 'paused':
            try:
                self.connection.sendall(json.dumps(steps).encode() + b'\n')
            except OSError:
                self.state = 'dead'
                return
            self.state = 'waiting'
        if self.state == 'waiting':
            self.note(self.message(seconds))

    def kill(self):
        if self.state in ('paused', 'waiting'):
            self.note(self.message(0))
        if self.state in ('paused', 'waiting'):
            os.kill(self.pid, signal.SIGKILL)
            self.state, self.result = 'dead', {'done': 'killed', 'dg': ''}

    def finish(self):
        deadline = time.monotonic() + SECONDS
        while self.state in ('paused', 'waiting') and time.monotonic() < deadline:
            self.go(None, 1)
        if self.state == 'waiting':
            os.kill(self.pid, signal.SIGKILL)
        self.connection.close()


def race(scenario):
    lab.clear()
    for op in scenario['ops']:
        cache_run.damage(op)
    before = lab.state()
    processes = [Process(i) for i in range(scenario['procs'])]
    for number, steps in scenario['schedule']:
        if steps == 'kill':
            processes[number].kill()
            continue
        if isinstance(steps, list):
            # a share of the lines while files are changed
            saving = probe.result['saving']
            steps = saving[int(steps[0] * len(saving))]
        if isinstance(steps, float):
            steps = stops[int(steps * len(stops))]
        processes[number].go(steps, PATIENCE)
    for process in processes:
        if process.state == 'paused':
            process.go(None, 0)
    for process in processes:
        process.finish()
    events = [{'op': 'race', 'before': before, 'after': lab.state(),
               'outs': [p.result['done'] for p in processes],
               'dgs': [p.result['dg'] for p in processes], 'fresh': lab.fresh}]
    for _ in range(2):
        events.append(cache_run.bring({}))
    return {'id': scenario['id'], 'events': events}


zygotes = [subprocess.Popen([sys.executable, os.path.join(os.path.dirname(__file__),
                                                          'race_zygote.py'),
                             root, address], stdin=subprocess.PIPE, text=True,
                            env={**os.environ, 'PYTHONHASHSEED': str(i)})
           for i in range(4)]
lab.clear()
probe = Process(0, True)
probe.finish()
stops = probe.result['stops']
assert probe.result['done'] == 'ok' and stops, probe.result
with open(plan) as source, open(traces, 'w') as target:
    for line in source:
        target.write(json.dumps(race(json.loads(line))) + '\n')
for zygote in zygotes:
    zygote.stdin.close()
    zygote.wait()
