"""Common machinery of the checks: scratch copies of the code under test, TLC runs,
verdict collection, known findings, evidence files."""
import contextlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
DRIVER = os.path.join(VERIF, 'driver')
PYTHON = os.environ.get('VP_PYTHON', '/opt/venv/bin/python')
TLA_CP = ':'.join(['/opt/veriftools/tla/tla2tools.jar',
                   '/opt/veriftools/tla/CommunityModules-deps.jar'])
KNOWN_FINDINGS = os.path.join(VERIF, 'known_findings.json')


class MachineryError(Exception):
    """The check itself could not do its work (never a verdict about the code)."""


class TlcResult:
    def __init__(self, out, rc, seconds):
        self.out, self.rc, self.seconds = out, rc, seconds
        self.generated = self.distinct = 0
        found = re.findall(r'(\d[\d,]*) states generated[^\n]*?, '
                           r'(\d[\d,]*) distinct states found', out)
        if found:
            self.generated, self.distinct = (int(x.replace(',', ''))
                                             for x in found[-1])
        else:
            found = re.findall(r'The number of states generated: (\d[\d,]*)', out)
            if found:
                self.generated = int(found[-1].replace(',', ''))
        self.violated = (re.findall(r'Error: Invariant (\S+) is violated', out)
                         + re.findall(r'Error: Action property (\S+) is violated',
                                      out)
                         + re.findall(r'Error: Assumption (.*?) is false', out)
                         + (['temporal'] if 'Temporal properties were violated'
                            in out else [])
                         + (['deadlock'] if 'Error: Deadlock reached' in out
                            else []))
        self.ok = rc == 0

    def lines(self, tag):
        """Payloads printed as PrintT(tag \\o ToJson(x)): the line is "tag{...}"."""
        result = []
        for line in self.out.splitlines():
            if line.startswith('"' + tag):
                text = json.loads(line) if line.endswith('"') else line
                result.append(json.loads(text[len(tag):]))
        return result


class Ctx:
    def __init__(self, prop, level):
        self.prop, self.level = prop, level
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        if self.tier not in ('quick', 'thorough'):
            self.tier = 'quick'
        try:
            self.seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            self.seed = 1
        self.thorough = self.tier == 'thorough'
        self.started = time.time()
        self.scratch = tempfile.mkdtemp(prefix=f'vp_{prop}_')
        self.coverage = {'states': 0, 'transitions': 0,
                         'traces_validated_against_impl': 0, 'samples': []}
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self._sut = None
        self._count = 0
        try:
            with open(KNOWN_FINDINGS) as file:
                self.known = [f for f in json.load(file)['findings']
                              if f['property'] == prop and f['status'] == 'known']
        except FileNotFoundError:
            self.known = []

    # ------------------------------------------------------------ scratch
    def path(self, *parts):
        result = os.path.join(self.scratch, *parts)
        os.makedirs(os.path.dirname(result), exist_ok=True)
        return result

    def fresh_sut(self, name=None):
        """A copy of the package under test without caches and byte code."""
        self._count += 1
        root = self.path(name or f'sut{self._count}', 'x')[:-2]
        shutil.copytree(os.path.join(REPO, 'paradigm'),
                        os.path.join(root, 'paradigm'),
                        ignore=shutil.ignore_patterns('__pycache__', '_mypy_*',
                                                      '*.pyc'))
        return root

    def sut(self):
        """Copy shared by the drivers of this check (its caches get warm)."""
        if self._sut is None:
            self._sut = self.fresh_sut('sut')
        return self._sut

    # ------------------------------------------------------------ drivers
    def env(self, sut=None, **extra):
        env = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'),
               'HOME': self.scratch, 'TMPDIR': self.scratch,
               'LC_ALL': 'C.UTF-8', 'PYTHONHASHSEED': '0',
               'PYTHONWARNINGS': 'ignore',
               'PYTHONDONTWRITEBYTECODE': '1',
               'PYTHONPATH': os.pathsep.join([sut or self.sut(), DRIVER]),
               'VP_SEED': str(self.seed), 'VP_TIER': self.tier}
        env.update({k: str(v) for k, v in extra.items()})
        return env

    def driver(self, script, *args, sut=None, timeout=600, check=True, stdin=None,
               **extra):
        """Runs a driver with the interpreter that has the code's dependencies."""
        env = self.env(sut=sut, **extra)
        process = subprocess.Popen(
                [PYTHON, os.path.join(DRIVER, script), *map(str, args)],
                env=env, stdin=subprocess.PIPE if stdin is not None
                else subprocess.DEVNULL, stdout=subprocess.PIPE,
                stderr=subprocess.PIPE, text=True, cwd=self.scratch,
                start_new_session=True)
        try:
            out, err = process.communicate(stdin, timeout=timeout)
        except subprocess.TimeoutExpired:
            with contextlib.suppress(ProcessLookupError):
                os.killpg(process.pid, signal.SIGKILL)
            process.communicate()
            raise MachineryError(f'driver {script} {args} timed out')
        finally:
            with contextlib.suppress(ProcessLookupError, PermissionError):
                os.killpg(process.pid, signal.SIGKILL)
        if check and process.returncode != 0:
            raise MachineryError(f'driver {script} {args} failed with '
                                 f'{process.returncode}:\n{out[-2000:]}\n'
                                 f'{err[-4000:]}')
        return process.returncode, out, err

    # ---------------------------------------------------------------- TLC
    def tlc(self, module, cfg, *, workers=8, timeout=900, heap='6g', env=None,
            simulate=None, depth=None, deadlock=False, props=(), expect_ok=False,
            count=True, stack='64m'):
        """Runs TLC on spec/<module>.tla with the given configuration text."""
        self._count += 1
        cfg_path = self.path(f'tlc{self._count}', module + '.cfg')
        with open(cfg_path, 'w') as file:
            file.write(cfg)
        command = ['timeout', '-k', '5', str(timeout), 'java', '-XX:+UseParallelGC',
                   f'-Xmx{heap}', f'-Xss{stack}', *props, '-cp', TLA_CP + ':' + SPEC,
                   'tlc2.TLC', '-config', cfg_path, '-workers', str(workers),
                   '-metadir', os.path.dirname(cfg_path), '-noGenerateSpecTE',
                   '-nowarning']
        if not deadlock:
            command.append('-deadlock')
        if simulate is not None:
            command += ['-simulate', f'num={simulate}', '-seed', str(self.seed)]
        if depth is not None:
            command += ['-depth', str(depth)]
        command.append(os.path.join(SPEC, module + '.tla'))
        started = time.time()
        process = subprocess.run(command, env={**os.environ, **(env or {})},
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                                 text=True, cwd=self.scratch)
        result = TlcResult(process.stdout, process.returncode,
                           time.time() - started)
        shutil.rmtree(os.path.dirname(cfg_path), ignore_errors=True)
        if os.environ.get('VP_DEBUG'):
            sys.stderr.write(process.stdout[-3000:])
        if count:
            self.coverage['states'] += result.distinct or result.generated
            self.coverage['transitions'] += result.generated
        if expect_ok and not result.ok:
            raise MachineryError(f'TLC on {module}: rc={result.rc}\n'
                                 + process.stdout[-6000:])
        return result

    def model_check(self, module, cfg, **kwargs):
        """The specification itself has to satisfy its properties; a failure here
        is a defect of the specification, not of the code."""
        return self.tlc(module, cfg, expect_ok=True, **kwargs)

    def validate(self, module, traces, *, constants='', timeout=900,
                 spec='TraceSpec', env=None, heap='6g', stack='64m',
                 full=False):
        """code -> spec: every trace (list of events) has to be a behaviour of the
        specification.  The trace specification is total: it consumes every event
        and prints "BAD {...}" with the failing clauses."""
        path = self.path(f'trace{self._count}.ndjson')
        self._count += 1
        events = 0
        with open(path, 'w') as file:
            for trace in traces:
                file.write(json.dumps(trace) + '\n')
                events += len(trace['events'])
        result = self.tlc(module,
                          f'SPECIFICATION {spec}\nCHECK_DEADLOCK FALSE\n'
                          + constants,
                          env={'VP_TRACE': path, **(env or {})}, timeout=timeout,
                          heap=heap, stack=stack)
        if not result.ok:
            raise MachineryError(f'trace validation {module} stopped '
                                 f'(rc={result.rc}):\n' + result.out[-5000:])
        if result.distinct != events + len(traces):
            raise MachineryError(
                    f'trace validation {module} visited {result.distinct} states '
                    f'for {events} events in {len(traces)} traces:\n'
                    + result.out[-3000:])
        self.coverage['traces_validated_against_impl'] += len(traces)
        self.coverage['events_validated'] = (
                self.coverage.get('events_validated', 0) + events)
        os.unlink(path)
        return (result.lines('BAD '), result) if full else result.lines('BAD ')

    # ----------------------------------------------------------- verdicts
    def sample(self, value, limit=4):
        if len(self.coverage['samples']) < limit:
            self.coverage['samples'].append(value)

    def add(self, key, number=1):
        self.coverage[key] = self.coverage.get(key, 0) + number

    def violation(self, what, **detail):
        """Reports a failure of the property unless it is a listed finding."""
        for finding in self.known:
            if all(re.fullmatch(pattern, str(detail.get(key, '')), re.S)
                   for key, pattern in finding['match'].items()):
                self.known_hit.setdefault(finding['id'], (finding, what))
                return
        self.violations.append({'what': what, **detail})

    def finish(self):
        for finding, what in self.known_hit.values():
            print(f'KNOWN-FINDING: property={self.prop} {finding["id"]}: '
                  f'{finding["summary"]}')
        evidence = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
                    'level': self.level, 'coverage': self.coverage,
                    'assumptions': self.assumptions,
                    'wall_s': round(time.time() - self.started, 2),
                    'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', f'{self.prop}.json'),
                  'w') as file:
            json.dump(evidence, file, indent=1, default=str)
        if self.violations:
            replay = os.path.join(VERIF, 'evidence', f'{self.prop}.replay.json')
            with open(replay, 'w') as file:
                json.dump({'property': self.prop, 'seed': self.seed,
                           'tier': self.tier,
                           'count': len(self.violations),
                           'violations': self.violations[:int(os.environ.get('VP_KEEP', '50'))]}, file, indent=1,
                          default=str)
            for v in self.violations[:5]:
                print('  ' + json.dumps(v, default=str)[:1500])
            print(f'VIOLATION property={self.prop} replay={replay}')
            return 1
        print(f'OK property={self.prop} tier={self.tier} '
              f'wall={evidence["wall_s"]}s coverage='
              + json.dumps({k: v for k, v in self.coverage.items()
                            if k != 'samples'}))
        return 0


def main(prop, level, body):
    ctx = Ctx(prop, level)
    try:
        try:
            body(ctx)
        except MachineryError as error:
            print(f'CHECK-ERROR property={prop} {error}')
            return 2
        return ctx.finish()
    finally:
        shutil.rmtree(ctx.scratch, ignore_errors=True)
