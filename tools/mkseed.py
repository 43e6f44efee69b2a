"""Development tool: plants a bug described by a python file and confirms it.

A description has ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new)] and the
text of DEMO, a program run with cwd = the repository.  The bug is written to
/verif/seeded/<ID>/ when the changed copy builds, passes the existing tests and
the demonstration tells it from the original.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/bash
export PYTHONDONTWRITEBYTECODE=1 LC_ALL=C.UTF-8 DEMO_DIR="$(cd "$(dirname "$0")" && pwd)"
export PYTHONPATH="$PWD"
exec timeout 250 /opt/venv/bin/python -W ignore "$DEMO_DIR/demo.py"
'''


def run(command, cwd, **kwargs):
    return subprocess.run(command, cwd=cwd, stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, **kwargs)


def main(path):
    d = runpy.run_path(path)
    work = tempfile.mkdtemp(prefix='mkseed_')
    try:
        repo = os.path.join(work, 'repo')
        shutil.copytree('/repo', repo, symlinks=True)
        for file, old, new in d['EDITS']:
            full = os.path.join(repo, file)
            with open(full) as f:
                text = f.read()
            if text.count(old) != 1:
                return f'{file}: {text.count(old)} occurrences of {old!r}'
            with open(full, 'w') as f:
                f.write(text.replace(old, new))
        patch = run(['git', 'diff'], repo).stdout
        target = os.path.join(work, 'seed')
        os.makedirs(target)
        with open(os.path.join(target, 'patch.diff'), 'w') as f:
            f.write(patch)
        with open(os.path.join(target, 'demo.sh'), 'w') as f:
            f.write(DEMO_SH)
        with open(os.path.join(target, 'demo.py'), 'w') as f:
            f.write(d['DEMO'].lstrip())
        with open(os.path.join(target, 'meta.json'), 'w') as f:
            json.dump({'property': d['PROPERTY'], 'needs': d['NEEDS'],
                       'what_it_breaks': d['BREAKS']}, f, indent=1)
        scripts = {}
        for name in ('build.sh', 'test.sh'):
            with open('/opt/vp/' + name) as f:
                text = f.read()
            scripts[name] = os.path.join(work, name)
            with open(scripts[name], 'w') as f:
                f.write(text.replace('/opt/vp/build.sh', scripts.get('build.sh', ''))
                        .replace('"/repo/', f'"{repo}/')
                        .replace('cd /repo', f'cd {repo}'))
        env = {**os.environ, 'PYTHONPATH': repo}
        built = run(['bash', scripts['build.sh']], repo, env=env)
        if built.returncode:
            return 'does not build:\n' + built.stdout[-2000:]
        clean = run(['bash', os.path.join(target, 'demo.sh')], '/repo')
        if clean.returncode:
            return 'demo fails on the original:\n' + clean.stdout[-2000:]
        broken = run(['bash', os.path.join(target, 'demo.sh')], repo)
        if not broken.returncode:
            return 'demo passes on the changed tree:\n' + broken.stdout[-2000:]
        out = os.path.join(work, 'out.json')
        run(['bash', scripts['test.sh'], out], repo, env=env)
        with open(out) as f:
            result = json.load(f)
        with open('/opt/vp/BASELINE.json') as f:
            stable = set(json.load(f)['stable'])
        missing = stable - set(result.get('passed', []))
        if missing:
            return f'tests fail: {sorted(missing)}'
        final = os.path.join(VERIF, 'seeded', d['ID'])
        shutil.rmtree(final, ignore_errors=True)
        shutil.copytree(target, final)
        return None
    finally:
        shutil.rmtree(work)


if __name__ == '__main__':
    for path in sys.argv[1:]:
        problem = main(path)
        print(os.path.basename(path), 'OK' if problem is None else problem)
