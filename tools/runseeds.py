"""Development tool: runs the check of each planted bug against a changed copy."""
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(seeds):
    for name in seeds or sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        seed = os.path.join(VERIF, 'seeded', name)
        with open(os.path.join(seed, 'meta.json')) as file:
            prop = json.load(file)['property']
        work = tempfile.mkdtemp(prefix='runseed_')
        try:
            repo = os.path.join(work, 'repo')
            shutil.copytree('/repo', repo, symlinks=True)
            subprocess.run(['git', 'apply', os.path.join(seed, 'patch.diff')],
                           cwd=repo, check=True)
            started = time.time()
            process = subprocess.run(
                    [sys.executable, os.path.join(VERIF, 'checks',
                                                  prop.lower() + '.py')],
                    env={**os.environ, 'VP_REPO': repo, 'VERIF_SEED': '1'},
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            print(f'{name}: rc={process.returncode} {time.time() - started:.0f}s',
                  '' if process.returncode == 1 else process.stdout[-600:],
                  flush=True)
        finally:
            shutil.rmtree(work)


main(sys.argv[1:])
