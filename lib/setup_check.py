"""setup_cmd: nothing has to be built; every specification has to parse."""
import glob
import os
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vplib


def parse(path):
    process = subprocess.run(['java', '-cp', vplib.TLA_CP + ':' + vplib.SPEC,
                              'tla2sany.SANY', path], stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True,
                             cwd=vplib.SPEC)
    bad = process.returncode != 0 or '*** Errors' in process.stdout
    return (os.path.basename(path), process.stdout if bad else '')


if __name__ == '__main__':
    with ThreadPoolExecutor(4) as pool:
        results = list(pool.map(parse, sorted(glob.glob(vplib.SPEC + '/*.tla'))))
    for name, errors in results:
        print(name, 'ok' if not errors else errors[-2000:])
    sys.exit(any(errors for _, errors in results))
