"""spec -> code: replays the tables of SigTables.tla into real signatures and real
Python functions.  usage: sig_tables.py ROWS OUT what"""
import json
import sys

from sig_lib import (NOTHING, build_plain, outcome, project, python_accepts,
                     python_function, truth, value_of)

rows_path, out_path, names, foreign, max_args = sys.argv[1:6]
what = set(sys.argv[6].split(','))
names, foreign, max_args = names.split(','), foreign.split(','), int(max_args)


def subsets(items):
    result = [()]
    for item in items:
        result += [r + (item,) for r in result]
    return result


shapes = [(n, k) for n in range(max_args + 1) for k in subsets(names + foreign)]
report = {'probes': 0, 'binds': 0, 'python': 0, 'bad': [], 'inadequate': []}
bad = report['bad']
with open(rows_path) as file:
    for line in file:
        row = json.loads(line)
        allowed = {(n, frozenset(k)) for n, k in row['all']}
        expected = {(n, frozenset(k)) for n, k in row['exp']}
        bound = {(n, frozenset(k)): ps for n, k, ps in row['bind']}
        out, signature = outcome(build_plain, {'ps': row['ps'], 'r': 'a_int'})
        if out != 'ok':
            bad.append({'clause': 'C01.accept', 'ps': row['ps'], 'got': out})
            continue
        before = project(signature)
        if before['alts'][0]['ps'] != row['ps']:
            bad.append({'clause': 'C01.faithful', 'ps': row['ps'], 'got': before})
        function = python_function(row['ps'])
        for n, k in shapes:
            key = n, frozenset(k)
            args, kwargs = [0] * n, {x: 0 for x in k}
            if 'python' in what:
                report['python'] += 1
                if python_accepts(function, n, k) != (key in allowed):
                    report['inadequate'].append({'ps': row['ps'], 'n': n, 'K': k})
            if 'probe' in what:
                report['probes'] += 1
                got = truth(signature.all_set, *args, **kwargs)
                if got != ('T' if key in allowed else 'F'):
                    bad.append({'clause': 'C02.all_set', 'ps': row['ps'], 'n': n,
                                'K': k, 'got': got})
                got = truth(signature.expects, *args, **kwargs)
                if got != ('T' if key in expected else 'F'):
                    bad.append({'clause': 'C03.expects', 'ps': row['ps'], 'n': n,
                                'K': k, 'got': got})
            if 'bind' in what:
                report['binds'] += 1
                out, value = outcome(signature.bind, *args,
                                     **{x: value_of('v_' + x) for x in k})
                if key not in expected:
                    if out != 'error:TypeError':
                        bad.append({'clause': 'C04.reject', 'ps': row['ps'],
                                    'n': n, 'K': k, 'got': out})
                elif out != 'ok':
                    bad.append({'clause': 'C04.accept', 'ps': row['ps'], 'n': n,
                                'K': k, 'got': out})
                else:
                    rep = project(value)
                    if (rep['cls'] != 'plain' or rep['alts'][0]['ps'] != bound[key]
                            or rep['alts'][0]['r'] != 'a_int'):
                        bad.append({'clause': 'C05.content', 'ps': row['ps'],
                                    'n': n, 'K': k, 'want': bound[key],
                                    'got': rep})
        if project(signature) != before:
            bad.append({'clause': 'C04.unchanged', 'ps': row['ps']})
report['bad_count'] = len(bad)
report['bad'] = bad[:200]
with open(out_path, 'w') as file:
    json.dump(report, file)
