"""spec -> code: replays the rows of CallGame.tla into real classes.
usage: call_rows.py ROWS OUT MEMBER"""
import json
import sys

from call_lib import ask, evaluate, make_module, project

rows_path, out_path, member, functions_path = sys.argv[1:5]
with open(functions_path) as file:
    FUNCTIONS = json.load(file)


def source(cs):
    from call_lib import function_source
    lines = []
    for index, c in enumerate(cs, start=1):
        bases = ', '.join(f'C{b}' for b in c['bases'])
        lines.append(f'class C{index}({bases}):')
        lines.append('    pass')
        for m in c['ms']:
            if m['sort'] != 'func':
                lines.append('    @' + {'static': 'staticmethod',
                                        'classm': 'classmethod'}[m['sort']])
            lines += function_source(m['name'], FUNCTIONS[m['f'] - 1], 'def',
                                     '    ')
    return '\n'.join(lines) + '\n'


report = {'rows': 0, 'programs': 0, 'missing': 0, 'bad': []}
known = {}
with open(rows_path) as file:
    for line in file:
        row = json.loads(line)
        key = json.dumps(row['cs'])
        if key not in known:
            module, _ = make_module('user_rows', source(row['cs']))
            known[key] = [getattr(module, f'C{i}')
                          for i in range(1, len(row['cs']) + 1)]
            report['programs'] += 1
        out, signature = ask(evaluate(row['x'], [], known[key]))
        report['rows'] += 1
        want = row['rep']
        if want['ok']:
            rep = project(signature) if out == 'ok' else out
            if rep != {'cls': 'plain', 'alts': [want['sig']]}:
                report['bad'].append({'row': row, 'got': rep})
        else:
            report['missing'] += 1
            if out != 'error:TypeError':
                report['bad'].append({'row': row, 'got': out})
report['bad_count'] = len(report['bad'])
report['bad'] = report['bad'][:100]
with open(out_path, 'w') as file:
    json.dump(report, file)
