import json
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                '..', 'lib'))
import vplib


def run(ctx):
    rows = []
    result = ctx.model_check(
            'Respell', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n'
            'INVARIANT RespellKeeps\nINVARIANT Emit\nPROPERTY ChangeChanges\n'
            f'CONSTANT Depth2 = {"TRUE" if ctx.thorough else "FALSE"}\n')
    seen = set()
    for row in result.lines('ROW '):
        key = json.dumps(row['term'])
        if key not in seen:
            seen.add(key)
            rows.append(row)
    if len(rows) < 500:
        raise vplib.MachineryError(f'only {len(rows)} terms')
    path = ctx.path('rows.ndjson')
    with open(path, 'w') as file:
        for row in rows:
            file.write(json.dumps(row) + '\n')
    _, out, _ = ctx.driver('eq_driver.py', 'matrix', path, timeout=800)
    answer = json.loads(out)
    ctx.add('terms_replayed', answer['objects'])
    ctx.add('comparisons_replayed', answer['compared'])
    ctx.add('types_told_apart', answer['classes'])
    for fail in answer['fails']:
        ctx.violation('comparison of annotations', **fail)
    _, out, _ = ctx.driver('eq_driver.py', 'groups', 4000 if ctx.thorough else 500,
                           timeout=800)
    traces = [json.loads(line) for line in out.splitlines()]
    for bad in ctx.validate('EqTrace', traces):
        ctx.violation('comparison of parameters or signatures',
                      clause=','.join(bad['clauses']), **bad)
    ctx.sample(traces[0]['events'][:3])
    ctx.sample(rows[len(rows) // 2])
    ctx.assumptions += ['None at the top level and NoneType are different '
                        'annotations; defaults that compare equal across types '
                        '(1, True, 1.0), NaN and unhashable defaults other than '
                        'lists and tuples are not generated']


if __name__ == '__main__':
    sys.exit(vplib.main('C07', 'model_checking', run))
