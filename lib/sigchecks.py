"""Checks of the signature algebra (C01-C06, C08, C09)."""
import json

import vplib

BUILD = ('SPECIFICATION Spec\nCONSTANTS Names={%s} MaxLen=%d EmitPath=""\n'
         'INVARIANTS Sound Complete')
CALL = ('SPECIFICATION Spec\nCONSTANTS Names={%s} Foreign={"w"} MaxLen=%d '
        'MaxArgs=%d\nINVARIANTS TypeOK Agrees ClosedForm CallsAreExpected\n'
        'PROPERTY Terminates')
LIFE = ('SPECIFICATION Spec\nCONSTANTS Names={%s} Foreign={"w"} MaxLen=%d '
        'MaxArgs=%d MaxBinds=%d\nINVARIANTS WellFormed CallLaw CompletionLaw '
        'OrderKept BoundValues OneBind\nPROPERTY Shrinks')
TABLES = ('SPECIFICATION Spec\nCONSTANTS Names={%s} Foreign={"w"} MinLen=%d '
          'MaxLen=%d MaxArgs=%d WithBinds=%s\nINVARIANTS Emit')


def quoted(names):
    return ','.join(f'"{n}"' for n in names)


def tables(ctx, what, names, max_len, max_args, min_len=0):
    """spec -> code: replays everything TLC says about all parameter lists."""
    result = ctx.tlc('SigTables', TABLES % (quoted(names), min_len, max_len,
                                            max_args,
                                            'TRUE' if 'bind' in what else 'FALSE'),
                     expect_ok=True, heap='12g')
    rows = result.lines('ROW ')
    path, out = ctx.path('rows.ndjson'), ctx.path('report.json')
    with open(path, 'w') as file:
        for row in rows:
            file.write(json.dumps(row) + '\n')
    ctx.driver('sig_tables.py', path, out, ','.join(names), 'w', max_args,
               ','.join(what), timeout=800)
    with open(out) as file:
        report = json.load(file)
    if report['inadequate']:
        raise vplib.MachineryError('the specification disagrees with Python: '
                                   + json.dumps(report['inadequate'][:3]))
    ctx.add('table_rows', len(rows))
    for key in ('probes', 'binds', 'python'):
        if report[key]:
            ctx.add(f'table_{key}_replayed', report[key])
    if rows:
        ctx.sample({'table_row': {k: rows[len(rows) // 2][k] for k in
                                  ('ps', 'all', 'exp')}})
    for bad in report['bad']:
        if bad['clause'].startswith(ctx.prop):
            ctx.violation(bad['clause'], clause=bad['clause'], replay='table',
                          **{k: v for k, v in bad.items() if k != 'clause'})


def histories(ctx, mode, count, max_size=12, seeds=1):
    """code -> spec: recorded histories are validated by TLC."""
    for offset in range(seeds):
        out = ctx.path(f'{mode}{offset}.ndjson')
        ctx.driver('sig_histories.py', out, mode, count, max_size,
                   ctx.seed + 1000 * offset)
        with open(out) as file:
            traces = [json.loads(line) for line in file]
        if traces:
            ctx.sample({'trace': traces[len(traces) // 2]['id'], 'first_events':
                        traces[len(traces) // 2]['events'][:2]})
        for bad in ctx.validate('SigTrace', traces):
            spec = [c for c in bad['clauses'] if c.startswith('SPEC')]
            if spec:
                raise vplib.MachineryError('the specification disagrees with '
                                           'Python: ' + json.dumps(bad)[:3000])
            mine = [c for c in bad['clauses'] if c.startswith(ctx.prop)]
            if mine:
                ctx.violation(','.join(mine), clause=','.join(mine),
                              trace=bad['trace'], at=bad['at'],
                              event=bad['event'])


def trips(ctx, count):
    """Round trips over random annotations, compared with their near misses."""
    _, out, _ = ctx.driver('trip_driver.py', count, timeout=800)
    traces = [json.loads(line) for line in out.splitlines()]
    ctx.add('round_trip_groups', len(traces))
    for bad in ctx.validate('EqTrace', traces):
        mine = [c for c in bad['clauses'] if c.startswith(ctx.prop)]
        if mine:
            ctx.violation(','.join(mine), clause=','.join(mine), **bad)


def run(ctx):
    big = ctx.thorough
    four = ['x', 'y', 'z', 'u']
    three = four[:3]
    if ctx.prop == 'C01':
        ctx.model_check('SigBuild', BUILD % ((quoted(four), 4) if big
                                             else (quoted(three), 3)))
        tables(ctx, ['none'], four, 4, 0)
        histories(ctx, 'build', 4000 if big else 1000, 12, 4 if big else 1)
    elif ctx.prop in ('C02', 'C03'):
        ctx.model_check('PyCall', CALL % ((quoted(four), 4, 5) if big
                                          else (quoted(three), 3, 4)))
        tables(ctx, ['probe', 'python'], four + ['t'] if big else four,
               5 if big else 4, 6 if big else 5)
        histories(ctx, 'call', 8000 if big else 3000, 16 if big else 12,
                  6 if big else 1)
    elif ctx.prop in ('C04', 'C05'):
        ctx.model_check('SigLife', LIFE % ((quoted(three), 3, 4, 2) if big
                                           else (quoted(three), 3, 4, 1)))
        if not big:
            ctx.model_check('SigLife', LIFE % (quoted(three[:2]), 2, 3, 2))
        tables(ctx, ['bind'], four if big else three, 4 if big else 3, 5)
        histories(ctx, 'life', 8000 if big else 3000, 16 if big else 12,
                  6 if big else 1)
    elif ctx.prop == 'C06':
        histories(ctx, 'over', 8000 if big else 3500, 12, 6 if big else 1)
    elif ctx.prop == 'C08':
        histories(ctx, 'trip', 4000 if big else 1500, 12, 6 if big else 1)
        trips(ctx, 4000 if big else 700)
    elif ctx.prop == 'C09':
        histories(ctx, 'text', 8000 if big else 4000, 12, 6 if big else 1)
    ctx.assumptions += [
        'CPython 3.12 defines the reference call semantics; real functions are '
        'called next to the specification and a disagreement is an error of the '
        'check',
        'TLC and the CommunityModules JSON reader are trusted']
