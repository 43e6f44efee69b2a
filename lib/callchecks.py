"""Checks of callables (C10, C11)."""
import json

import vplib

GAME = ('SPECIFICATION Spec\nCONSTANTS NClasses=%d Member="%s" Depth=1 MaxArgs=3 '
        'Keywords={%s} MaxBinds=%d\nINVARIANTS %s')
LAWS = 'RepLaw MissingLaw Lawful MroLaw'
FUNCTIONS = None


def functions():
    """The functions of CallGame.tla."""
    def p(n, k, o='R', d='-', a='a_int'):
        return {'n': n, 'k': k, 'o': o, 'd': d, 'a': a}

    def opt(n, k):
        return p(n, k, 'O', 'v_0', 'a_str')

    def var(n, k):
        return p(n, k, 'O', '-', 'a_any')
    return [
        {'ps': [p('s', 'PK'), p('x', 'PK'), opt('y', 'PK')], 'r': 'a_int'},
        {'ps': [p('s', 'PO'), opt('x', 'PO'), p('y', 'KO'), var('kw', 'VK')],
         'r': 'a_str'},
        {'ps': [var('va', 'VP'), opt('x', 'KO')], 'r': 'a_none'},
        {'ps': [p('s', 'PK'), var('va', 'VP'), opt('y', 'KO'), var('kw', 'VK')],
         'r': 'a_any'}]


def game(ctx, classes, member, keywords, binds, laws=True):
    quoted = ','.join(f'"{k}"' for k in keywords)
    result = ctx.tlc('CallGame', GAME % (classes, member, quoted, binds,
                                         (LAWS if laws else 'Lawful') + ' Emit'),
                     expect_ok=True, heap='12g')
    rows = [row for row in result.lines('ROW ')
            if (row['x']['e'] == 'part') == (ctx.prop == 'C11')
            or row['x']['e'] == 'get']
    path, out, fs = (ctx.path('rows.ndjson'), ctx.path('report.json'),
                     ctx.path('functions.json'))
    with open(fs, 'w') as file:
        json.dump(functions(), file)
    with open(path, 'w') as file:
        for row in rows:
            file.write(json.dumps(row) + '\n')
    ctx.driver('call_rows.py', path, out, member, fs, timeout=800)
    with open(out) as file:
        report = json.load(file)
    ctx.add('rows_replayed', report['rows'])
    ctx.add('programs_replayed', report['programs'])
    ctx.add('rows_without_signature', report['missing'])
    if rows:
        ctx.sample({'row': rows[len(rows) // 2]})
    for bad in report['bad']:
        ctx.violation(f'{ctx.prop}.row', clause=f'{ctx.prop}.row',
                      row=bad['row'], got=bad['got'])


def traces(ctx, what, count, seeds=1):
    for offset in range(seeds):
        _, out, _ = ctx.driver('call_traces.py', what, count,
                               ctx.seed + 1000 * offset, timeout=800)
        recorded = [json.loads(line) for line in out.splitlines()]
        ctx.sample({'trace': recorded[len(recorded) // 2]['id'],
                    'first': recorded[len(recorded) // 2]['events'][:1]})
        for bad in ctx.validate('CallTrace', recorded):
            spec = [c for c in bad['clauses'] if c.startswith('SPEC')]
            if spec:
                raise vplib.MachineryError('the specification disagrees with '
                                           'Python: ' + json.dumps(bad)[:3000])
            mine = [c for c in bad['clauses'] if c.startswith(ctx.prop)]
            if mine:
                ctx.violation(','.join(mine), clause=','.join(mine), **{
                        k: v for k, v in bad.items() if k != 'clauses'})


def run(ctx):
    big = ctx.thorough
    if ctx.prop == 'C10':
        game(ctx, 3, 'm', ['x', 's'], 0)
        for member in ('__init__', '__new__'):
            game(ctx, 4 if big else 3, member, ['x', 's'], 0)
        traces(ctx, 'user', 3000 if big else 900, 5 if big else 1)
    else:
        game(ctx, 2, 'm', ['x', 'y', 'w'], 2 if big else 1)
        if big:
            game(ctx, 3, 'm', ['x', 'y', 's'], 1)
        game(ctx, 2, '__init__', ['x', 'y', 's'], 2)
        traces(ctx, 'user', 2500 if big else 600, 5 if big else 1)
        traces(ctx, 'stdlib', 5000 if big else 1200, 3 if big else 1)
    ctx.assumptions += [
        'classes constructed both by an initializer and an allocator, metaclasses '
        'with their own call and functions with private names are left out',
        'CPython 3.12 defines what calls and class statements do; real calls are '
        'compared with the specification in every run']
