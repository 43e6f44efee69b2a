"""Checks of callables that change (C21)."""
import json

import vplib

GAME = ('SPECIFICATION Spec\nCONSTANTS Policy="%s" Length=%d Part=%d Parts=%d\n'
        'INVARIANTS %s')
LAWS = 'Fresh Steady Coherent Legality'


def model(ctx):
    """-> the histories to replay"""
    lines = []
    plan = [(2, 1)] if not ctx.thorough else [(2, 1), (3, 4)]
    for length, parts in plan:
        result = ctx.model_check('LifeGame', GAME % (
                'none', length, ctx.seed % parts, parts, LAWS + ' Once Emit'))
        world = result.lines('WORLD ')
        lines = [world[0]] + [row for row in lines[1:]] + result.lines('HISTORY ')
    # the specification tells ways to keep answers that work from others
    ctx.model_check('LifeGame', GAME % ('validated', 2, 0, 1, LAWS))
    for policy in ('object', 'function'):
        result = ctx.tlc('LifeGame', GAME % (policy, 2, 0, 1, LAWS), count=False)
        if 'Fresh' not in result.violated:
            raise vplib.MachineryError(f'the model does not reject answers kept by '
                                       f'{policy}')
    return lines


def run(ctx):
    lines = model(ctx)
    path, out = ctx.path('histories.ndjson'), ctx.path('report.json')
    with open(path, 'w') as file:
        for line in lines:
            file.write(json.dumps(line) + '\n')
    ctx.driver('life_run.py', 'histories', path, out, timeout=800)
    with open(out) as file:
        report = json.load(file)
    ctx.add('histories_replayed', report['histories'])
    ctx.add('questions', report['questions'])
    ctx.sample({'history': lines[len(lines) // 2]['done']})
    for bad in report['bad']:
        ctx.violation('C21.history', clause='C21.history', **bad)
    for offset in range(6 if ctx.thorough else 1):
        _, text, _ = ctx.driver('life_run.py', 'random',
                                2000 if ctx.thorough else 700,
                                ctx.seed + 1000 * offset, timeout=800)
        recorded = [json.loads(line) for line in text.splitlines()]
        ctx.sample({'trace': recorded[0]['id'], 'events': recorded[0]['events'][1:4]})
        for bad in ctx.validate('LifeTrace', recorded, heap='12g'):
            if any(c.startswith('SPEC') for c in bad['clauses']):
                raise vplib.MachineryError('the specification disagrees with '
                                           'Python: ' + json.dumps(bad)[:3000])
            clauses = ','.join(bad['clauses'])
            ctx.violation(clauses, clause=clauses,
                          **{k: v for k, v in bad.items() if k != 'clauses'})
    _, text, _ = ctx.driver('life_run.py', 'library', ctx.seed, timeout=800)
    recorded = [json.loads(line) for line in text.splitlines()]
    ctx.add('modules_and_classes_left_alone', len(recorded))
    for bad in ctx.validate('LifeTrace', recorded):
        ctx.violation('C21.touched', clause='C21.touched', **{
                k: v for k, v in bad.items() if k != 'clauses'})
    ctx.assumptions += [
        'classes constructed by __new__, metaclasses and signatures declared with '
        '__signature__ are left out',
        'what keeps an object alive is decided by weak references after a garbage '
        'collection']
