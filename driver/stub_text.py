"""Text of the statements of Stubs.tla (the inverse of stub_ast)."""


def expr(x):
    kind = x['e']
    if kind == 'name':
        return '.'.join(x['p'])
    if kind == 'none':
        return 'None'
    if kind == 'dots':
        return '...'
    if kind == 'const':
        return x['c'].partition(' ')[2]
    if kind == 'list':
        return '[' + ', '.join(map(expr, x['a'])) + ']'
    if kind == 'sub':
        inner = ', '.join(map(expr, x['a']))
        if x['tup'] == 'T' and len(x['a']) == 1:
            inner += ','
        return f'{expr(x["v"])}[{inner}]'
    if kind == 'or':
        return ' | '.join(map(expr, x['a']))
    if kind == 'call':
        args = [expr(a) for a in x['a']]
        if x['b']['e'] != 'nil':
            args.append('bound=' + expr(x['b']))
        if x['v'] != 'in':
            args.append(x['v'] + 'variant=True')
        return f'{expr(x["f"])}({", ".join(args)})'
    raise ValueError(x)


def parameter(p):
    text = {'VP': '*', 'VK': '**'}.get(p['k'], '') + p['n']
    if p['a']['e'] != 'nil':
        text += ': ' + expr(p['a'])
    if p['o'] == 'O' and p['k'] not in ('VP', 'VK'):
        text += ' = ' + (p['d'] if p['d'] == '...' else p['d'].partition(' ')[2])
    return text


def condition(c):
    op = {'GtE': '>=', 'Gt': '>', 'LtE': '<=', 'Lt': '<', 'Eq': '==', 'NotEq': '!='}
    if c['c'] == 'ver':
        return f'sys.version_info {op[c["op"]]} {tuple(c["v"])!r}'
    if c['c'] == 'veritem':
        return f'sys.version_info[{c["i"] - 1}] {op[c["op"]]} {c["v"]!r}'
    if c['c'] == 'plat':
        return f'sys.platform {op[c["op"]]} {c["v"][0]!r}'
    if c['c'] in ('and', 'or'):
        return '(' + f' {c["c"]} '.join(map(condition, c['a'])) + ')'
    if c['c'] == 'not':
        return 'not ' + condition(c['a'][0])
    return 'True' if c['v'] == 'T' else 'False'


def statements(body, indent=''):
    lines = []
    for s in body:
        kind = s['k']
        if kind == 'def':
            for d in s['dec']:
                lines.append(f'{indent}@{expr(d)}')
            parts, star = [], False
            for p in s['ps']:
                if p['k'] == 'VP':
                    star = True
                elif p['k'] == 'KO' and not star:
                    star = True
                    parts.append('*')
                parts.append(parameter(p))
            returns = '' if s['r']['e'] == 'nil' else ' -> ' + expr(s['r'])
            lines.append(f'{indent}def {s["n"]}({", ".join(parts)}){returns}: ...')
        elif kind == 'class':
            bases = f'({", ".join(map(expr, s["b"]))})' if s['b'] else ''
            lines.append(f'{indent}class {s["n"]}{bases}:')
            lines += statements(s['body'], indent + '    ') or [indent + '    ...']
        elif kind == 'import':
            lines.append(f'{indent}import {s["m"]}'
                         + (f' as {s["n"]}' if s['as'] == 'T' else ''))
        elif kind in ('from', 'star'):
            name = ('*' if kind == 'star' else s['of'] if s['of'] == s['n']
                    else f'{s["of"]} as {s["n"]}')
            lines.append(f'{indent}from {"." * s["lv"]}{".".join(s["m"])} '
                         f'import {name}')
        elif kind == 'assign':
            lines.append(f'{indent}{s["n"]} = {expr(s["v"])}')
        elif kind == 'var':
            lines.append(f'{indent}{s["n"]}: {expr(s["a"])}'
                         + ('' if s['v']['e'] == 'nil' else ' = ' + expr(s['v'])))
        elif kind == 'if':
            lines.append(f'{indent}if {condition(s["c"])}:')
            lines += statements(s['t'], indent + '    ') or [indent + '    ...']
            if s['f']:
                lines.append(f'{indent}else:')
                lines += statements(s['f'], indent + '    ')
        else:
            raise ValueError(s)
    return lines


def module(body):
    return '\n'.join(statements(body)) + '\n'
