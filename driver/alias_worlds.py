"""Made-up stubs having the graphs of AliasCache.tla."""
STYLES = ('one', 'names', 'members')
HEAD = 'from typing import Literal\n'


def nodes(graph):
    return range(1, len(graph) + 1)


def home(n, style, prefix):
    return prefix + ('a' if style == 'one' or n % 2 else 'b')


def modules(graph, kinds, style, prefix):
    """{module: text}; functions fN take one argument annotated with node N."""
    names = {home(n, style, prefix) for n in nodes(graph)}
    texts = {}
    for name in sorted(names):
        lines = [HEAD]
        other = prefix + ('b' if name.endswith('a') else 'a')
        if len(names) > 1:
            if style == 'members':
                lines.append(f'import {other}\n')
            else:
                foreign = [n for n in nodes(graph) if home(n, style, prefix) == other]
                lines.append(f'from {other} import '
                             + ', '.join(f'A{n}' for n in foreign) + '\n')

        def spelled(n):
            return (f'{other}.A{n}' if style == 'members'
                    and home(n, style, prefix) == other else f'A{n}')
        for n in nodes(graph):
            if home(n, style, prefix) != name:
                continue
            if kinds[n - 1] == 'class':
                lines.append(f'class A{n}:\n' + ''.join(
                        f'    x{i}: {spelled(m)}\n'
                        for i, m in enumerate(graph[n - 1])) + '    y: int\n')
            else:
                lines.append(f'A{n} = tuple[' + ', '.join(
                        [f'Literal["{n}"]', *map(spelled, graph[n - 1])]) + ']\n')
            lines.append(f'def f{n}(x: A{n}) -> None: ...\n')
        texts[name] = ''.join(lines)
    return texts
