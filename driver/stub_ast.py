"""Type stubs as data for Stubs.tla: parses a stub into statements.  Independent of the
code under test; knows nothing about name resolution, which is the specification's."""
import ast
import os

NIL = {'e': 'nil'}


class Unsupported(Exception):
    pass


def dotted(node):
    parts = []
    while isinstance(node, ast.Attribute):
        parts.append(node.attr)
        node = node.value
    if isinstance(node, ast.Name):
        parts.append(node.id)
        return parts[::-1]
    return None


def expr(node):
    if node is None:
        return NIL
    path = dotted(node)
    if path is not None:
        return {'e': 'name', 'p': path}
    if isinstance(node, ast.Subscript):
        items = (node.slice.elts if isinstance(node.slice, ast.Tuple)
                 else [node.slice])
        return {'e': 'sub', 'v': expr(node.value), 'a': [expr(x) for x in items],
                'tup': 'T' if isinstance(node.slice, ast.Tuple) else 'F'}
    if isinstance(node, ast.List):
        return {'e': 'list', 'a': [expr(x) for x in node.elts]}
    if isinstance(node, ast.Tuple):
        return {'e': 'tuple', 'a': [expr(x) for x in node.elts]}
    if isinstance(node, ast.Constant):
        if node.value is None:
            return {'e': 'none'}
        if node.value is Ellipsis:
            return {'e': 'dots'}
        return {'e': 'const', 'c': literal(node.value),
                's': 'T' if isinstance(node.value, str) else 'F'}
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        return {'e': 'or', 'a': [expr(node.left), expr(node.right)]}
    if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant):
        return {'e': 'const', 'c': literal(ast.literal_eval(node)), 's': 'F'}
    if isinstance(node, ast.Call):
        bound = [k.value for k in node.keywords if k.arg == 'bound']
        flags = {k.arg for k in node.keywords
                 if isinstance(k.value, ast.Constant) and k.value.value is True}
        return {'e': 'call', 'f': expr(node.func), 'a': [expr(x) for x in node.args],
                'b': expr(bound[0]) if bound else NIL,
                'v': ('co' if 'covariant' in flags else
                      'contra' if 'contravariant' in flags else 'in')}
    return {'e': 'other', 's': ast.unparse(node)}


def literal(value):
    return type(value).__name__ + ' ' + repr(value)


def default(node):
    """Text of a default, "..." when the stub leaves the value open."""
    if isinstance(node, ast.Constant):
        return '...' if node.value is Ellipsis else literal(node.value)
    try:
        return literal(ast.literal_eval(node))
    except (ValueError, TypeError, SyntaxError, MemoryError):
        return '?' + ast.unparse(node)


def parameters(args):
    positional = args.posonlyargs + args.args
    missing = len(positional) - len(args.defaults)
    result = []

    def add(arg, kind, value):
        result.append({'n': arg.arg, 'k': kind,
                       'o': 'R' if value is None and kind in ('PO', 'KO') else 'O',
                       'd': '-' if value is None else default(value),
                       'a': expr(arg.annotation)})
    for index, arg in enumerate(positional):
        add(arg, 'PO', None if index < missing else args.defaults[index - missing])
    if args.vararg:
        add(args.vararg, 'VP', None)
    for arg, value in zip(args.kwonlyargs, args.kw_defaults):
        add(arg, 'KO', value)
    if args.kwarg:
        add(args.kwarg, 'VK', None)
    return result


def condition(node):
    if isinstance(node, ast.BoolOp):
        return {'c': 'and' if isinstance(node.op, ast.And) else 'or',
                'a': [condition(x) for x in node.values]}
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        return {'c': 'not', 'a': [condition(node.operand)]}
    if isinstance(node, ast.Constant):
        return {'c': 'const', 'v': 'T' if node.value else 'F'}
    if isinstance(node, ast.Name) and node.id == 'TYPE_CHECKING':
        return {'c': 'const', 'v': 'T'}
    if isinstance(node, ast.Compare) and len(node.ops) > 1:
        operands = [node.left] + node.comparators
        return {'c': 'and',
                'a': [condition(ast.Compare(x, [op], [y]))
                      for x, op, y in zip(operands, node.ops, operands[1:])]}
    if isinstance(node, ast.Compare) and isinstance(node.left, (ast.Tuple, ast.Constant)):
        mirrored = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
        op = mirrored.get(type(node.ops[0]), type(node.ops[0]))
        return condition(ast.Compare(node.comparators[0], [op()], [node.left]))
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        left, right = node.left, node.comparators[0]
        op = type(node.ops[0]).__name__
        if dotted(left) == ['sys', 'platform']:
            return {'c': 'plat', 'op': op, 'v': [ast.literal_eval(right)]}
        if dotted(left) == ['sys', 'version_info']:
            return {'c': 'ver', 'op': op, 'v': list(ast.literal_eval(right))}
        if (isinstance(left, ast.Subscript)
                and dotted(left.value) == ['sys', 'version_info']
                and isinstance(left.slice, ast.Constant)):
            return {'c': 'veritem', 'op': op, 'i': left.slice.value + 1,
                    'v': ast.literal_eval(right)}
        if (isinstance(left, ast.Subscript)
                and dotted(left.value) == ['sys', 'version_info']
                and isinstance(left.slice, ast.Slice) and left.slice.lower is None):
            return {'c': 'ver', 'op': op, 'v': list(ast.literal_eval(right))}
    raise Unsupported(ast.unparse(node))


def statements(nodes):
    result = []
    for node in nodes:
        result += statement(node)
    return result


def statement(node):
    if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return [{'k': 'def', 'n': node.name, 'ps': parameters(node.args),
                 'r': expr(node.returns),
                 'dec': [expr(x) for x in node.decorator_list]}]
    if isinstance(node, ast.ClassDef):
        return [{'k': 'class', 'n': node.name, 'b': [expr(x) for x in node.bases],
                 'body': statements(node.body)}]
    if isinstance(node, ast.Import):
        return [{'k': 'import', 'n': alias.asname or alias.name.split('.')[0],
                 'm': alias.name, 'as': 'T' if alias.asname else 'F'}
                for alias in node.names]
    if isinstance(node, ast.ImportFrom):
        path = node.module.split('.') if node.module else []
        return [{'k': 'star', 'n': '*', 'lv': node.level, 'm': path}
                if alias.name == '*'
                else {'k': 'from', 'n': alias.asname or alias.name, 'of': alias.name,
                      'lv': node.level, 'm': path}
                for alias in node.names]
    if isinstance(node, ast.Assign):
        return [{'k': 'assign', 'n': target.id, 'v': expr(node.value)}
                for target in node.targets if isinstance(target, ast.Name)]
    if isinstance(node, ast.AnnAssign):
        if not isinstance(node.target, ast.Name):
            return []
        if node.value is None:
            return [{'k': 'var', 'n': node.target.id, 'a': expr(node.annotation),
                     'v': NIL}]
        if dotted(node.value) is None and isinstance(node.value, ast.Constant):
            return [{'k': 'var', 'n': node.target.id, 'a': expr(node.annotation),
                     'v': expr(node.value)}]
        return [{'k': 'assign', 'n': node.target.id, 'v': expr(node.value)}]
    if isinstance(node, ast.If):
        return [{'k': 'if', 'n': '', 'c': condition(node.test),
                 't': statements(node.body), 'f': statements(node.orelse)}]
    if isinstance(node, (ast.Expr, ast.Pass, ast.AugAssign, ast.Delete,
                         ast.Assert)):
        return []
    raise Unsupported(ast.dump(node)[:200])


def module(path):
    with open(path, encoding='utf-8') as file:
        tree = ast.parse(file.read())
    return {'pkg': 'T' if os.path.basename(path) == '__init__.pyi' else 'F',
            'b': statements(tree.body)}


def world(root, only=None):
    result = {}
    for directory, names, files in os.walk(root):
        names.sort()
        for name in sorted(files):
            if not name.endswith('.pyi'):
                continue
            path = os.path.join(directory, name)
            parts = os.path.relpath(path, root)[:-len('.pyi')].split(os.sep)
            if parts[-1] == '__init__':
                parts.pop()
            key = '.'.join(parts)
            if only is None or key in only:
                result[key] = {'p': parts, **module(path)}
    return result


if __name__ == '__main__':
    import json
    import sys
    import mypy
    w = world(os.path.join(os.path.dirname(mypy.__file__), 'typeshed', 'stdlib'))
    text = json.dumps(w)
    print(len(w), len(text))
    others = []

    def walk(x):
        if isinstance(x, dict):
            if x.get('e') == 'other':
                others.append(x['s'])
            for y in x.values():
                walk(y)
        elif isinstance(x, list):
            for y in x:
                walk(y)
    walk(w)
    print(len(others), others[:20])
