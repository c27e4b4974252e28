#!/usr/bin/env python3
"""Edits that keep the behaviour, to see that the checks stay quiet on them.

refactor.py REPO NAME[,NAME...] : rewrites the package in REPO (a scratch copy)
  impl      the body of each method moves to a helper method
  function  the body of each module-level function moves to a helper function
  result    'return X' becomes 'result = X; return result'
  rename    local variables get other names
  invert    'if a: X else: Y' becomes 'if not a: Y else: X'
  loop      list comprehensions that are assigned become loops
  const     numbers in functions become module-level constants
  commute   a * b becomes b * a and a + b becomes b + a for numbers in view
  early     'if a: return X' followed by more becomes if / else
  lazy      imports inside the package move into the functions that use them
  temp      the arguments of calls are assigned to local variables first
"""
import ast
import builtins
import glob
import os
import sys


def is_njit(f):
    return any('njit' in ast.dump(d) or 'vectorize' in ast.dump(d)
               or 'jit' in ast.dump(d) for d in f.decorator_list)


def decorated(f):
    return [d for d in f.decorator_list]


def is_generator(f):
    for n in walk_own(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
    return False


def walk_own(f):
    """Nodes of a function, without those of nested functions"""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def docstring(body):
    return bool(body and isinstance(body[0], ast.Expr)
                and isinstance(body[0].value, ast.Constant)
                and isinstance(body[0].value.value, str))


def call_args(a, skip):
    args = [ast.Name(x.arg, ast.Load()) for x in a.posonlyargs + a.args][skip:]
    if a.vararg:
        args.append(ast.Starred(ast.Name(a.vararg.arg, ast.Load()),
                                ast.Load()))
    kw = [ast.keyword(x.arg, ast.Name(x.arg, ast.Load()))
          for x in a.kwonlyargs]
    if a.kwarg:
        kw.append(ast.keyword(None, ast.Name(a.kwarg.arg, ast.Load())))
    return args, kw


def no_defaults(a):
    a = ast.parse('def f(' + ast.unparse(a) + '): pass').body[0].args
    a.defaults = []
    a.kw_defaults = [None] * len(a.kw_defaults)
    return a


def impl(tree):
    for cls in [n for n in ast.walk(tree) if isinstance(n, ast.ClassDef)]:
        new = []
        for f in cls.body:
            new.append(f)
            if not isinstance(f, ast.FunctionDef) or is_njit(f):
                continue
            deco = [ast.unparse(d) for d in f.decorator_list]
            if any(d not in ('property', 'staticmethod', 'classmethod')
                   for d in deco) or f.name in ('__new__',):
                continue
            if not f.args.args and 'staticmethod' not in deco:
                continue
            body = f.body[1:] if docstring(f.body) else f.body
            if len(body) < 2:
                continue
            name = '_{}_{}_impl'.format(cls.name.strip('_').lower(),
                                        f.name.strip('_'))
            static = 'staticmethod' in deco
            args, kw = call_args(f.args, 0 if static else 1)
            first = cls.name if static else f.args.args[0].arg
            call = ast.Call(ast.Attribute(ast.Name(first, ast.Load()), name,
                                          ast.Load()), args, kw)
            helper = ast.FunctionDef(
                name=name, args=no_defaults(f.args), body=body,
                decorator_list=[ast.Name(d, ast.Load()) for d in deco
                                if d != 'property'], returns=None,
                type_params=[])
            doc = f.body[:1] if docstring(f.body) else []
            f.body = doc + [ast.Expr(ast.YieldFrom(call)) if is_generator(f)
                            else ast.Return(call)]
            new.append(helper)
        cls.body = new


def function(tree):
    new = []
    for f in tree.body:
        if isinstance(f, ast.FunctionDef) and not f.decorator_list:
            body = f.body[1:] if docstring(f.body) else f.body
            if len(body) > 1:
                name = '_' + f.name + '_body'
                args, kw = call_args(f.args, 0)
                call = ast.Call(ast.Name(name, ast.Load()), args, kw)
                new.append(ast.FunctionDef(
                    name=name, args=no_defaults(f.args), body=body,
                    decorator_list=[], returns=None, type_params=[]))
                doc = f.body[:1] if docstring(f.body) else []
                gen = is_generator(f)
                f.body = doc + [ast.Expr(ast.YieldFrom(call)) if gen
                                else ast.Return(call)]
        new.append(f)
    tree.body = new


def blocks(tree):
    for n in ast.walk(tree):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, field, b


def result(tree):
    for n, field, b in list(blocks(tree)):
        new = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None:
                new.append(ast.Assign([ast.Name('result_', ast.Store())],
                                      s.value))
                s = ast.Return(ast.Name('result_', ast.Load()))
            new.append(s)
        setattr(n, field, new)


def invert(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.If) and n.orelse and not (
                len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body


def early(tree):
    for n, field, b in list(blocks(tree)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b) \
                    and isinstance(s.body[-1], (ast.Return, ast.Continue,
                                                ast.Raise)):
                s.orelse = b[i + 1:]
                del b[i + 1:]
                break


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def rename(tree):
    for f in functions(tree):
        nested = [n for n in ast.walk(f) if n is not f and isinstance(
            n, (ast.FunctionDef, ast.Lambda, ast.ClassDef))]
        text = ast.unparse(f)
        if nested or 'locals()' in text or 'global ' in text:
            continue
        a = f.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        params |= {x.arg for x in (a.vararg, a.kwarg) if x}
        stored = {n.id for n in ast.walk(f) if isinstance(n, ast.Name)
                  and isinstance(n.ctx, ast.Store)} - params
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in stored:
                n.id += '_v'
            if isinstance(n, ast.ExceptHandler) and n.name:
                pass


def loop(tree):
    for f in functions(tree):
        if is_njit(f):
            continue
        for n, field, b in list(blocks(f)):
            new = []
            for s in b:
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                        isinstance(s.targets[0], ast.Name) and \
                        isinstance(s.value, ast.ListComp) and \
                        len(s.value.generators) == 1:
                    g = s.value.generators[0]
                    used = {x.id for x in ast.walk(s.value)
                            if isinstance(x, ast.Name)}
                    name = s.targets[0].id
                    if name not in used:
                        add = ast.Expr(ast.Call(ast.Attribute(
                            ast.Name(name, ast.Load()), 'append',
                            ast.Load()), [s.value.elt], []))
                        body = [add]
                        for test in g.ifs:
                            body = [ast.If(test, body, [])]
                        new.append(ast.Assign(s.targets,
                                              ast.List([], ast.Load())))
                        new.append(ast.For(g.target, g.iter, body, []))
                        continue
                new.append(s)
            setattr(n, field, new)


def const(tree):
    found = {}
    for f in functions(tree):
        skip = {id(x) for n in ast.walk(f) if isinstance(
            n, (ast.Subscript, ast.JoinedStr)) for x in ast.walk(n)}
        args = {id(x) for d in f.args.defaults + f.args.kw_defaults if d
                for x in ast.walk(d)}

        class T(ast.NodeTransformer):
            def visit_Constant(self, n):
                if id(n) in skip or id(n) in args or type(n.value) not in (
                        int, float):
                    return n
                name = found.setdefault(
                    (type(n.value).__name__, repr(n.value)),
                    'NUMBER_{}'.format(len(found)))
                return ast.Name(name, ast.Load())
        f.body = [T().visit(s) for s in f.body]
    start = 0
    while start < len(tree.body) and (
            docstring(tree.body[start:]) or
            isinstance(tree.body[start], (ast.Import, ast.ImportFrom))):
        start += 1
    tree.body[start:start] = [
        ast.Assign([ast.Name(v, ast.Store())], ast.parse(k[1]).body[0].value)
        for k, v in found.items()]


def commute(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Mult, ast.Add)):
            def number(x):
                return isinstance(x, ast.Constant) and \
                    type(x.value) in (int, float)
            if number(n.left) != number(n.right):
                other = n.right if number(n.left) else n.left
                if not isinstance(other, (ast.List, ast.Constant)):
                    n.left, n.right = n.right, n.left


def lazy(tree):
    """from CHECLabPy.x import y at the top -> inside the functions"""
    names = {}
    top = []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and s.module and \
                s.module.startswith('CHECLabPy') and not any(
                    a.name == '*' for a in s.names):
            for a in s.names:
                names[a.asname or a.name] = (s, a)
            continue
        top.append(s)
    outside = set()
    for s in top:
        for n in ast.walk(s):
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list + n.args.defaults:
                    outside |= {x.id for x in ast.walk(d)
                                if isinstance(x, ast.Name)}
    inside = {}
    for s in top:
        stack = [s]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.FunctionDef):
                used = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
                inside[id(n)] = (n, used & set(names))
                if is_njit(n):
                    outside |= used & set(names)
                continue
            if isinstance(n, ast.Name):
                outside.add(n.id)
            stack.extend(ast.iter_child_nodes(n))
    move = {k for k in names if k not in outside and any(
        k in u for _, u in inside.values())}
    if os.path.basename(tree.path) == '__init__.py' or \
            'spectrum_fitters' in tree.path:  # names imported from there
        move = set()
    for n, used in inside.values():
        at = 1 if docstring(n.body) else 0
        for k in sorted(used & move):
            s, a = names[k]
            n.body.insert(at, ast.ImportFrom(s.module, [ast.alias(
                a.name, a.asname)], 0))
    new = []
    for s in tree.body:
        if isinstance(s, ast.ImportFrom) and any(
                names.get(a.asname or a.name, (None,))[0] is s
                for a in s.names):
            keep = [a for a in s.names if (a.asname or a.name) not in move]
            if not keep:
                continue
            s.names = keep
        new.append(s)
    tree.body = new


def temp(tree):
    count = [0]
    for f in functions(tree):
        if is_njit(f):
            continue
        for n, field, b in list(blocks(f)):
            new = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Expr)) and isinstance(
                        s.value, ast.Call) and not any(
                        isinstance(x, ast.Starred) for x in s.value.args) \
                        and isinstance(s.value.func, ast.Attribute) and \
                        isinstance(s.value.func.value, ast.Name):
                    for i, a in enumerate(s.value.args):
                        if isinstance(a, (ast.Call, ast.BinOp, ast.Subscript)):
                            count[0] += 1
                            name = 'arg_{}'.format(count[0])
                            new.append(ast.Assign(
                                [ast.Name(name, ast.Store())], a))
                            s.value.args[i] = ast.Name(name, ast.Load())
                new.append(s)
            setattr(n, field, new)


def main(repo, names):
    files = glob.glob(os.path.join(repo, 'CHECLabPy', '**', '*.py'),
                      recursive=True)
    for path in sorted(files):
        if '/tests/' in path:
            continue
        with open(path) as f:
            source = f.read()
        tree = ast.parse(source)
        for name in names:
            tree.path = path
            globals()[name](tree)
            tree = ast.parse(ast.unparse(ast.fix_missing_locations(tree)))
        with open(path, 'w') as f:
            f.write(ast.unparse(tree) + '\n')
    assert builtins


if __name__ == '__main__':
    main(sys.argv[1], sys.argv[2].split(','))
