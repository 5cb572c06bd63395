"""Behaviour preserving rewrites of the repository made mechanically, to
measure false alarms with.  Development tool, not part of any check.

    python3 tools/transform.py [-k KIND] [-s SEED] [-n COUNT] [file ...]

Every rewrite is applied at every place of every function it applies to, one
variant each; with -n random combinations of rewrites are made instead.
Variants the tests fail with are reported as TESTS, those a check alarms with
as ALARM.
"""
import ast
import builtins
import copy
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

FN = (ast.FunctionDef, )
SCOPES = (ast.FunctionDef, ast.Lambda, ast.ListComp, ast.GeneratorExp,
          ast.DictComp, ast.SetComp, ast.ClassDef)


def names(nodes, ctx=None):
    out = set()
    for n in nodes if isinstance(nodes, list) else [nodes]:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and (
                    ctx is None or isinstance(x.ctx, ctx)):
                out.add(x.id)
    return out


def has(nodes, kinds):
    return any(isinstance(x, kinds) for n in (
        nodes if isinstance(nodes, list) else [nodes]) for x in ast.walk(n))


def jumps(body):
    """Whether control leaves the block other than at its end or by errors."""
    return has(body, (ast.Return, ast.Break, ast.Continue, ast.Yield,
                      ast.YieldFrom))


def leaves(body):
    return isinstance(body[-1], (ast.Return, ast.Raise, ast.Continue,
                                 ast.Break))


def params(f):
    a = f.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [
        x.arg for x in (a.vararg, a.kwarg) if x]


def local_names(f):
    out = set(params(f))
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.FunctionDef) and n is not f:
            out.add(n.name)
    return out


def P(s):
    return ast.parse(s).body


def E(s):
    return ast.parse(s, mode='eval').body


def name(n, ctx=None):
    return ast.Name(n, ctx or ast.Load())


# Rewrites of a statement within its block: f(block, index, function, module)
# -> new statements replacing [(start, end, statements)] or None.

def ret_temp(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.Return) and s.value is not None and not isinstance(
            s.value, (ast.Name, ast.Constant)):
        return i, i + 1, [ast.Assign([name('result_', ast.Store())], s.value),
                          ast.Return(name('result_'))]


def invert(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If):
        return i, i + 1, [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                 s.orelse or [ast.Pass()], s.body)]


def to_else(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and leaves(s.body) and \
            b[i + 1:]:
        return i, len(b), [ast.If(s.test, s.body, b[i + 1:])]


def flatten(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and s.orelse and leaves(s.body):
        return i, i + 1, [ast.If(s.test, s.body, [])] + s.orelse


def guard(b, i, f, m):
    """if c: rest at the end of a function -> if not c: return"""
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and b is f.body and \
            i == len(b) - 1:
        return i, i + 1, [ast.If(ast.UnaryOp(ast.Not(), s.test),
                                 [ast.Return(None)], [])] + s.body


def split_and(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and \
            isinstance(s.test.op, ast.And) and not s.orelse:
        body = s.body
        for t in reversed(s.test.values):
            body = [ast.If(t, body, [])]
        return i, i + 1, body


def merge_and(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
            isinstance(s.body[0], ast.If) and not s.body[0].orelse:
        return i, i + 1, [ast.If(ast.BoolOp(ast.And(), [
            s.test, s.body[0].test]), s.body[0].body, [])]


def split_or(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp) and \
            isinstance(s.test.op, ast.Or) and leaves(s.body):
        return i, i + 1, [ast.If(t, copy.deepcopy(s.body), [])
                          for t in s.test.values] + s.orelse


def de_morgan(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and isinstance(s.test, ast.BoolOp):
        op = ast.Or() if isinstance(s.test.op, ast.And) else ast.And()
        return i, i + 1, [ast.If(ast.UnaryOp(ast.Not(), ast.BoolOp(op, [
            x.operand if isinstance(x, ast.UnaryOp) and isinstance(
                x.op, ast.Not) else ast.UnaryOp(ast.Not(), x)
            for x in s.test.values])), s.body, s.orelse)]


def test_temp(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
        return i, i + 1, [ast.Assign([name('cond_', ast.Store())], s.test),
                          ast.If(name('cond_'), s.body, s.orelse)]


def call_of(s):
    if isinstance(s, (ast.Expr, ast.Assign, ast.Return)) and isinstance(
            s.value, ast.Call):
        return s.value


def hoist(b, i, f, m):
    c = call_of(b[i])
    if c is None or any(isinstance(a, ast.Starred) for a in c.args) or \
            isinstance(c.func, ast.Name) and c.func.id == 'super' or not \
            c.args or has(c, (ast.Yield, )):
        return
    out = []
    if not isinstance(c.func, ast.Name):
        out.append(ast.Assign([name('func_', ast.Store())], c.func))
        c.func = name('func_')
    for k, a in enumerate(c.args):
        if isinstance(a, (ast.Name, ast.Constant)):
            continue
        out.append(ast.Assign([name('arg%d_' % k, ast.Store())], a))
        c.args[k] = name('arg%d_' % k)
    if out:
        return i, i + 1, out + [b[i]]


def hoist_object(b, i, f, m):
    """obj.a.method(x) -> o = obj.a; o.method(x)"""
    c = call_of(b[i])
    if c is not None and isinstance(c.func, ast.Attribute) and isinstance(
            c.func.value, (ast.Attribute, ast.Call, ast.Subscript)) and not \
            (isinstance(c.func.value, ast.Call) and
             getattr(c.func.value.func, 'id', '') == 'super'):
        v = c.func.value
        c.func.value = name('obj_')
        return i, i + 1, [ast.Assign([name('obj_', ast.Store())], v), b[i]]


def iter_temp(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.For) and not isinstance(s.iter, ast.Name):
        v = s.iter
        s.iter = name('iterable_')
        return i, i + 1, [ast.Assign([name('iterable_', ast.Store())], v), s]


def while_iter(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.For) and not s.orelse:
        w = P('it_ = iter(X)\nwhile True:\n    try:\n        X = next(it_)\n'
              '    except StopIteration:\n        break\n')
        w[0].value.args[0] = s.iter
        w[1].body[0].body[0].targets[0] = s.target
        w[1].body += s.body
        return i, i + 1, w


def comp_loop(b, i, f, m):
    s = b[i]
    if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
            s.value, ast.ListComp) and len(s.value.generators) == 1:
        c = s.value
        g = c.generators[0]
        body = P('list_.append(X)')
        body[0].value.args[0] = c.elt
        for t in reversed(g.ifs):
            body = [ast.If(t, body, [])]
        s.value = name('list_')
        return i, i + 1, P('list_ = []') + [ast.For(
            g.target, g.iter, body, [])] + [s]


def append_comp(b, i, f, m):
    """x = []; for y in z: x.append(e) -> x = [e for y in z]"""
    if i + 1 >= len(b):
        return
    s, l = b[i], b[i + 1]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Name) and ast.unparse(s.value) in (
                'list()', '[]') and isinstance(l, ast.For) and \
            len(l.body) == 1:
        x = l.body[0]
        if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and \
                ast.unparse(x.value.func) == s.targets[0].id + '.append':
            s.value = ast.ListComp(x.value.args[0], [
                ast.comprehension(l.target, l.iter, [], 0)])
            return i, i + 2, [s]


def ifexp(b, i, f, m):
    s = b[i]
    if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
            s.value, ast.IfExp):
        x = s.value
        t = copy.deepcopy(s)
        s.value, t.value = x.body, x.orelse
        return i, i + 1, [ast.If(x.test, [s], [t])]


def to_ifexp(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and len(s.body) == len(s.orelse) == 1:
        x, y = s.body[0], s.orelse[0]
        if type(x) is type(y) and isinstance(x, (ast.Return, ast.Assign)) \
                and x.value is not None and y.value is not None and (
                    isinstance(x, ast.Return) or [
                        ast.unparse(t) for t in x.targets] == [
                            ast.unparse(t) for t in y.targets]):
            x.value = ast.IfExp(s.test, x.value, y.value)
            return i, i + 1, [x]


def ret_ifexp(b, i, f, m):
    """if c: return a; return b -> return a if c else b"""
    if i + 1 < len(b) and isinstance(b[i], ast.If) and not b[i].orelse and \
            len(b[i].body) == 1 and isinstance(b[i].body[0], ast.Return) and \
            isinstance(b[i + 1], ast.Return) and b[i].body[0].value and \
            b[i + 1].value:
        return i, i + 2, [ast.Return(ast.IfExp(
            b[i].test, b[i].body[0].value, b[i + 1].value))]


def try_else(b, i, f, m):
    """what follows a try whose handlers all leave goes to else"""
    s = b[i]
    if isinstance(s, ast.Try) and s.handlers and not s.orelse and not \
            s.finalbody and b[i + 1:] and all(leaves(h.body)
                                              for h in s.handlers):
        s.orelse = b[i + 1:]
        return i, len(b), [s]


def else_out(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.Try) and s.orelse and not s.finalbody and all(
            leaves(h.body) for h in s.handlers):
        r = s.orelse
        s.orelse = []
        return i, i + 1, [s] + r


def try_return(b, i, f, m):
    """try: return x -> try: r = x; except …; return r / else: return"""
    s = b[i]
    if isinstance(s, ast.Try) and s.handlers and not s.orelse and not \
            s.finalbody and isinstance(s.body[-1], ast.Return) and \
            s.body[-1].value is not None:
        v = s.body[-1].value
        s.body[-1] = ast.Assign([name('res_', ast.Store())], v)
        s.orelse = [ast.Return(name('res_'))]
        return i, i + 1, [s]


def multi(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.Assign) and len(s.targets) > 1:
        return i, i + 1, [ast.Assign([name('val_', ast.Store())], s.value)] \
            + [ast.Assign([t], name('val_')) for t in s.targets]


def aug(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.AugAssign) and isinstance(s.target, (
            ast.Name, ast.Attribute)) and 'todel' not in ast.unparse(s):
        t = copy.deepcopy(s.target)
        t.ctx = ast.Load()
        return i, i + 1, [ast.Assign([s.target], ast.BinOp(
            t, s.op, s.value))]


def swap_assign(b, i, f, m):
    if i + 1 >= len(b):
        return
    s, t = b[i], b[i + 1]
    if all(isinstance(x, ast.Assign) and len(x.targets) == 1 and not has(
            x, (ast.Call, ast.Subscript)) for x in (s, t)):
        a, c = ast.unparse(s.targets[0]), ast.unparse(t.targets[0])
        if a not in ast.unparse(t) and c not in ast.unparse(s) and \
                a.split('.')[-1] != c.split('.')[-1] and \
                a.split('.')[-1] not in ast.unparse(t.value) and \
                c.split('.')[-1] not in ast.unparse(s.value):
            return i, i + 2, [t, s]


def tuple_assign(b, i, f, m):
    r = swap_assign(b, i, f, m)
    if r:
        t, s = r[2]
        return i, i + 2, [ast.Assign([ast.Tuple([
            s.targets[0], t.targets[0]], ast.Store())], ast.Tuple([
                s.value, t.value], ast.Load()))]


def nop(b, i, f, m):
    return i, i, P('pass')


def branch(b, i, f, m):
    """a branch without effect"""
    a = f.args.posonlyargs + f.args.args
    loops = [x.target.id for x in ast.walk(f) if isinstance(x, ast.For) and
             isinstance(x.target, ast.Name) and any(b[i] is y for y in x.body)]
    n = loops[-1] if loops else a[-1].arg if a else None
    if n is None or i == 0 and isinstance(b[i], ast.Expr) and isinstance(
            b[i].value, ast.Constant):
        return
    return i, i, P('if %s is None:\n    pass' % n)


def unused(b, i, f, m):
    a = f.args.posonlyargs + f.args.args
    if not a or i == 0 and isinstance(b[i], ast.Expr) and isinstance(
            b[i].value, ast.Constant):
        return
    return i, i, P('unused_ = (%s, )' % a[-1].arg)


def cond_assign(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Attribute) and s.targets[0].attr in (
                '__name__', '__parent__', '_index') and isinstance(
                    s.value, (ast.Name, ast.Attribute)):
        t = copy.deepcopy(s.targets[0])
        t.ctx = ast.Load()
        return i, i + 1, [ast.If(ast.Compare(t, [ast.IsNot()], [s.value]),
                                 [s], [])]


def nested(b, i, f, m):
    """block of an if/for/with/try in a nested function"""
    s = b[i]
    if isinstance(s, (ast.If, ast.For, ast.With, ast.Try)):
        body = s.body
        if jumps(body) or names(body, (ast.Store, ast.Del)) or has(
                body, (ast.FunctionDef, )) or isinstance(body[-1], ast.Raise):
            return
        s.body = P('block_()')
        d = P('def block_():\n    pass')[0]
        d.body = body
        return i, i + 1, [d, s]


def helper(b, i, f, m, what, expr, tail=False):
    """Function of the module computing an expression."""
    loc = local_names(f)
    used = [n for n in sorted(names(expr)) if n in loc]
    if has(expr, (ast.Yield, ast.Lambda, ast.ListComp, ast.GeneratorExp)) \
            and any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)
                    for x in ast.walk(expr)):
        return None
    if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and not
           x.attr.endswith('__') for x in ast.walk(expr)):
        return None
    if 'super(' in ast.unparse(expr):
        return None
    d = P('def _helper_(%s):\n    return X' % ', '.join(used))[0]
    d.body[0].value = expr
    m.append(d)
    return E('_helper_(%s)' % ', '.join(used))


def top(b, f, m):
    """Whether f is not nested in another function."""
    return getattr(f, 'top_', False)


def test_helper(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.If) and has(s.test, (ast.Call, ast.Compare,
                                              ast.BoolOp)) and top(b, f, m):
        h = helper(b, i, f, m, 'test', s.test)
        if h is not None:
            s.test = h
            return i, i + 1, [s]


def value_helper(b, i, f, m):
    s = b[i]
    if isinstance(s, (ast.Return, ast.Assign, ast.Expr)) and s.value is not \
            None and has(s.value, (ast.Call, ast.Subscript)) and top(b, f, m):
        h = helper(b, i, f, m, 'value', s.value)
        if h is not None:
            s.value = h
            return i, i + 1, [s]


def block_helper(b, i, f, m):
    """block of a statement as function of the module"""
    s = b[i]
    if isinstance(s, (ast.If, ast.For, ast.With, ast.Try)) and top(b, f, m):
        body = s.body
        if jumps(body) or names(body, (ast.Store, ast.Del)) or has(
                body, (ast.FunctionDef, ast.AugAssign)) or has(
                    [x for x in body if isinstance(x, ast.Raise) and
                     x.exc is None], ast.Raise) or 'super(' in '\n'.join(
                         ast.unparse(x) for x in body):
            return
        loc = local_names(f)
        used = [n for n in sorted(names(body)) if n in loc]
        d = P('def _block_(%s):\n    pass' % ', '.join(used))[0]
        d.body = body
        m.append(d)
        s.body = P('_block_(%s)' % ', '.join(used))
        return i, i + 1, [s]


def tail_helper(b, i, f, m):
    """rest of a function as function of the module"""
    if b is not f.body or i == 0 or not top(b, f, m) or i == len(b):
        return
    rest = b[i:]
    if has(rest, (ast.Yield, ast.YieldFrom, ast.Global)) or has(
            f.body, (ast.Yield, )) or 'super(' in '\n'.join(
                ast.unparse(x) for x in rest):
        return
    loc = local_names(f)
    used = [n for n in sorted(names(rest)) if n in loc and (
        n in params(f) or n in names(b[:i], ast.Store))]
    d = P('def _rest_(%s):\n    pass' % ', '.join(used))[0]
    d.body = rest
    m.append(d)
    return i, len(b), P('return _rest_(%s)' % ', '.join(used)) if has(
        rest, ast.Return) else P('_rest_(%s)' % ', '.join(used))


def head_assert(b, i, f, m):
    return


def merge_ret(b, i, f, m):
    """if a: return x; if b: return x -> if a or b: return x"""
    if i + 1 < len(b) and all(isinstance(x, ast.If) and not x.orelse and
                              leaves(x.body) for x in b[i:i + 2]) and \
            ast.unparse(b[i].body[0]) == ast.unparse(b[i + 1].body[0]) and \
            len(b[i].body) == len(b[i + 1].body) == 1:
        return i, i + 2, [ast.If(ast.BoolOp(ast.Or(), [
            b[i].test, b[i + 1].test]), b[i].body, [])]


def inline(b, i, f, m):
    """x = e; statement using x once -> inlined"""
    if i + 1 >= len(b):
        return
    s, t = b[i], b[i + 1]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Name) and not has(s.value, (
                ast.Call, ast.Subscript, ast.Await)) and isinstance(t, (
                    ast.Assign, ast.Expr, ast.Return)):
        n = s.targets[0].id
        uses = [x for x in ast.walk(f) if isinstance(x, ast.Name) and
                x.id == n]
        mine = [x for x in ast.walk(t) if isinstance(x, ast.Name) and
                x.id == n and isinstance(x.ctx, ast.Load)]
        if len(uses) == 2 and len(mine) == 1 and not has(t, (
                ast.ListComp, ast.GeneratorExp, ast.Lambda)):
            class R(ast.NodeTransformer):
                def visit_Name(self, x):
                    return s.value if x is mine[0] else x
            return i, i + 2, [R().visit(t)]


def dunder(b, i, f, m):
    s = b[i]
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Subscript):
        t = s.targets[0]
        c = E('X.__setitem__(K, V)')
        c.func.value, c.args = t.value, [t.slice, s.value]
        return i, i + 1, [ast.Expr(c)]
    if isinstance(s, ast.Delete) and len(s.targets) == 1 and isinstance(
            s.targets[0], ast.Subscript):
        t = s.targets[0]
        c = E('X.__delitem__(K)')
        c.func.value, c.args = t.value, [t.slice]
        return i, i + 1, [ast.Expr(c)]


def for_else(b, i, f, m):
    """for … return …; rest -> for … else: rest"""
    s = b[i]
    if isinstance(s, ast.For) and not s.orelse and b[i + 1:] and not has(
            s.body, ast.Break):
        s.orelse = b[i + 1:]
        return i, len(b), [s]


def reraise(b, i, f, m):
    """except X: …raise -> except X as e_: …raise e_"""
    s = b[i]
    if isinstance(s, ast.Try):
        for h in s.handlers:
            if h.name is None and isinstance(h.body[-1], ast.Raise) and \
                    h.body[-1].exc is None and h.type is not None:
                h.name = 'exc_'
                h.body[-1].exc = name('exc_')
                return i, i + 1, [s]


def success_flag(b, i, f, m):
    """try: A; except E: B(raise) -> finally with a flag"""
    s = b[i]
    if isinstance(s, ast.Try) and len(s.handlers) == 1 and not s.orelse and \
            not s.finalbody and s.handlers[0].name is None and \
            ast.unparse(s.handlers[0].type or name('x')) == 'Exception' and \
            isinstance(s.handlers[0].body[-1], ast.Raise) and \
            s.handlers[0].body[-1].exc is None and not has(
                s.body, (ast.Return, )):
        h = s.handlers[0]
        return i, i + 1, P('done_ = False') + [ast.Try(
            s.body + P('done_ = True'), [], [], [ast.If(
                E('not done_'), h.body[:-1] or [ast.Pass()], [])])]


STATEMENTS = [v for k, v in sorted(globals().items()) if callable(v) and
              getattr(v, '__code__', None) is not None and
              v.__code__.co_varnames[:4] == ('b', 'i', 'f', 'm') and
              v.__code__.co_argcount == 4]


# rewrites of expressions: f(node) -> node or None

def e_container(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and not \
            n.args and not n.keywords:
        if n.func.id == 'dict':
            return E('{}')
        if n.func.id == 'list':
            return E('[]')
    if isinstance(n, ast.Dict) and not n.keys:
        return E('dict()')
    if isinstance(n, ast.List) and not n.elts and isinstance(
            n.ctx, ast.Load):
        return E('list()')


def e_none(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
            n.comparators[0], ast.Constant) and isinstance(
                n.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
        return ast.Compare(n.comparators[0], n.ops, [n.left])


def e_not(n):
    if isinstance(n, ast.Compare) and len(n.ops) == 1:
        o = {ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.NotEq: None}.get(
            type(n.ops[0]))
        if o:
            return ast.UnaryOp(ast.Not(), ast.Compare(
                n.left, [o()], n.comparators))


def e_fstring(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr == 'format' and isinstance(
                n.func.value, ast.Constant) and not n.keywords:
        parts = n.func.value.value.split('{}')
        if len(parts) == len(n.args) + 1 and '{' not in ''.join(parts):
            v = []
            for k, t in enumerate(parts):
                if t:
                    v.append(ast.Constant(t))
                if k < len(n.args):
                    v.append(ast.FormattedValue(n.args[k], -1, None))
            return ast.JoinedStr(v)


def e_percent(n):
    r = e_fstring(n)
    if r is not None:
        return ast.BinOp(ast.Constant(n.func.value.value.replace(
            '%', '%%').replace('{}', '%s')), ast.Mod(), ast.Tuple(
                n.args, ast.Load()))


def e_isinstance(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'isinstance' and isinstance(n.args[1], ast.Tuple):
        return ast.BoolOp(ast.Or(), [ast.Call(n.func, [n.args[0], t], [])
                                     for t in n.args[1].elts])


def e_genlist(n):
    if isinstance(n, ast.ListComp):
        return ast.Call(name('list'), [ast.GeneratorExp(
            n.elt, n.generators)], [])


def e_dictcomp(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'dict' and len(n.args) == 1 and isinstance(
                n.args[0], (ast.ListComp, ast.GeneratorExp)) and isinstance(
                    n.args[0].elt, ast.Tuple):
        k, v = n.args[0].elt.elts
        return ast.DictComp(k, v, n.args[0].generators)


def e_keys(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr == 'keys' and not n.args:
        return None


def e_getitem(n):
    if isinstance(n, ast.Subscript) and isinstance(
            n.ctx, ast.Load) and not isinstance(n.slice, ast.Slice) and not \
            isinstance(n.slice, ast.UnaryOp):
        c = E('X.__getitem__(K)')
        c.func.value, c.args = n.value, [n.slice]
        return c


def e_iter(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr == '__iter__' and not n.args:
        return ast.Call(name('iter'), [n.func.value], [])
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
            n.func.id == 'iter' and len(n.args) == 1:
        return ast.Call(ast.Attribute(n.args[0], '__iter__', ast.Load()),
                        [], [])


def e_ternary(n):
    if isinstance(n, ast.IfExp):
        return ast.IfExp(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)


def e_or(n):
    if isinstance(n, ast.BoolOp) and isinstance(n.op, ast.Or) and \
            len(n.values) == 2 and isinstance(n.values[0], (
                ast.Name, ast.Attribute)):
        return ast.IfExp(copy.deepcopy(n.values[0]), n.values[0],
                         n.values[1])


def e_lambda(n):
    if isinstance(n, ast.GeneratorExp):
        return ast.Call(name('iter'), [ast.ListComp(
            n.elt, n.generators)], [])


EXPRS = [v for k, v in sorted(globals().items()) if k.startswith('e_')]


# -- sites --------------------------------------------------------------------------

def blocks(f):
    """Blocks of a function, nested functions excluded."""
    out = []

    def walk(n):
        for k in ('body', 'orelse', 'finalbody'):
            b = getattr(n, k, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
                for s in b:
                    if not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        walk(s)
        for h in getattr(n, 'handlers', ()):
            walk(h)
    walk(f)
    return out


def functions(tree):
    out = []

    def walk(n, top):
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.FunctionDef):
                x.top_ = top
                out.append(x)
                walk(x, False)
            else:
                walk(x, top)
    walk(tree, True)
    return out


def apply(tree, site):
    """Apply the rewrite of a site; None if it does not apply."""
    kind = site[0]
    fs = functions(tree)
    if kind == 'rename':
        f = fs[site[1]]
        loc = local_names(f) - set(params(f))
        loc -= {x for n in ast.walk(f) if isinstance(n, (
            ast.Global, ast.Nonlocal)) for x in n.names}
        if not loc:
            return None
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id += '_1'
            if isinstance(n, ast.ExceptHandler) and n.name in loc:
                n.name += '_1'
            if isinstance(n, ast.FunctionDef) and n is not f and \
                    n.name in loc:
                n.name += '_1'
        return tree
    if kind == 'move':
        # body to a function of the module
        f = fs[site[1]]
        src = ast.unparse(f)
        if not f.top_ or 'super(' in src or f.name.startswith('__init_sub') \
                or any(isinstance(d, ast.Name) and d.id == 'contextmanager'
                       for d in f.decorator_list) or has(
                           f.body, (ast.Global, ast.Nonlocal)):
            return None
        if any(isinstance(x, ast.Attribute) and x.attr.startswith('__') and
               not x.attr.endswith('__') for x in ast.walk(f)):
            return None
        d = ast.FunctionDef('_impl_', copy.deepcopy(f.args), f.body, [],
                            None)
        d.type_params = []
        d.args.defaults = []
        d.args.kw_defaults = [None] * len(d.args.kwonlyargs)
        a = f.args
        call = E('_impl_(%s)' % ', '.join(
            [x.arg for x in a.args] + (['*' + a.vararg.arg] if a.vararg
                                       else []) +
            ['%s=%s' % (x.arg, x.arg) for x in a.kwonlyargs] +
            (['**' + a.kwarg.arg] if a.kwarg else [])))
        f.body = [ast.Return(call)]
        tree.body.append(d)
        return tree
    if kind == 'expr':
        f = fs[site[1]]
        n = list(ast.walk(f))[site[2]]
        r = EXPRS[site[3]](n)
        if r is None:
            return None

        class R(ast.NodeTransformer):
            def visit(self, x):
                if x is n:
                    return r
                return self.generic_visit(x)
        for i, s in enumerate(f.body):
            f.body[i] = R().visit(s)
        return tree
    f = fs[site[1]]
    b = blocks(f)[site[2]]
    extra = []
    r = STATEMENTS[site[4]](b, site[3], f, extra)
    if r is None:
        return None
    b[r[0]:r[1]] = r[2]
    if extra:
        # helpers precede whatever is executed at import
        i = max([k for k, s in enumerate(tree.body) if isinstance(s, (
            ast.Import, ast.ImportFrom))] or [0]) + 1
        tree.body[i:i] = extra
    return tree


def sites(src):
    tree = ast.parse(src)
    fs = functions(tree)
    for fi, f in enumerate(fs):
        yield ('rename', fi)
        yield ('move', fi)
        for ni, n in enumerate(ast.walk(f)):
            if isinstance(n, ast.expr):
                for k in range(len(EXPRS)):
                    yield ('expr', fi, ni, k)
        for bi, b in enumerate(blocks(f)):
            for i in range(len(b)):
                if isinstance(b[i], ast.Expr) and isinstance(
                        b[i].value, ast.Constant):
                    continue
                for k in range(len(STATEMENTS)):
                    yield ('stmt', fi, bi, i, k)


def label(src, site):
    f = functions(ast.parse(src))[site[1]]
    k = EXPRS[site[3]].__name__ if site[0] == 'expr' else STATEMENTS[
        site[4]].__name__ if site[0] == 'stmt' else site[0]
    return '%s in %s:%d' % (k, f.name, f.lineno)


def one_step(src, site):
    tree = apply(ast.parse(src), site)
    if tree is None:
        return None
    ast.fix_missing_locations(tree)
    try:
        out = ast.unparse(tree)
        compile(out, 'x', 'exec')
    except (SyntaxError, ValueError):
        return None
    return out


def variants(rel, kind=None):
    src = open('/repo/src/node/' + rel).read()
    base = ast.unparse(ast.parse(src))
    for s in sites(src):
        out = one_step(src, s)
        if out is None or out == base:
            continue
        l = label(src, s)
        if kind and not l.startswith(kind):
            continue
        yield rel, l, out


def combined(rel, rnd, steps):
    src = open('/repo/src/node/' + rel).read()
    cur, labels = src, []
    for _ in range(steps * 20):
        if len(labels) >= steps:
            break
        ss = list(sites(cur))
        if not ss:
            break
        s = rnd.choice(ss)
        if s[0] == 'stmt' and STATEMENTS[s[4]].__name__ == 'nop':
            continue
        l = label(cur, s)
        # names of helpers and temporaries are made unique
        out = one_step(cur, s)
        if out is None or out == ast.unparse(ast.parse(cur)):
            continue
        u = '_%d' % len(labels)
        for n in ('_helper_', '_block_', '_rest_', '_impl_', 'result_',
                  'cond_', 'func_', 'obj_', 'iterable_', 'it_', 'list_',
                  'res_', 'val_', 'block_', 'done_', 'exc_', 'arg0_',
                  'arg1_', 'arg2_'):
            import re
            out = re.sub(r'\b%s\b' % n, n + 'v' + u, out)
        cur = out
        labels.append(l)
    return rel, ' + '.join(labels), cur


def run(v):
    from mutate import RUN
    from sa import main as M
    from sa.source import Program
    rel, l, out = v
    w = tempfile.mkdtemp(prefix='tr-')
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns(
            '__pycache__', '*.pyc', '.git'))
        p = '%s/r/src/node/%s' % (w, rel)
        open(p, 'w').write(out)
        got, und = {}, {}
        fns = M.specs()
        for x in sorted(fns):
            c = M.run(x, fns[x], Program(w + '/r/src'))
            new, listed = M.report(c, x)
            if new:
                got[x] = sorted(set(v.what for v in new))[:2]
            if c.undecided:
                und[x] = sorted(set(c.undecided))[0]
        if got:
            r = subprocess.run(
                ['/opt/venv/bin/python', '-c', RUN, w + '/r/src', '-q', '-x',
                 '-p', 'no:cacheprovider', '--timeout=20', '--deselect',
                 'src/node/tests/test_testing.py::TestFullmapping::'
                 'test___setitem__', 'src/node/tests'],
                cwd=w + '/r', stdout=subprocess.PIPE,
                stderr=subprocess.STDOUT, text=True, env=dict(
                    os.environ, PYTHONDONTWRITEBYTECODE='1',
                    PYTHONHASHSEED='0', PYTHONPATH=w + '/r/src'))
            if r.returncode:
                return v, 'TESTS', r.stdout.strip().splitlines()[-1:], und
            return v, 'ALARM', got, und
        return v, 'UND' if und else 'QUIET', {}, und
    finally:
        shutil.rmtree(w, ignore_errors=True)


FILES = ['base.py', 'locking.py', 'serializer.py', 'utils.py'] \
    + ['behaviors/%s.py' % x for x in (
        'alias', 'attributes', 'cache', 'common', 'events', 'fallback',
        'lifecycle', 'mapping', 'nodespace', 'nodify', 'order', 'reference',
        'storage')]


def main(argv):
    import argparse
    from multiprocessing import Pool
    ap = argparse.ArgumentParser()
    ap.add_argument('-k')
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-n', type=int, default=0)
    ap.add_argument('-m', type=int, default=5)
    ap.add_argument('-d', action='store_true')
    ap.add_argument('files', nargs='*')
    a = ap.parse_args(argv)
    if a.n:
        rnd = random.Random(a.s)
        vs = [combined(rnd.choice(a.files or FILES[1:]), rnd, a.m)
              for _ in range(a.n)]
    else:
        seen, vs = set(), []
        for rel in a.files or FILES:
            for v in variants(rel, a.k):
                if (v[0], v[2]) not in seen:
                    seen.add((v[0], v[2]))
                    vs.append(v)
    print(len(vs), 'variants', flush=True)
    if a.d:
        for v in vs:
            print(v[0], v[1])
        return
    n = {}
    with Pool(8, maxtasksperchild=20) as pool:
        for v, kind, got, und in pool.imap_unordered(run, vs):
            n[kind] = n.get(kind, 0) + 1
            if kind in ('ALARM', 'TESTS'):
                print(kind, v[0], v[1], str(got)[:400], flush=True)
                if kind == 'ALARM':
                    d = '/tmp/t/alarms'
                    os.makedirs(d, exist_ok=True)
                    open('%s/%d.py' % (d, abs(hash((v[1], v[2])))),
                         'w').write('# %s %s\n# %s\n%s' % (
                             v[0], v[1], got, v[2]))
            elif kind == 'UND':
                x = sorted(und)[0]
                os.makedirs('/tmp/t/unds', exist_ok=True)
                open('/tmp/t/unds/%d.py' % abs(hash((v[1], v[2]))),
                     'w').write('# %s %s\n# %s\n%s' % (
                         v[0], v[1], x, v[2]))
                print(kind, v[0], v[1], x, str(und[x])[:200], flush=True)
    print(n)


if __name__ == '__main__':
    main(sys.argv[1:])
