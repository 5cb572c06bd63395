"""Loops counting the places of a sequence, as loops over the sequence.

``for i in range(len(x)): f(x[i])`` becomes ``for e in x: f(e)`` if the number
is used for nothing else and ``x`` occurs nowhere else in the loop.
"""
import ast
import copy


def plain(e):
    """A name, or attributes of a name."""
    while isinstance(e, ast.Attribute):
        e = e.value
    return isinstance(e, ast.Name)


def is_call(n, name, count=None):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
        n.func.id == name and not n.keywords and \
        (count is None or len(n.args) == count) and \
        not any(isinstance(a, ast.Starred) for a in n.args)


def number(n, v):
    try:
        return ast.literal_eval(n) == v
    except ValueError:
        return False


def places(it):
    """(sequence, reversed) whose places the expression counts, or None."""
    if is_call(it, 'reversed', 1):
        got = places(it.args[0])
        return got and (got[0], not got[1])
    if not is_call(it, 'range'):
        return None
    a = it.args
    if len(a) == 2 and number(a[0], 0):
        a = a[1:]
    if len(a) == 1 and is_call(a[0], 'len', 1) and plain(a[0].args[0]):
        return a[0].args[0], False
    if len(a) == 3 and number(a[1], -1) and number(a[2], -1) and \
            isinstance(a[0], ast.BinOp) and isinstance(a[0].op, ast.Sub) and \
            number(a[0].right, 1) and is_call(a[0].left, 'len', 1) and \
            plain(a[0].left.args[0]):
        return a[0].left.args[0], True
    return None


class Replace(ast.NodeTransformer):

    def __init__(self, seq, i, new):
        self.seq, self.i, self.new = ast.dump(seq), i, new
        self.count = 0

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Name) and \
                n.slice.id == self.i and ast.dump(n.value) == self.seq:
            self.count += 1
            return ast.copy_location(ast.Name(self.new, ast.Load()), n)
        return self.generic_visit(n)


def rewritten(seq, i, new, nodes):
    """The nodes with the elements in place of the places, or None."""
    r = Replace(seq, i, new)
    out = [r.visit(copy.deepcopy(n)) for n in nodes]
    key = ast.dump(seq)
    for n in out:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id == i:
                return None
            if isinstance(x, (ast.Name, ast.Attribute)) and \
                    ast.dump(x).replace('Store()', 'Load()').replace(
                        'Del()', 'Load()') == key:
                return None
    return out if r.count else None


def over(seq, back, node):
    seq = copy.deepcopy(seq)
    if back:
        seq = ast.Call(ast.Name('reversed', ast.Load()), [seq], [])
    for x in ast.walk(seq):
        ast.copy_location(x, node)
    return seq


class Places(ast.NodeTransformer):

    def __init__(self):
        self.scopes = []

    def visit_FunctionDef(self, n):
        self.scopes.append(n)
        self.generic_visit(n)
        self.scopes.pop()
        return n

    def used_elsewhere(self, n, i):
        """Is the number used outside of loops counting with it?"""
        def walk(x):
            if isinstance(x, ast.Name) and x.id == i:
                return True
            if isinstance(x, ast.For) and isinstance(x.target, ast.Name) and \
                    x.target.id == i:
                return any(walk(y) for y in [x.iter] + x.orelse)
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)) and any(
                    isinstance(g.target, ast.Name) and g.target.id == i
                    for g in x.generators):
                return False
            return any(walk(y) for y in ast.iter_child_nodes(x))
        return not self.scopes or walk(self.scopes[-1])

    def visit_For(self, n):
        self.generic_visit(n)
        got = places(n.iter)
        if got is None or not isinstance(n.target, ast.Name):
            return n
        i = n.target.id
        if self.used_elsewhere(n, i):
            return n
        new = '%s__element' % i
        body = rewritten(got[0], i, new, n.body)
        if body is None:
            return n
        n.body = body
        n.iter = over(got[0], got[1], n.iter)
        n.target = ast.copy_location(ast.Name(new, ast.Store()), n.target)
        return n

    def comprehension(self, n):
        self.generic_visit(n)
        g = n.generators[0]
        got = places(g.iter)
        if got is None or not isinstance(g.target, ast.Name):
            return n
        i = g.target.id
        new = '%s__element' % i
        fields = ['key', 'value'] if isinstance(n, ast.DictComp) else ['elt']
        rest = n.generators[1:]
        nodes = [getattr(n, f) for f in fields] + g.ifs + rest
        out = rewritten(got[0], i, new, nodes)
        if out is None:
            return n
        for f in fields:
            setattr(n, f, out.pop(0))
        g.ifs = out[:len(g.ifs)]
        n.generators[1:] = out[len(out) - len(rest):] if rest else []
        g.iter = over(got[0], got[1], g.iter)
        g.target = ast.copy_location(ast.Name(new, ast.Store()), g.target)
        return n

    visit_ListComp = visit_SetComp = comprehension
    visit_GeneratorExp = visit_DictComp = comprehension


def normal(tree):
    return Places().visit(tree)
