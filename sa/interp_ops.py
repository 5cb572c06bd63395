"""Expression evaluation: operators, library models, containers, protocols."""
import ast
import builtins
import string

from .values import (FALSE, NONE, TRUE, V, app, bi, boolean, const, cval,
                     is_app, is_const, mentions, mk, subst, subterms, sym,
                     tup)

from . import interp as I

EXC_NAMES = frozenset(n for n in dir(builtins)
                      if isinstance(getattr(builtins, n), type) and
                      issubclass(getattr(builtins, n), BaseException))

PASS_FACTORIES = ('default', 'override', 'finalize', 'plumb', 'plumbifexists')



def rev_segs(segs):
    out = []
    for s in reversed(segs):
        if s[0] == 'item':
            out.append(s)
        elif s[0] == 'rev':
            out.append(s[1])
        else:
            out.append(('rev', s))
    return tuple(out)


PRELUDE = {
    'functools.reduce': """
def reduce(function, iterable, initial):
    for element in iterable:
        initial = function(initial, element)
    return initial
""",
    'operator.itemgetter': """
def itemgetter(key):
    return lambda obj: obj[key]
""",
    'operator.attrgetter': """
def attrgetter(name):
    return lambda obj: getattr(obj, name)
""",
    'operator.getitem': """
def getitem(obj, key):
    return obj[key]
""",
    'operator.setitem': """
def setitem(obj, key, value):
    obj[key] = value
""",
    'operator.delitem': """
def delitem(obj, key):
    del obj[key]
""",
    'operator.contains': """
def contains(obj, key):
    return key in obj
""",
    'operator.eq': """
def eq(a, b):
    return a == b
""",
    'operator.ne': """
def ne(a, b):
    return a != b
""",
    'operator.is_': """
def is_(a, b):
    return a is b
""",
    'operator.not_': """
def not_(a):
    return not a
""",
    'operator.truth': """
def truth(a):
    return bool(a)
""",
    'any': """
def any(iterable):
    for element in iterable:
        if element:
            return True
    return False
""",
    'all': """
def all(iterable):
    for element in iterable:
        if not element:
            return False
    return True
""",
    'in': """
def contains(iterable, value):
    for element in iterable:
        if element is value or element == value:
            return True
    return False
""",
    'sum': """
def sum(iterable, start=0):
    for element in iterable:
        start = start + element
    return start
""",
    'operator.add': """
def add(a, b):
    return a + b
""",
}


class Ops(object):

    # ======================================================================
    # expressions
    # ======================================================================

    def ev(self, node, st, ctx):
        self.tick()
        m = getattr(self, 'ev_' + type(node).__name__, None)
        if m is None:
            return self.ok(st, self.unknown(st, 'expression %s' %
                                            type(node).__name__))
        return m(node, st, ctx)

    def unknown(self, st, why):
        return mk('top', why)

    def seq_ev(self, nodes, st, ctx):
        """Evaluate expressions in order -> [Res(st, ok, [vals])]"""
        outs = [I.Res(st, True, ())]
        for n in nodes:
            nxt = []
            for r in outs:
                if not r.ok:
                    nxt.append(r)
                    continue
                for x in self.ev(n, r.st, ctx):
                    if x.ok:
                        nxt.append(I.Res(x.st, True, r.val + (x.val,)))
                    else:
                        nxt.append(x)
            outs = nxt
        return [I.Res(r.st, r.ok, list(r.val) if r.ok else r.val)
                for r in outs]

    def ev_Constant(self, node, st, ctx):
        return self.ok(st, const(node.value)
                       if node.value is not Ellipsis else mk('top', '...'))

    # -- names -----------------------------------------------------------------

    def ev_Name(self, node, st, ctx):
        return self.lookup(node.id, st, ctx, node)

    def lookup(self, name, st, ctx, node=None):
        fn = self.fns[ctx.fn] if ctx.fn is not None else None
        if fn is None or name not in fn.globals:
            f = ctx.frame
            while f is not None:
                vs, parent = st.frames.get(f, ({}, None))
                if name in vs:
                    return self.ok(st, vs[name])
                f = parent
            if fn is not None and name in fn.locals:
                return self.raise_new(st, 'UnboundLocalError', (const(name),),
                                      app('unbound', const(fn.qual),
                                          const(name)))
        if ctx.scope is not None and ctx.frame is None:
            q, i = ctx.scope
            ci = self.cinfo(q)
            for j in range(i - 1, -1, -1):
                if ci.entries[j][0] == name:
                    return self.ok(st, self.entry_value(q, j))
        g = st.cells.get((mk('mod', ctx.mod), name))
        if g is not None:
            if g is I.DELETED:
                return self.raise_new(st, 'NameError', (const(name),))
            return self.ok(st, g)
        v = self.glob_value(ctx.mod, name)
        if v is not None:
            return self.ok(st, v)
        if hasattr(builtins, name) or name in ('unicode', 'basestring',
                                               'long'):
            if name in ('True', 'False', 'None'):
                return self.ok(st, const(getattr(builtins, name)))
            return self.ok(st, bi(name))
        if name in ('__name__',):
            return self.ok(st, const(ctx.mod))
        return self.raise_new(st, 'NameError', (const(name),),
                              app('unbound', const(ctx.mod), const(name)))

    def assign_name(self, name, val, st, ctx):
        """Returns new state."""
        st = st.copy()
        fn = self.fns[ctx.fn] if ctx.fn is not None else None
        if ctx.frame is None or (fn is not None and name in fn.globals):
            st.cells[(mk('mod', ctx.mod), name)] = val
            st.add(I.Ev('setglobal', mk('mod', ctx.mod), (const(name), val),
                        (), NONE, self.where(None, ctx)))
            return st
        if fn is not None and name in fn.nonlocals:
            f = st.frames[ctx.frame][1]
            while f is not None:
                if name in st.frames[f][0]:
                    st.setvar(f, name, val)
                    return st
                f = st.frames[f][1]
        st.setvar(ctx.frame, name, val)
        return st

    def ev_NamedExpr(self, node, st, ctx):
        def fin(s, v):
            f = ctx.frame
            while f in self.comp_frames:
                f = s.frames[f][1]
            s = s.copy()
            if f is None:
                return self.ok(s, v)
            s.setvar(f, node.target.id, v)
            return self.ok(s, v)
        return self.then(self.ev(node.value, st, ctx), fin)

    comp_frames = set()

    # -- attribute, subscript -----------------------------------------------

    def ev_Attribute(self, node, st, ctx):
        return self.then(self.ev(node.value, st, ctx),
                         lambda s, o: self.load(s, o, self.mangle(
                             node.attr, ctx), node, ctx))

    def mangle(self, name, ctx):
        return name

    def ev_Subscript(self, node, st, ctx):
        def fin(s, vals):
            return self.getitem(s, vals[0], vals[1], node, ctx)
        if isinstance(node.slice, ast.Slice):
            sl = node.slice
            parts = [x if x is not None else ast.Constant(None)
                     for x in (sl.lower, sl.upper, sl.step)]
            return self.then_list(
                self.seq_ev([node.value] + parts, st, ctx),
                lambda s, v: self.getslice(s, v[0], v[1], v[2], v[3], node,
                                           ctx))
        return self.then_list(self.seq_ev([node.value, node.slice], st, ctx),
                              fin)

    def ev_Slice(self, node, st, ctx):
        parts = [x if x is not None else ast.Constant(None)
                 for x in (node.lower, node.upper, node.step)]
        return self.then_list(self.seq_ev(parts, st, ctx),
                              lambda s, v: self.ok(s, app('sliceobj', *v)))

    def segs_of(self, st, v):
        """Segments of a materialised sequence value or None."""
        if v.tag == 'tup':
            return tuple(('item', x) for x in v.a)
        if v.tag == 'seq':
            return v.a[1]
        if v in st.lists:
            return st.lists[v]
        return None

    def getslice(self, st, o, lo, hi, step, node, ctx):
        if step is not NONE and step is not const(1):
            if step is const(-1) and lo is NONE and hi is NONE:
                segs = self.segs_of(st, o)
                if segs is None and self.kind(st, o) in ('list', 'tuple',
                                                         'any'):
                    segs = (self.many(self.keys_src(st, o)),)
                if segs is not None:
                    st = st.copy()
                    l = self.alloc(st, 'list')
                    st.lists[l] = rev_segs(segs)
                    return self.ok(st, l)
            return self.ok(st, app('slice', o, lo, hi, step))
        if o.tag == 'const' and all(x.tag == 'const' for x in (lo, hi)):
            try:
                return self.ok(st, const(cval(o)[cval(lo):cval(hi)]))
            except Exception:
                return self.ok(st, mk('top', 'slice'))
        segs = self.segs_of(st, o)
        if segs is not None:
            if lo in (NONE, const(0)) and hi is NONE:
                pass
            elif all(s[0] == 'item' for s in segs) and \
                    all(x.tag == 'const' for x in (lo, hi)):
                segs = tuple(segs[cval(lo):cval(hi)])
            else:
                return self.ok(st, app('slice', self.freeze(st, o), lo, hi))
            if o.tag == 'tup':
                return self.ok(st, tup(*[s[1] for s in segs])
                               if all(s[0] == 'item' for s in segs)
                               else mk('seq', 'tuple', segs))
            st = st.copy()
            l = self.alloc(st, 'list')
            st.lists[l] = segs
            return self.ok(st, l)
        if lo in (NONE, const(0)) and hi is NONE and \
                self.kind(st, o) == 'list':
            return self.call_bi(st, 'list', [o], {}, node, ctx)
        return self.ok(st, self.slice_text(st, o, lo, hi))

    def text_len(self, st, v):
        """Length as linear term."""
        if v.tag == 'const' and v.a[0] in ('str', 'bytes'):
            return const(len(cval(v)))
        if is_app(v, 'cat'):
            terms, c = [], 0
            for p in v.a[1:]:
                l = self.linear(self.text_len(st, p))
                terms += list(l[0])
                c += l[1]
            return self.num(terms, c)
        if is_app(v, 'after'):
            a, b = self.linear(self.text_len(st, v.a[1])), \
                self.linear(self.text_len(st, v.a[2]))
            return self.num(list(a[0]) + [(t, -k) for t, k in b[0]],
                            a[1] - b[1])
        if is_app(v, 'before'):
            a, b = self.linear(self.text_len(st, v.a[1])), \
                self.linear(self.text_len(st, v.a[2]))
            return self.num(list(a[0]) + [(t, -k) for t, k in b[0]],
                            a[1] - b[1])
        return app('len', v)

    def slice_text(self, st, o, lo, hi):
        """Slice algebra of texts."""
        if is_const(hi, 'int') and cval(hi) == 0 or \
                (hi.tag == 'const' and hi is not NONE and
                 hi.a[0] == 'int' and cval(hi) == 0):
            return const('')
        total = self.text_len(st, o)
        # s[:-n] and s[:len(s) - n]
        if hi is not NONE:
            lin = self.linear(hi)
            n = None
            if lin is not None:
                d = self.linear(total)
                neg = self.num([(t, -k) for t, k in lin[0]], -lin[1])
                diff = self.num(list(d[0]) + [(t, -k) for t, k in lin[0]],
                                d[1] - lin[1])
                if diff is const(0):
                    hi = NONE
                elif lin[0] and all(k < 0 for t, k in lin[0]) or \
                        (not lin[0] and lin[1] < 0):
                    # s[:-0] is empty, which a plain suffix cut gets wrong
                    if neg.tag == 'const' or self.nonempty_len(st, neg):
                        n = neg
                elif not mentions(diff, app('len', o)):
                    n = diff
            if n is not None and lo in (NONE, const(0)):
                r = self.cut_tail(st, o, n)
                if r is not None:
                    return r
        if hi is NONE:
            if lo in (NONE, const(0)):
                return o
            if lo.tag != 'const' or (lo.a[0] == 'int' and cval(lo) > 0):
                r = self.cut_head(st, o, lo)
                if r is not None:
                    return r
        return app('slice', o, lo, hi)

    def nonempty_len(self, st, n):
        if is_app(n, 'len'):
            return self.decide_truth(st, n.a[1]) is True
        return False

    def cut_head(self, st, o, n):
        parts = self.strip_parts(o)
        acc = const(0)
        for i in range(len(parts) + 1):
            if acc is n:
                return self.cat(parts[i:])
            if i < len(parts):
                a, b = self.linear(acc), self.linear(
                    self.text_len(st, parts[i]))
                acc = self.num(list(a[0]) + list(b[0]), a[1] + b[1])
        for (p, val) in st.facts.items():
            if val and is_app(p, 'startswith') and p.a[1] is o and \
                    self.text_len(st, p.a[2]) is n:
                return app('after', o, p.a[2])
        return None

    def cut_tail(self, st, o, n):
        parts = self.strip_parts(o)
        acc = const(0)
        for i in range(len(parts), -1, -1):
            if acc is n:
                return self.cat(parts[:i])
            if i > 0:
                a, b = self.linear(acc), self.linear(
                    self.text_len(st, parts[i - 1]))
                acc = self.num(list(a[0]) + list(b[0]), a[1] + b[1])
        for (p, val) in st.facts.items():
            if val and is_app(p, 'endswith') and p.a[1] is o and \
                    self.text_len(st, p.a[2]) is n:
                return app('before', o, p.a[2])
        return None

    def cat(self, parts):
        out = []
        for p in parts:
            for q in self.strip_parts(p):
                if is_const(q) and q.a[0] in ('str', 'bytes') and not cval(q):
                    continue
                if out and is_const(q) and is_const(out[-1]) and \
                        q.a[0] == out[-1].a[0]:
                    out[-1] = const(cval(out[-1]) + cval(q))
                    continue
                # prefix + rest after prefix is the text itself
                if is_app(q, 'after'):
                    pre = self.strip_parts(q.a[2])
                    if out[-len(pre):] == pre:
                        out[-len(pre):] = [q.a[1]]
                        continue
                out.append(q)
                for i in range(len(out)):
                    if is_app(out[i], 'before'):
                        suf = self.strip_parts(out[i].a[2])
                        if out[i + 1:] == suf:
                            out[i:] = [out[i].a[1]]
                            break
        if not out:
            return const('')
        if len(out) == 1:
            return out[0]
        return app('cat', *out)

    # -- operators -------------------------------------------------------------

    def ev_Tuple(self, node, st, ctx):
        return self.ev_seq(node, st, ctx, 'tuple')

    def ev_List(self, node, st, ctx):
        return self.ev_seq(node, st, ctx, 'list')

    def ev_Set(self, node, st, ctx):
        return self.ev_seq(node, st, ctx, 'set')

    def ev_seq(self, node, st, ctx, kind):
        outs = [I.Res(st, True, ())]
        for e in node.elts:
            nxt = []
            for r in outs:
                if not r.ok:
                    nxt.append(r)
                    continue
                starred = isinstance(e, ast.Starred)
                for x in self.ev(e.value if starred else e, r.st, ctx):
                    if not x.ok:
                        nxt.append(x)
                    elif starred:
                        for y in self.iterate(x.st, x.val, node, ctx):
                            if y.ok:
                                nxt.append(I.Res(y.st, True, r.val + y.val))
                            else:
                                nxt.append(y)
                    else:
                        nxt.append(I.Res(x.st, True, r.val +
                                         (('item', x.val),)))
            outs = nxt
        res = []
        for r in outs:
            if not r.ok:
                res.append(r)
            elif kind == 'tuple':
                if all(s[0] == 'item' for s in r.val):
                    res.append(I.Res(r.st, True, tup(*[s[1] for s in r.val])))
                else:
                    res.append(I.Res(r.st, True, mk('seq', 'tuple', r.val)))
            else:
                s = r.st.copy()
                l = self.alloc(s, kind)
                s.lists[l] = r.val
                res.append(I.Res(s, True, l))
        return res

    def ev_Dict(self, node, st, ctx):
        s0 = st.copy()
        d = self.alloc(s0, 'dict')
        outs = [I.Res(s0, True, d)]
        for k, v in zip(node.keys, node.values):
            nxt = []
            for r in outs:
                if not r.ok:
                    nxt.append(r)
                    continue
                if k is None:
                    for x in self.ev(v, r.st, ctx):
                        nxt += self.map_update(x.st, d, x.val, node, ctx) \
                            if x.ok else [x]
                else:
                    for x in self.seq_ev([k, v], r.st, ctx):
                        if x.ok:
                            s = x.st.copy()
                            s.maps[d] = s.maps[d] + (('set', x.val[0],
                                                      x.val[1]),)
                            nxt.append(I.Res(s, True, d))
                        else:
                            nxt.append(x)
            outs = nxt
        return [I.Res(r.st, r.ok, d if r.ok else r.val) for r in outs]

    def ev_BoolOp(self, node, st, ctx):
        is_and = isinstance(node.op, ast.And)

        def rest(i):
            def go(s, v):
                if i == len(node.values):
                    return self.ok(s, v)
                out = []
                for s2, t in self.branch(s, v, ctx):
                    if t == is_and:
                        out += self.then(self.ev(node.values[i], s2, ctx),
                                         rest(i + 1))
                    else:
                        if self.kind(s2, v) == 'bool':
                            v2 = boolean(t)
                        else:
                            v2 = v
                        out += self.ok(s2, v2)
                return out
            return go
        return self.then(self.ev(node.values[0], st, ctx), rest(1))

    def ev_UnaryOp(self, node, st, ctx):
        def fin(s, v):
            if isinstance(node.op, ast.Not):
                d = self.decide_truth(s, v)
                if d is not None:
                    return self.ok(s, boolean(not d))
                view = self.view_of(s, v)
                if view is not None and v.tag == 'glob':
                    return [I.Res(s2, True, boolean(not t))
                            for s2, t in self.branch(s, v, ctx)]
                if v.tag in ('ref', 'seq'):
                    return [I.Res(s2, True, boolean(not t))
                            for s2, t in self.branch(s, v, ctx)]
                return self.ok(s, app('not', v))
            if isinstance(node.op, ast.USub):
                if v.tag == 'const' and v.a[0] in ('int', 'float', 'bool'):
                    return self.ok(s, const(-cval(v)))
                l = self.linear(v)
                return self.ok(s, self.num([(t, -k) for t, k in l[0]], -l[1]))
            return self.ok(s, app('unary', const(type(node.op).__name__), v))
        return self.then(self.ev(node.operand, st, ctx), fin)

    def ev_IfExp(self, node, st, ctx):
        def fin(s, v):
            out = []
            for s2, t in self.branch(s, v, ctx):
                out += self.ev(node.body if t else node.orelse, s2, ctx)
            return out
        return self.then(self.ev(node.test, st, ctx), fin)

    def ev_Compare(self, node, st, ctx):
        def go(i, left):
            def fin(s, right):
                def after(s2, res):
                    if i + 1 == len(node.ops):
                        return self.ok(s2, res)
                    out = []
                    for s3, t in self.branch(s2, res, ctx):
                        if t:
                            out += self.then(self.ev(
                                node.comparators[i + 1], s3, ctx),
                                go(i + 1, right))
                        else:
                            out += self.ok(s3, FALSE)
                    return out
                return self.then(self.compare(s, node.ops[i], left, right,
                                              node, ctx), after)
            return fin
        return self.then(self.ev(node.left, st, ctx), lambda s, l: self.then(
            self.ev(node.comparators[0], s, ctx), go(0, l)))

    def pred_value(self, st, p):
        d = self.decide(st, p)
        return boolean(d) if d is not None else p

    def neg(self, v):
        if v.tag == 'const':
            return boolean(not cval(v))
        if is_app(v, 'not'):
            return v.a[1]
        return app('not', v)

    def compare(self, st, op, a, b, node, ctx):
        t = type(op).__name__
        if a.tag == 'top' or b.tag == 'top':
            return self.ok(st, app('cmp', const(t), a, b))
        if t in ('Is', 'IsNot'):
            v = self.pred_value(st, self.pred2('is', a, b))
            return self.ok(st, v if t == 'Is' else self.neg(v))
        if t in ('Eq', 'NotEq'):
            fa, fb = self.freeze(st, a), self.freeze(st, b)
            v = self.eq_value(st, fa, fb)
            return self.ok(st, v if t == 'Eq' else self.neg(v))
        if t in ('In', 'NotIn'):
            rs = self.contains(st, b, a, node, ctx)
            if t == 'In':
                return rs
            return self.then(rs, lambda s, v: self.ok(s, self.neg(v)))
        if t in ('Lt', 'LtE', 'Gt', 'GtE'):
            if t.startswith('Gt'):
                a, b = b, a
            if self.kind(st, a) == 'set' or self.kind(st, b) == 'set':
                fa, fb = self.freeze(st, a), self.freeze(st, b)
                return self.ok(st, app('subset', fa, fb,
                                       boolean(t.endswith('E'))))
            p = app('le' if t.endswith('E') else 'lt', a, b)
            # number of elements against zero
            q = self.len_cmp(st, t.endswith('E'), a, b)
            if q is not None:
                return self.ok(st, q)
            return self.ok(st, self.pred_value(st, p))
        return self.ok(st, mk('top', 'comparison'))

    def len_cmp(self, st, le, a, b):
        """len(x) against 0 or 1 is emptiness of x."""
        def length(x):
            return x.a[1] if is_app(x, 'len') else None
        if length(b) is not None and a.tag == 'const':
            c = cval(a)
            if (c == 0 and not le) or (c == 1 and le):
                d = self.decide_truth(st, b.a[1])
                return boolean(d) if d is not None else \
                    app('truthy', b.a[1])
            if c == 0 and le:
                return TRUE
        if length(a) is not None and b.tag == 'const':
            c = cval(b)
            if (c == 0 and le) or (c == 1 and not le):
                d = self.decide_truth(st, a.a[1])
                return boolean(not d) if d is not None else \
                    app('not', app('truthy', a.a[1]))
        return None

    def eq_value(self, st, a, b):
        # type tests by name
        for x, y in ((a, b), (b, a)):
            if is_app(x, 'len') and y.tag == 'const' and cval(y) == 0:
                d = self.decide_truth(st, x.a[1])
                return boolean(not d) if d is not None else \
                    app('not', app('truthy', x.a[1]))
        return self.pred_value(st, self.pred2('eq', a, b))

    def freeze(self, st, v):
        """Snapshot of a mutable local container as an immutable term."""
        if v.tag == 'ref' and v in st.lists:
            segs = st.lists[v]
            return mk('seq', v.a[1], segs)
        if v.tag == 'ref' and v in st.maps:
            return mk('seq', 'dict', st.maps[v])
        return v

    def ev_BinOp(self, node, st, ctx):
        return self.then_list(
            self.seq_ev([node.left, node.right], st, ctx),
            lambda s, v: self.binop(s, type(node.op).__name__, v[0], v[1],
                                    node, ctx))

    def binop(self, st, op, a, b, node, ctx):
        ka, kb = self.kind(st, a), self.kind(st, b)
        if a.tag == 'const' and b.tag == 'const' and op in (
                'Add', 'Sub', 'Mult', 'Mod', 'FloorDiv'):
            try:
                f = {'Add': lambda x, y: x + y, 'Sub': lambda x, y: x - y,
                     'Mult': lambda x, y: x * y, 'Mod': lambda x, y: x % y,
                     'FloorDiv': lambda x, y: x // y}[op]
                r = f(cval(a), cval(b))
                if not isinstance(r, (str, bytes)) or len(r) < 1000:
                    return self.ok(st, const(r))
            except Exception:
                return self.raise_new(st, 'TypeError')
        if op == 'Mod' and ka in ('str', 'bytes') and is_const(a):
            return self.ok(st, self.percent(st, cval(a), b))
        if op == 'Mult':
            return self.ok(st, app('mult', a, b)
                           if repr(a) <= repr(b) else app('mult', b, a))
        sa, sb = self.segs_of(st, a), self.segs_of(st, b)
        if op == 'Add' and (sa is not None or sb is not None or
                            ka in ('list', 'tuple') or
                            kb in ('list', 'tuple')):
            out = []
            for r in self.iterate(st, a, node, ctx, quiet=True):
                if not r.ok:
                    out.append(r)
                    continue
                for r2 in self.iterate(r.st, b, node, ctx, quiet=True):
                    if not r2.ok:
                        out.append(r2)
                        continue
                    segs = r.val + r2.val
                    if a.tag == 'tup' or b.tag == 'tup':
                        if all(s[0] == 'item' for s in segs):
                            out += self.ok(r2.st, tup(*[s[1] for s in segs]))
                        else:
                            out += self.ok(r2.st, mk('seq', 'tuple', segs))
                    else:
                        s = r2.st.copy()
                        l = self.alloc(s, 'list')
                        s.lists[l] = segs
                        out += self.ok(s, l)
            return out
        if op in ('Add', 'Sub') and ka in ('int', 'bool', 'any', 'int?') and \
                kb in ('int', 'bool', 'any', 'int?') and \
                (ka in ('int', 'int?') or kb in ('int', 'int?') or
                 op == 'Sub'):
            la, lb = self.linear(a), self.linear(b)
            sgn = 1 if op == 'Add' else -1
            return self.ok(st, self.num(
                list(la[0]) + [(t, sgn * k) for t, k in lb[0]],
                la[1] + sgn * lb[1]))
        if op == 'Add':
            return self.ok(st, self.cat([a, b]))
        if op in ('BitAnd', 'BitOr', 'BitXor', 'Sub') and \
                (ka == 'set' or kb == 'set' or any(
                    x.tag == 'seq' and x.a[0] == 'view' for x in (a, b))):
            m = {'BitAnd': 'intersection', 'BitOr': 'union',
                 'BitXor': 'symmetric_difference', 'Sub': 'difference'}[op]
            return self.set_method(st, a, m, [b], {}, node, ctx)
        if op in ('BitAnd',):
            return self.ok(st, app('inter', *self.two(a, b)))
        return self.ok(st, app('binop', const(op), a, b))

    def two(self, a, b):
        return (a, b) if repr(a) <= repr(b) else (b, a)

    def to_text(self, st, v):
        if self.kind(st, v) == 'str':
            return v
        if v.tag == 'const' and v.a[0] in ('int', 'NoneType', 'bool'):
            return const(str(cval(v)))
        if is_app(v, 'attr') and is_const(v.a[2], 'str') and (
                cval(v.a[2]) in ('__module__', '__qualname__') or
                cval(v.a[2]) == '__name__' and (
                    is_app(v.a[1], 'type') or is_app(v.a[1], 'attr') and
                    v.a[1].a[2] is const('__class__') or any(
                        st.facts.get(app(k, v.a[1])) is True for k in (
                            'isclass', 'isfunction', 'ismethod')))):
            return v
        return app('str', v)

    def percent(self, st, fmt, arg):
        args = list(arg.a) if arg.tag == 'tup' else [arg]
        if arg.tag != 'tup' and self.kind(st, arg) in (None, 'any'):
            # tuples are taken apart
            self.__dict__.setdefault('percented', set()).add(arg)
        parts = []
        i = 0
        buf = ''
        n = 0
        while i < len(fmt):
            c = fmt[i] if isinstance(fmt, str) else chr(fmt[i])
            if c == '%' and i + 1 < len(fmt):
                d = fmt[i + 1] if isinstance(fmt, str) else chr(fmt[i + 1])
                if d == '%':
                    buf += '%'
                elif d in 'srd' and n < len(args) and isinstance(fmt, str):
                    parts.append(const(buf))
                    buf = ''
                    parts.append(self.to_text(st, args[n]) if d != 'r'
                                 else app('repr', args[n]))
                    n += 1
                else:
                    return app('fmt', const(fmt), arg)
                i += 2
                continue
            buf += c
            i += 1
        parts.append(const(buf))
        if n != len(args):
            return app('fmt', const(fmt), arg)
        return self.cat(parts)

    def format(self, st, fmt, args, kw):
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            return None
        parts = []
        auto = 0
        for lit, name, spec, conv in fields:
            if lit:
                parts.append(const(lit))
            if name is None:
                continue
            if spec:
                return None
            if name == '':
                name = str(auto)
                auto += 1
            if name.isdigit():
                if int(name) >= len(args):
                    return None
                v = args[int(name)]
            elif name in kw:
                v = kw[name]
            else:
                return None
            if conv == 'r':
                parts.append(app('repr', v))
            else:
                parts.append(self.to_text(st, v))
        return self.cat(parts)

    def ev_JoinedStr(self, node, st, ctx):
        outs = [I.Res(st, True, ())]
        for p in node.values:
            nxt = []
            for r in outs:
                if not r.ok:
                    nxt.append(r)
                    continue
                if isinstance(p, ast.Constant):
                    nxt.append(I.Res(r.st, True, r.val + (const(p.value),)))
                    continue
                for x in self.ev(p.value, r.st, ctx):
                    if not x.ok:
                        nxt.append(x)
                        continue
                    if p.format_spec is not None:
                        v = app('fmt', x.val)
                    elif p.conversion == 114:
                        v = app('repr', x.val)
                    else:
                        v = self.to_text(x.st, x.val)
                    nxt.append(I.Res(x.st, True, r.val + (v,)))
            outs = nxt
        return [I.Res(r.st, r.ok, self.cat(r.val) if r.ok else r.val)
                for r in outs]

    def ev_FormattedValue(self, node, st, ctx):
        return self.ev_JoinedStr(ast.JoinedStr([node]), st, ctx)

    def ev_Lambda(self, node, st, ctx):
        return self.make_fn(node, st, ctx, '%s.<lambda>' % (
            self.fns[ctx.fn].qual if ctx.fn is not None else ctx.mod))

    def ev_Starred(self, node, st, ctx):
        return self.ev(node.value, st, ctx)

    # -- comprehensions ----------------------------------------------------

    def ev_ListComp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'list')

    def ev_SetComp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'set')

    def ev_GeneratorExp(self, node, st, ctx):
        def fin(s, v):
            return self.ok(s, mk('seq', 'gen', s.lists[v]))
        return self.then(self.comp(node, st, ctx, 'list'), fin)

    def ev_DictComp(self, node, st, ctx):
        return self.comp(node, st, ctx, 'dict')

    def comp(self, node, st, ctx, kind):
        st = st.copy()
        acc = self.alloc(st, kind)
        f = self.new_frame(st, ctx.frame)
        if not isinstance(self.comp_frames, set) or \
                self.comp_frames is Ops.comp_frames:
            self.comp_frames = set()
        self.comp_frames.add(f)
        c = ctx.sub(f)

        def inner(i):
            def body(s, cx):
                if i == len(node.generators):
                    return self.comp_add(s, acc, kind, node, c)
                g = node.generators[i]
                out = []
                for r in self.ev(g.iter, s, c if i else
                                 (c if ctx.frame is None else c)):
                    if not r.ok:
                        out.append((r.st, 'exc', r.val))
                        continue
                    for r2 in self.iterate(r.st, r.val, g.iter, c, live=True):
                        if not r2.ok:
                            out.append((r2.st, 'exc', r2.val))
                            continue

                        def one(s3, val):
                            res = []
                            for s4, k4, v4 in self.assign(g.target, val, s3,
                                                          c):
                                if k4 != 'next':
                                    res.append((s4, k4, v4))
                                    continue
                                res += self.conds(g.ifs, s4, c, inner(i + 1))
                            return res
                        out += self.loop_segs(r2.st, r2.val, one, c, g.iter,
                                              self.live_of(r.val))
                return out
            return body
        outs = inner(0)(st, c)
        res = []
        for s, k, v in outs:
            if k == 'exc':
                res.append(I.Res(s, False, v))
            else:
                res.append(I.Res(s, True, acc))
        return res

    def conds(self, ifs, st, ctx, cont):
        if not ifs:
            return cont(st, ctx)
        out = []
        for r in self.ev(ifs[0], st, ctx):
            if not r.ok:
                out.append((r.st, 'exc', r.val))
                continue
            for s, t in self.branch(r.st, r.val, ctx):
                if t:
                    out += self.conds(ifs[1:], s, ctx, cont)
                else:
                    out.append((s, 'next', NONE))
        return out

    def comp_add(self, st, acc, kind, node, ctx):
        out = []
        if kind == 'dict':
            for r in self.seq_ev([node.key, node.value], st, ctx):
                if not r.ok:
                    out.append((r.st, 'exc', r.val))
                    continue
                s = r.st.copy()
                s.maps[acc] = s.maps[acc] + (('set', r.val[0], r.val[1]),)
                out.append((s, 'next', NONE))
            return out
        for r in self.ev(node.elt, st, ctx):
            if not r.ok:
                out.append((r.st, 'exc', r.val))
                continue
            s = r.st.copy()
            s.lists[acc] = s.lists[acc] + (('item', r.val),)
            out.append((s, 'next', NONE))
        return out

    # -- yield -----------------------------------------------------------------

    def ev_Yield(self, node, st, ctx):
        rs = self.ev(node.value, st, ctx) if node.value is not None else \
            self.ok(st, NONE)

        def fin(s, v):
            if ctx.ycb is not None:
                return ctx.ycb(s, v)
            s = s.copy()
            s.lists[ctx.ylist] = s.lists[ctx.ylist] + (('item', v),)
            return self.ok(s, NONE)
        return self.then(rs, fin)

    def ev_YieldFrom(self, node, st, ctx):
        def fin(s, v):
            out = []
            for r in self.iterate(s, v, node, ctx):
                if not r.ok:
                    out.append(r)
                    continue
                s2 = r.st.copy()
                s2.lists[ctx.ylist] = s2.lists[ctx.ylist] + r.val
                out += self.ok(s2, NONE)
            return out
        return self.then(self.ev(node.value, st, ctx), fin)

    # -- calls -----------------------------------------------------------------

    def ev_Call(self, node, st, ctx):
        # zero argument super
        if isinstance(node.func, ast.Name) and node.func.id == 'super' and \
                not node.args and ctx.fn is not None:
            fd = self.fns[ctx.fn]
            a = fd.node.args
            first = (a.posonlyargs + a.args)
            if first:
                for r in self.lookup(first[0].arg, st, ctx):
                    c = mk('cls', ctx.cls) if ctx.cls else mk('top', 'super')
                    return self.ok(r.st, app('super', c, r.val))
        out = []
        for r in self.ev(node.func, st, ctx):
            if not r.ok:
                out.append(r)
                continue
            for r2 in self.ev_args(node, r.st, ctx):
                if not r2.ok:
                    out.append(r2)
                    continue
                args, kw = r2.val
                if r.val.tag == 'top':
                    s = r2.st.copy()
                    out += self.ok(s, mk('top', 'call of unknown'))
                    continue
                out += self.call(r2.st, r.val, args, kw, node, ctx)
        if len(out) > self.MAX_STATES:
            raise I.Limit('state limit')
        return out

    def ev_args(self, node, st, ctx):
        """[Res(st, ok, (args list, kw dict))]"""
        outs = [I.Res(st, True, ((), (), None, None))]
        for a in node.args:
            nxt = []
            for r in outs:
                if not r.ok:
                    nxt.append(r)
                    continue
                args, kw, star, dstar = r.val
                if isinstance(a, ast.Starred):
                    for x in self.ev(a.value, r.st, ctx):
                        if not x.ok:
                            nxt.append(x)
                            continue
                        for y in self.iterate(x.st, x.val, node, ctx,
                                              quiet=True):
                            if not y.ok:
                                nxt.append(y)
                                continue
                            segs = y.val
                            cur, st2 = args, star
                            for s in segs:
                                if s[0] == 'item' and st2 is None:
                                    cur = cur + (s[1],)
                                else:
                                    st2 = (st2 or ()) + (s,)
                            nxt.append(I.Res(y.st, True, (cur, kw, st2,
                                                          dstar)))
                else:
                    for x in self.ev(a, r.st, ctx):
                        if not x.ok:
                            nxt.append(x)
                        elif star is not None:
                            nxt.append(I.Res(x.st, True, (
                                args, kw, star + (('item', x.val),), dstar)))
                        else:
                            nxt.append(I.Res(x.st, True, (args + (x.val,), kw,
                                                          star, dstar)))
            outs = nxt
        for k in node.keywords:
            nxt = []
            for r in outs:
                if not r.ok:
                    nxt.append(r)
                    continue
                args, kw, star, dstar = r.val
                for x in self.ev(k.value, r.st, ctx):
                    if not x.ok:
                        nxt.append(x)
                    elif k.arg is None:
                        v = x.val
                        log = x.st.maps.get(v) if v.tag == 'ref' else None
                        if log is not None and all(
                                o[0] in ('set', 'del') and
                                is_const(o[1], 'str') for o in log):
                            # final content
                            fin = {}
                            for o in log:
                                if o[0] == 'set':
                                    fin[o[1]] = o
                                else:
                                    fin.pop(o[1], None)
                            log = tuple(fin.values())
                        if log is not None and all(
                                o[0] == 'set' and is_const(o[1], 'str')
                                for o in log):
                            kk = dict(kw)
                            for o in log:
                                kk[cval(o[1])] = o[2]
                            nxt.append(I.Res(x.st, True, (
                                args, tuple(kk.items()), star, dstar)))
                        elif log is not None and log and \
                                log[0][0] == 'update' and all(
                                o[0] == 'set' and is_const(o[1], 'str')
                                for o in log[1:]):
                            kk = dict(kw)
                            for o in log[1:]:
                                kk[cval(o[1])] = o[2]
                            nxt.append(I.Res(x.st, True, (
                                args, tuple(kk.items()), star, log[0][1])))
                        else:
                            nxt.append(I.Res(x.st, True, (args, kw, star, v)))
                    else:
                        nxt.append(I.Res(x.st, True, (
                            args, kw + ((k.arg, x.val),), star, dstar)))
            outs = nxt
        res = []
        for r in outs:
            if not r.ok:
                res.append(r)
                continue
            args, kw, star, dstar = r.val
            d = dict(kw)
            if star is not None:
                d['*'] = star
            if dstar is not None:
                d['**'] = dstar
            res.append(I.Res(r.st, True, (list(args), d)))
        return res

    # ======================================================================
    # iteration
    # ======================================================================

    def live_of(self, v):
        """Object whose live state an iteration over v observes, or None."""
        if v.tag == 'seq':
            return v.a[2] if len(v.a) > 2 else None
        if v.tag in ('tup',):
            return None
        return v

    def many(self, src, elem_val=None, elem=None):
        e = elem or app('elem', src)
        return ('many', src, e, frozenset([((), (('item', elem_val or e),))]))

    def keys_src(self, st, o):
        """Source token of the keys of mapping o."""
        k = self.kind(st, o).rstrip('?')
        n = st.epochs.get(o, 0)
        if n:
            return app('keys', o, const(n))
        return app('keys', o)

    def values_only(self, seg):
        """Are the items of a 'many' segment values of a mapping, which may
        repeat?"""
        return seg[0] == 'many' and any(
            is_app(x[1], 'item') and x[1].a[2] is seg[2]
            for g, items in seg[3] for x in items if x[0] == 'item')

    def iterate(self, st, v, node, ctx, live=False, quiet=False):
        """[Res(st, ok, segs)] - the elements of v in order."""
        segs = self.segs_of(st, v)
        if segs is not None and v.tag == 'seq' and st.facts.get(
                app('consumed', v)):
            return [I.Res(st, True, (('unknown', next(self.ids)),))]
        if segs is not None and not (v.tag == 'seq' and v.a[0] == 'dict'):
            if (v in st.lists and v.a[1] == 'set' or
                    v.tag == 'seq' and v.a[0] == 'set') and not (
                        len(segs) <= 1 and all(x[0] == 'item'
                                               for x in segs)):
                # neither order nor repetitions survive
                segs = (('unordered', tuple(segs)),)
            return [I.Res(st, True, segs)]
        if v.tag == 'top':
            return [I.Res(st, True, (self.many(v),))]
        if v.tag == 'const':
            if v.a[0] in ('str', 'bytes'):
                return [I.Res(st, True, tuple(('item', const(x))
                                              for x in cval(v)))]
            return self.raise_new(st, 'TypeError', (const('not iterable'),))
        if is_app(v, 'iterator'):
            return self.iterate(st, v.a[1], node, ctx)
        k = self.kind(st, v).rstrip('?')
        if k == 'dict' or self.is_map(st, v):
            return [I.Res(st, True, self.map_keys(st, v))]
        view = self.view_of(st, v)
        if view is not None and '__iter__' in view.members and \
                '__iter__' not in view.opaque:
            out = []
            m = view.members['__iter__']
            for r in self.call(st, m, [v], {}, node, ctx):
                out += self.iterate(r.st, r.val, node, ctx) if r.ok else [r]
            return out
        return self.proto_iter(st, v, node, ctx, quiet)

    def is_map(self, st, v):
        """Is v a mapping modelled by an operation log?"""
        if v in st.maps:
            return True
        k = self.kind(st, v)
        if k in ('dict', 'dict?'):
            return True
        if v.tag in ('ref', 'glob'):
            view = self.view_of(st, v)
            if view is not None and self.base_kind(view) == 'dict':
                return True
        return False

    def proto_iter(self, st, v, node, ctx, quiet=False):
        src = self.keys_src(st, v)
        out = [I.Res(st, True, (self.many(src),))]
        if self.in_try() and not quiet and v.tag != 'seq' and \
                self.kind(st, v) not in ('list', 'tuple', 'set', 'iter'):
            s2 = st.copy()
            e = mk('exc', '', (), app('raised', app('iter', v), src))
            s2.add(I.Ev('raise', app('iter', v), (e,), (), e,
                        self.where(node, ctx)))
            out.append(I.Res(s2, False, e))
        return out

    # ======================================================================
    # mappings with an operation log
    # ======================================================================

    def map_log(self, st, d):
        log = st.maps.get(d)
        if log is None:
            log = ()
            if d.tag == 'ref' and not (len(d.a) > 1 and d.a[1] == 'dict'):
                # instance of a dict subclass: empty unless filled by init
                log = ()
            if d.tag == 'glob':
                log = (('base',),)
        return log

    def map_fresh(self, st, d):
        """Is the content before the log known to be empty?"""
        return d.tag == 'ref'

    def map_keys(self, st, d):
        log = self.map_log(st, d)
        if d.tag == 'seq' and d.a[0] == 'dict':
            log, fresh = d.a[1], True
        else:
            fresh = self.map_fresh(st, d)
        if not log and fresh:
            return ()
        if fresh and all(o[0] == 'set' for o in log):
            ks = []
            ok = True
            for o in log:
                for x in ks:
                    e = self.d_eq(st, x, o[1])
                    if e is True:
                        break
                    if e is None:
                        ok = False
                else:
                    ks.append(o[1])
            if ok:
                return tuple(('item', k) for k in ks)
        if fresh and len(log) == 1 and log[0][0] == 'loop':
            src, elem, alts = log[0][1:4]
            good = True
            na = set()
            for guards, ops in alts:
                if any(o[0] != 'set' for o in ops):
                    good = False
                na.add((guards, tuple(('item', o[1]) for o in ops)))
            if good:
                seg = ('many', src, elem, frozenset(na))
                if self.values_only(seg):
                    # equal values share a key
                    seg = ('unordered', (seg,))
                return (seg,)
        if fresh and len(log) == 1 and log[0][0] == 'update' and \
                log[0][1].tag != 'ref':
            return (self.many(self.keys_src(st, log[0][1])),)
        n = len(log)
        src = app('keys', d) if not n or (d.tag == 'glob' and n == 1) else \
            app('keys', d, mk('log', log))
        return (self.many(src),)

    def map_find(self, st, d, k, ctx, node):
        """[(st, status, val)], status in 'hit', 'miss', 'unknown'."""
        log = self.map_log(st, d)
        fresh = self.map_fresh(st, d)
        out = []
        states = [st]
        for o in reversed(log):
            nxt = []
            for s in states:
                if o[0] in ('set', 'del'):
                    p = self.pred2('eq', k, o[1])
                    for s2, t in self.split(s, p):
                        if t:
                            if o[0] == 'set':
                                out.append((s2, 'hit', o[2]))
                            else:
                                out.append((s2, 'miss', NONE))
                        else:
                            nxt.append(s2)
                elif o[0] == 'clear':
                    out.append((s, 'miss', NONE))
                elif o[0] == 'update':
                    src = o[1]
                    if src.tag == 'seq' and src.a[0] != 'dict':
                        out.append((s, 'unknown', mk('top', 'update')))
                        continue
                    p = app('in', k, self.freeze(s, src))
                    for s2, t in self.split(s, p):
                        if t:
                            out.append((s2, 'hit', app('item', self.freeze(
                                s2, src), k)))
                        else:
                            nxt.append(s2)
                elif o[0] == 'base':
                    nxt.append(s)
                else:
                    r = self.loop_find(s, o, k)
                    if r is None:
                        out.append((s, 'unknown', mk('top', 'map')))
                    else:
                        for s2, status, val in r:
                            if status == 'next':
                                nxt.append(s2)
                            else:
                                out.append((s2, status, val))
            states = nxt
        for s in states:
            if fresh:
                out.append((s, 'miss', NONE))
                continue
            p = app('in', k, d)
            for s2, t in self.split(s, p):
                if t:
                    out.append((s2, 'hit', app('item', d, k)))
                else:
                    out.append((s2, 'miss', NONE))
        return out

    def loop_find(self, st, o, k):
        """Effect of a loop of writes on key k."""
        if o[0] == 'acc':
            # writes of earlier iterations; keys made from distinct elements
            # of one iteration are taken as distinct
            if o[2] is not None and mentions(k, o[2]) and not any(
                    is_app(x, 'unpack') and mentions(x, o[2])
                    for x in subterms(k)):
                return [(st, 'next', NONE)]
            mid = app('midloop', const(o[1]))
            out = []
            for s2, t in self.split(st, app('in', k, mid)):
                if t:
                    out.append((s2, 'hit', app('item', mid, k)))
                else:
                    out.append((s2, 'next', NONE))
            return out
        if len(o) < 4:
            return None
        src, elem, alts = o[1], o[2], o[3]
        if len(alts) != 1:
            return None
        guards, ops = next(iter(alts))
        if guards or len(ops) != 1:
            return None
        op = ops[0]
        if op[0] not in ('set', 'del') or op[1] is not elem:
            return None
        if not is_app(src, 'keys') or len(src.a) != 2:
            return None
        out = []
        for s2, t in self.split(st, app('in', k, src.a[1])):
            if t:
                if op[0] == 'set':
                    out.append((s2, 'hit', subst(op[2], {elem: k})))
                else:
                    out.append((s2, 'miss', NONE))
            else:
                out.append((s2, 'next', NONE))
        return out

    def map_get(self, st, d, k, node, ctx, missing=None):
        """Read d[k]; missing(st) gives the results for an absent key."""
        out = []
        if is_app(d, 'instdict'):
            for s, t, v in self.inst_find(st, d.a[1], k):
                if t:
                    out += self.ok(s, v)
                elif missing is None:
                    out += self.raise_new(s, 'KeyError', (k,),
                                          app('nokey', d, k))
                else:
                    out += missing(s)
            return out
        for s, status, val in self.map_find(st, d, k, ctx, node):
            if status == 'miss':
                if missing is None:
                    out += self.raise_new(s, 'KeyError', (k,),
                                          app('nokey', d, k))
                else:
                    out += missing(s)
            else:
                out += self.ok(s, val)
        return out

    def inst_find(self, st, o, k):
        """Attributes of the object itself: [(state, present, value)]."""
        n = cval(k) if is_const(k, 'str') else k
        v = st.cells.get((o, n))
        if v is I.DELETED:
            return [(st, False, NONE)]
        if v is not None:
            return [(st, True, v)]
        p = app('hasattr', o, k)
        view = self.view_of(st, o)
        if is_const(k, 'str') and (view is None or n in view.members):
            # may be found on the class
            p = app('in', k, app('instdict', o))
        return [(s, t, app('attr', o, k)) for s, t in self.split(st, p)]

    def map_set(self, st, d, k, v, node, ctx):
        if is_app(d, 'instdict'):
            # the attributes of an object
            if is_const(k, 'str'):
                return self.raw_store(st, d.a[1], cval(k), v, node, ctx)
            return self.store_dyn(st, d.a[1], k, v, node, ctx)
        st = st.copy()
        st.maps[d] = self.map_log(st, d) + (('set', k, v),)
        st.epochs[d] = st.epochs.get(d, 0)
        st.facts.pop(app('truthy', d), None)
        now = ()
        if v.tag == 'ref' and v in st.lists and self.kind(st, v) == 'list':
            # what the list contains now, for lists made within of loops
            now = (('now', mk('seq', 'list', tuple(st.lists[v]))), )
        st.add(I.Ev('mset', d, (k, v), now, NONE, self.where(node, ctx)))
        return self.ok(st, NONE)

    def map_del(self, st, d, k, node, ctx, missing=None):
        out = []
        for s, status, val in self.map_find(st, d, k, ctx, node):
            if status == 'miss':
                if missing is None:
                    out += self.raise_new(s, 'KeyError', (k,),
                                          app('nokey', d, k))
                else:
                    out += missing(s)
                continue
            s = s.copy()
            s.maps[d] = self.map_log(s, d) + (('del', k),)
            s.facts.pop(app('truthy', d), None)
            s.add(I.Ev('mdel', d, (k,), (), val, self.where(node, ctx)))
            out += self.ok(s, val)
        return out

    def map_update(self, st, d, src, node, ctx):
        """d.update(src)"""
        if src.tag == 'seq' and src.a[0] == 'dict':
            st = st.copy()
            st.maps[d] = self.map_log(st, d) + src.a[1]
            return self.ok(st, NONE)
        if src.tag == 'ref' and src in st.maps:
            log = st.maps[src]
            if all(o[0] in ('set', 'update') for o in log):
                st = st.copy()
                st.maps[d] = self.map_log(st, d) + log
                for o in log:
                    st.add(I.Ev('mset', d, (o[1], o[2]), (), NONE,
                                self.where(node, ctx)) if o[0] == 'set' else
                           I.Ev('mupdate', d, (o[1],), (), NONE,
                                self.where(node, ctx)))
                return self.ok(st, NONE)
            if self.map_fresh(st, src) and d in st.maps and all(
                    o[0] in ('set', 'update', 'loop') for o in log):
                st = st.copy()
                st.maps[d] = self.map_log(st, d) + log
                st.facts.pop(app('truthy', d), None)
                st.add(I.Ev('mupdate', d, (src,), (), NONE,
                            self.where(node, ctx)))
                return self.ok(st, NONE)
        if src.tag == 'const' and src is NONE:
            return self.raise_new(st, 'TypeError')
        if self.is_map(st, src) or self.segs_of(st, src) is None:
            st = st.copy()
            st.maps[d] = self.map_log(st, d) + (('update', src),)
            st.facts.pop(app('truthy', d), None)
            st.add(I.Ev('mupdate', d, (src,), (), NONE,
                        self.where(node, ctx)))
            return self.ok(st, NONE)
        # sequence of pairs
        segs = self.segs_of(st, src)

        def one(s, val):
            out = []
            for s2, k2, v2 in self.unpack_val(s, val, 2, node, ctx):
                if k2 == 'exc':
                    out.append((s2, 'exc', v2))
                    continue
                for r in self.map_set(s2, d, v2[0], v2[1], node, ctx):
                    out.append((r.st, 'next' if r.ok else 'exc', r.val))
            return out
        return self.outs(self.loop_segs(st, segs, one, ctx, node, None))

    def outs(self, outs):
        return [I.Res(s, k != 'exc', v if k == 'exc' else NONE)
                for s, k, v in outs]

    # ======================================================================
    # protocol operations
    # ======================================================================

    def proto_view(self, st, o, name):
        view = self.view_of(st, o)
        if view is not None and name in view.members and \
                name not in view.opaque:
            return view.members[name]
        return None

    def getitem(self, st, o, k, node, ctx):
        if o.tag == 'top':
            return self.ok(st, mk('top', 'item'))
        if is_app(k, 'sliceobj'):
            return self.getslice(st, o, k.a[1], k.a[2], k.a[3], node, ctx)
        segs = self.segs_of(st, o)
        if segs is not None and not (o.tag == 'seq' and o.a[0] == 'dict'):
            if is_app(k, 'num') or is_app(k, 'len'):
                # counted from the end
                for r in self.bi_len(st, [o], {}, node, ctx):
                    a, b = self.linear(k), self.linear(r.val) if r.ok else None
                    if a and b and list(a[0]) == list(b[0]) and a[1] < b[1]:
                        k = const(a[1] - b[1])
            if is_const(k, 'int'):
                i = cval(k)
                if all(s[0] == 'item' for s in segs):
                    if -len(segs) <= i < len(segs):
                        return self.ok(st, segs[i][1])
                    return self.raise_new(st, 'IndexError', (),
                                          app('noindex', o))
                pre = 0
                if i >= 0:
                    for s in segs:
                        if s[0] != 'item':
                            break
                        if pre == i:
                            return self.ok(st, s[1])
                        pre += 1
                else:
                    pre = -1
                    for s in reversed(segs):
                        if s[0] != 'item':
                            break
                        if pre == i:
                            return self.ok(st, s[1])
                        pre -= 1
                if len(segs) == 1 and segs[0][0] == 'many' and i in (0, -1):
                    s = segs[0]
                    if len(s[3]) == 1:
                        g, items = next(iter(s[3]))
                        if not g and len(items) == 1 and \
                                items[0][0] == 'item':
                            tok = app('first' if i == 0 else 'last', s[1])
                            v = subst(items[0][1], {s[2]: tok})
                            if st.facts.get(app('nonempty', s[1])) is True:
                                return self.ok(st, v)
                            if st.facts.get(app('nonempty', s[1])) is False:
                                return self.raise_new(st, 'IndexError', (),
                                                      app('noindex', o))
                            if not self.catches('IndexError', True):
                                return self.ok(st, v)
                            out = []
                            for x, t in self.split(st, app('nonempty', s[1])):
                                out += self.ok(x, v) if t else self.raise_new(
                                    x, 'IndexError', (), app('noindex', o))
                            return out
                    hit = [(g, items) for g, items in s[3] if items]
                    if len(hit) == 1 and i == 0 and len(hit[0][1]) == 1 and \
                            hit[0][1][0][0] == 'item':
                        # the first one which passes the filter
                        out = []
                        for x, t in self.branch(st, o, ctx):
                            if not t:
                                out += self.raise_new(x, 'IndexError', (),
                                                      app('noindex', o))
                                continue
                            x = x.copy()
                            m = {s[2]: app('found', s[1])}
                            for p, val in hit[0][0]:
                                x.facts[subst(p, m)] = val
                            out += self.ok(x, subst(hit[0][1][0][1], m))
                        return out
            return self.ok(st, app('elemat', self.freeze(st, o), k))
        if self.is_map(st, o):
            m = self.proto_view(st, o, '__getitem__')
            if m is not None:
                return self.call(st, m, [o, k], {}, node, ctx)
            return self.map_get(st, o, k, node, ctx)
        if o.tag == 'const':
            if k.tag == 'const':
                try:
                    return self.ok(st, const(cval(o)[cval(k)]))
                except Exception:
                    return self.raise_new(st, 'TypeError')
            return self.ok(st, app('item', o, k))
        m = self.proto_view(st, o, '__getitem__')
        if m is not None:
            return self.call(st, m, [o, k], {}, node, ctx)
        kd = self.kind(st, o).rstrip('?')
        if kd in ('str', 'bytes', 'list', 'tuple', 'iter'):
            if is_const(k, 'int') and kd in ('list', 'iter', 'tuple'):
                return self.ok(st, app('elemat', o, k))
            return self.ok(st, app('item', o, k))
        return self.proto_getitem(st, o, k, node, ctx)

    def proto_getitem(self, st, o, k, node, ctx):
        """Reading an item of an unknown mapping: reproducible until the
        mapping is written to; may fail."""
        n = st.epochs.get(o, 0)
        key = ('getitem', o, k, n)
        got = st.memo.get(key)
        if got is not None:
            return [I.Res(st, got[0], got[1])]
        # the result of the most recent own write
        w = st.memo.get(('written', o, n))
        if w is not None and w[0] is k and w[1] is not None:
            return self.ok(st, app('stored', o, k, w[1]))
        v = app('item', o, k) if not n else app('item', o, k, const(n))
        if is_app(k, 'elem') and is_app(k.a[1], 'keys') and \
                k.a[1].a[1] is o:
            # an existing key
            v = app('item', o, k)
            st = st.copy()
            st.add(I.Ev('getitem', o, (k,), (), v, self.where(node, ctx)))
            return self.ok(st, v)
        where = self.where(node, ctx)
        known = st.facts.get(app('in', k, o) if not n else
                             app('in', k, o, const(n)))
        out = []
        if known is not False:
            s1 = st.copy()
            s1.memo[key] = (True, v)
            s1.facts[app('in', k, o) if not n else
                     app('in', k, o, const(n))] = True
            s1.add(I.Ev('getitem', o, (k,), (), v, where))
            out += self.ok(s1, v)
        s2 = st.copy()
        if known is False:
            e = self.exc_value('KeyError', (k,), app('nokey', o, k))
        else:
            e = mk('exc', '', (), app('raised', app('getitem', o), k,
                                      const(n)))
        s2.memo[key] = (False, e)
        s2.add(I.Ev('getitem', o, (k,), (), e, where))
        s2.add(I.Ev('raise', o, (e,), (), e, where))
        out += self.throw(s2, e)
        return out

    def setitem(self, st, o, k, v, node, ctx):
        if o.tag == 'top':
            return self.ok(st, NONE)
        if o in st.lists:
            s = st.copy()
            segs = s.lists[o]
            if is_const(k, 'int') and all(x[0] == 'item' for x in segs) and \
                    -len(segs) <= cval(k) < len(segs):
                l = list(segs)
                l[cval(k)] = ('item', v)
                s.lists[o] = tuple(l)
            else:
                s.lists[o] = (('unknown', next(self.ids)),)
            return self.ok(s, NONE)
        m = self.proto_view(st, o, '__setitem__')
        if m is not None:
            return self.call(st, m, [o, k, v], {}, node, ctx)
        if self.is_map(st, o):
            return self.map_set(st, o, k, v, node, ctx)
        return self.proto_write(st, 'setitem', o, (k, v), node, ctx)

    def proto_write(self, st, op, o, args, node, ctx):
        st = st.copy()
        n = st.epochs.get(o, 0)
        where = self.where(node, ctx)
        st.add(I.Ev(op, o, tuple(args), (), NONE, where))
        s2 = st.copy()
        s1 = st
        s1.epochs[o] = n + 1
        s1.memo[('written', o, n + 1)] = (args[0], args[1]
                                          if len(args) > 1 else None)
        s2.epochs[o] = n + 1
        if op == 'delitem' and st.facts.get(app('in', args[0], o)) is False:
            e = self.exc_value('KeyError', (args[0],), app('nokey', o,
                                                           args[0]))
        else:
            e = mk('exc', '', (), app('raised', app(op, o), tup(*args),
                                      const(n)))
        if op == 'delitem' and is_app(args[0], 'sliceobj'):
            # taking out none of the elements is no error
            return self.ok(s1, NONE)
        s2.add(I.Ev('raise', o, (e,), (), e, where))
        return self.ok(s1, NONE) + self.throw(s2, e)

    def delitem(self, st, o, k, node, ctx):
        if o.tag == 'top':
            return self.ok(st, NONE)
        if o in st.lists:
            s = st.copy()
            segs = s.lists[o]
            if is_const(k, 'int') and all(x[0] == 'item' for x in segs) and \
                    -len(segs) <= cval(k) < len(segs):
                l = list(segs)
                del l[cval(k)]
                s.lists[o] = tuple(l)
            elif is_app(k, 'sliceobj') and k.a[1] in (NONE, const(0)) and \
                    k.a[2] is NONE:
                s.lists[o] = ()
            elif is_app(k, 'sliceobj') and all(
                    x is NONE or is_const(x, 'int') for x in k.a[1:]) and \
                    all(x[0] == 'item' for x in segs) and \
                    k.a[3] is not const(0):
                l = list(segs)
                del l[slice(*[cval(x) for x in k.a[1:]])]
                s.lists[o] = tuple(l)
            else:
                s.lists[o] = (('unknown', next(self.ids)),)
            return self.ok(s, NONE)
        m = self.proto_view(st, o, '__delitem__')
        if m is not None:
            return self.call(st, m, [o, k], {}, node, ctx)
        if self.is_map(st, o):
            return self.then(self.map_del(st, o, k, node, ctx),
                             lambda s, v: self.ok(s, NONE))
        return self.proto_write(st, 'delitem', o, (k,), node, ctx)

    def contains(self, st, o, k, node, ctx):
        """k in o -> [Res]"""
        if o.tag == 'top':
            return self.ok(st, app('in', k, o))
        segs = self.segs_of(st, o)
        if segs is not None and not (o.tag == 'seq' and o.a[0] == 'dict'):
            if len(segs) == 1 and segs[0][0] == 'many' and \
                    is_app(segs[0][1], 'keys') and any(
                        it[0] == 'item' and it[1] is not segs[0][2]
                        for g, items in segs[0][3] for it in items):
                # found by comparing
                return self.prelude(st, 'in', [mk('seq', 'list', segs), k],
                                    {}, node, ctx)
            return self.seg_contains(st, o, segs, k)
        if o.tag == 'const' and k.tag == 'const':
            try:
                return self.ok(st, boolean(cval(k) in cval(o)))
            except TypeError:
                return self.raise_new(st, 'TypeError')
        m = self.proto_view(st, o, '__contains__')
        if m is not None:
            return self.call(st, m, [o, k], {}, node, ctx)
        if is_app(o, 'instdict'):
            return [I.Res(s, True, boolean(t))
                    for s, t, v in self.inst_find(st, o.a[1], k)]
        if self.is_map(st, o):
            return [I.Res(s, True, TRUE if status == 'hit' else
                          FALSE if status == 'miss' else app('in', k, o))
                    for s, status, v in self.map_find(st, o, k, ctx, node)]
        if self.kind(st, o).rstrip('?') in ('str', 'bytes', 'list', 'set',
                                            'tuple', 'iter'):
            return self.ok(st, self.pred_value(st, app('in', k, o)))
        m = self.proto_view(st, o, '__iter__')
        if m is not None:
            out = []
            for r in self.iterate(st, o, node, ctx):
                out += self.seg_contains(r.st, o, r.val, k) if r.ok else [r]
            return out
        return self.proto_contains(st, o, k)

    def proto_contains(self, st, o, k):
        n = st.epochs.get(o, 0)
        got = st.memo.get(('getitem', o, k, n))
        if got is not None and got[0]:
            return self.ok(st, TRUE)
        p = app('in', k, o) if not n else app('in', k, o, const(n))
        if got is not None:
            t = self.exc_isa(st, got[1], bi('KeyError'))
            if t is True:
                return self.ok(st, FALSE)
        if is_app(k, 'elem') and is_app(k.a[1], 'keys') and k.a[1].a[1] is o:
            return self.ok(st, TRUE)
        return self.ok(st, self.pred_value(st, p))

    def seg_contains(self, st, o, segs, k):
        states = [st]
        out = []
        for s in segs:
            nxt = []
            for x in states:
                if s[0] == 'item':
                    for s2, t in self.split(x, self.pred2('eq', k, s[1])):
                        if t:
                            out.append(I.Res(s2, True, TRUE))
                        else:
                            nxt.append(s2)
                else:
                    m = s[1] if s[0] == 'rev' else s
                    if m[0] == 'many' and len(m[3]) == 1:
                        g, items = next(iter(m[3]))
                        src = m[1]
                        if not g and items == (('item', m[2]),) and \
                                m[2] is app('elem', src):
                            # all keys of some mapping
                            if is_app(src, 'keys') and len(src.a) == 2:
                                p = app('in', k, src.a[1])
                            else:
                                p = app('in', k, src)
                        else:
                            p = app('in', k, mk('seq', 'list', (m,)))
                    else:
                        p = app('in', k, mk('seq', 'list', (m,)))
                    for s2, t in self.split(x, p):
                        if t:
                            out.append(I.Res(s2, True, TRUE))
                        else:
                            nxt.append(s2)
            states = nxt
        return out + [I.Res(s, True, FALSE) for s in states]

    # ======================================================================
    # methods of library containers
    # ======================================================================

    def call_method(self, st, o, name, args, kw, node, ctx):
        if o.tag == 'cls' and name in ('providedBy', 'implementedBy'):
            if len(args) == 1:
                if name == 'providedBy':
                    return self.ok(st, self.pred_value(
                        st, app('providedBy', o, args[0])))
                return self.ok(st, self.pred_value(
                    st, app('implementedBy', o, args[0])))
        if self.is_map(st, o) and name in I.DICT_METHODS:
            return self.dict_method(st, o, name, args, kw, node, ctx)
        if o in st.lists and o.a[1] == 'set' or \
                self.kind(st, o).rstrip('?') == 'set' or \
                o.tag == 'seq' and o.a[0] == 'view' and name == 'isdisjoint':
            return self.set_method(st, o, name, args, kw, node, ctx)
        if o in st.lists or self.kind(st, o).rstrip('?') == 'list' or \
                o.tag in ('tup', 'seq'):
            return self.list_method(st, o, name, args, kw, node, ctx)
        if self.kind(st, o).rstrip('?') in ('str', 'bytes'):
            return self.str_method(st, o, name, args, kw, node, ctx)
        return self.opaque_method(st, o, name, args, kw, node, ctx)

    def items_segs(self, segs, o):
        """Key segments -> item segments."""
        return self.map_segs(segs, lambda k: None)

    def map_values(self, st, o, segs, what):
        """Turn key segments of mapping o to values or items."""
        def conv(k, s):
            v = self.peek(st, o, k)
            if what == 'values':
                return v
            return tup(k, v)
        out = []
        for s in segs:
            rev = s[0] == 'rev'
            m = s[1] if rev else s
            if m[0] == 'item':
                out.append(('item', conv(m[1], s)))
                continue
            if m[0] != 'many':
                out.append(m)
                continue
            na = set()
            for guards, items in m[3]:
                ni = []
                for it in items:
                    ni.append(('item', conv(it[1], s)) if it[0] == 'item'
                              else it)
                na.add((guards, tuple(ni)))
            m2 = ('many', m[1], m[2], frozenset(na))
            out.append(('rev', m2) if rev else m2)
        return tuple(out)

    def peek(self, st, o, k):
        """Value under key k that is known to exist in mapping o."""
        if self.is_map(st, o):
            log = self.map_log(st, o)
            fresh = self.map_fresh(st, o)
            for op in reversed(log):
                if op[0] == 'set':
                    e = self.d_eq(st, op[1], k)
                    if e is True:
                        return op[2]
                    if e is None:
                        return app('itemlog', o, k, mk('log', log))
                elif op[0] == 'base':
                    pass
                elif op[0] == 'loop' and len(log) == 1 and fresh:
                    src, elem, alts = op[1:4]
                    # key k exists, thus was set by a case setting it
                    last = set(ops[-1][2] if all(
                        x[0] == 'set' and x[1] is k for x in ops) else None
                        for g, ops in alts if ops)
                    if len(last) == 1 and None not in last and (
                            len(alts) == 1 or is_app(src, 'keys')):
                        return next(iter(last))
                    return app('itemlog', o, k, mk('log', log))
                elif op[0] == 'update' and len(log) == 1 and fresh:
                    return app('item', op[1], k)
                else:
                    return app('itemlog', o, k, mk('log', log))
        return app('item', o, k)

    def dict_method(self, st, o, name, args, kw, node, ctx):
        args = list(args)
        if name in ('get',):
            default = args[1] if len(args) > 1 else kw.get('default', NONE)
            if not args:
                return self.raise_new(st, 'TypeError')
            m = self.proto_view(st, o, '__getitem__')
            return self.map_get(st, o, args[0], node, ctx,
                                lambda s: self.ok(s, default))
        if name == '__getitem__':
            return self.map_get(st, o, args[0], node, ctx)
        if name in ('__contains__', 'has_key'):
            return self.contains(st, o, args[0], node, ctx)
        if name == '__setitem__':
            return self.map_set(st, o, args[0], args[1], node, ctx)
        if name == '__delitem__':
            return self.delitem(st, o, args[0], node, ctx)
        if name == 'setdefault':
            default = args[1] if len(args) > 1 else NONE
            if is_app(o, 'instdict') and is_const(args[0], 'str'):
                # an attribute, looked up and set at once
                x, n = o.a[1], cval(args[0])
                st = st.copy()
                st.add(I.Ev('atomic', x, (args[0], default), (), NONE,
                            self.where(node, ctx)))
                if (x, n) in st.cells:
                    return self.ok(st, st.cells[(x, n)])
                out = []
                for s, t in self.split(st, app('hasattr', x, args[0])):
                    if t:
                        out += self.ok(s, app('attr', x, args[0]))
                    else:
                        out += self.then(self.raw_store(
                            s, x, n, default, node, ctx),
                            lambda s2, _: self.ok(s2, default))
                return out
            return self.map_get(
                st, o, args[0], node, ctx,
                lambda s: self.then(self.map_set(s, o, args[0], default, node,
                                                 ctx),
                                    lambda s2, _: self.ok(s2, default)))
        if name == 'pop':
            if len(args) > 1:
                return self.map_del(st, o, args[0], node, ctx,
                                    lambda s: self.ok(s, args[1]))
            return self.map_del(st, o, args[0], node, ctx)
        if name == 'update':
            rs = self.ok(st, NONE)
            for a in args:
                rs = self.then(rs, lambda s, _, a=a: self.map_update(
                    s, o, a, node, ctx))
            for k, v in kw.items():
                if k == '**':
                    rs = self.then(rs, lambda s, _, v=v: self.map_update(
                        s, o, v, node, ctx))
                elif k != '*':
                    rs = self.then(rs, lambda s, _, k=k, v=v: self.map_set(
                        s, o, const(k), v, node, ctx))
            return self.then(rs, lambda s, _: self.ok(s, NONE))
        if name in ('keys', 'values', 'items', 'iterkeys', 'itervalues',
                    'iteritems', '__iter__'):
            segs = self.map_keys(st, o)
            what = name.replace('iter', '') if name != '__iter__' else 'keys'
            if what != 'keys':
                segs = self.map_values(st, o, segs, what)
            return self.ok(st, mk('seq', 'view', segs, o))
        if name == 'clear':
            st = st.copy()
            st.maps[o] = self.map_log(st, o) + (('clear',),)
            st.add(I.Ev('mclear', o, (), (), NONE, self.where(node, ctx)))
            return self.ok(st, NONE)
        if name == '__len__':
            return self.call_bi(st, 'len', [o], {}, node, ctx)
        if name == 'copy':
            st = st.copy()
            d = self.alloc(st, 'dict')
            log = self.map_log(st, o)
            if self.map_fresh(st, o):
                st.maps[d] = log
            else:
                st.maps[d] = (('update', o),) if not log or \
                    log == (('base',),) else (('update', app(
                        'mapat', o, mk('log', log))),)
            return self.ok(st, d)
        if name == 'popitem':
            st = st.copy()
            k = app('anykey', o, mk('log', self.map_log(st, o)))
            st.maps[o] = self.map_log(st, o) + (('del', k),)
            out = self.ok(st, tup(k, app('item', o, k)))
            if self.in_try():
                out += self.raise_new(st, 'KeyError')
            return out
        return self.ok(st, mk('top', 'dict.' + name))

    def as_segs(self, st, v, node, ctx):
        rs = [r for r in self.iterate(st, v, node, ctx, quiet=True) if r.ok]
        if len(rs) == 1:
            return rs[0].val
        return (('unknown', next(self.ids)),)

    def list_method(self, st, o, name, args, kw, node, ctx):
        if o in st.lists:
            s = st.copy()
            segs = s.lists[o]
            s.facts.pop(app('truthy', o), None)
            if name == 'append':
                s.lists[o] = segs + (('item', args[0]),)
                return self.ok(s, NONE)
            if name == 'extend':
                out = []
                for r in self.iterate(s, args[0], node, ctx):
                    if r.ok:
                        s2 = r.st.copy()
                        s2.lists[o] = segs + r.val
                        out += self.ok(s2, NONE)
                    else:
                        out.append(r)
                return out
            if name == 'insert':
                if args[0] is const(0):
                    s.lists[o] = (('item', args[1]),) + segs
                else:
                    s.lists[o] = (('unknown', next(self.ids)),)
                return self.ok(s, NONE)
            if name == 'remove':
                for i, x in enumerate(segs):
                    if x[0] == 'item' and self.d_eq(st, x[1],
                                                    args[0]) is True:
                        s.lists[o] = segs[:i] + segs[i + 1:]
                        return self.ok(s, NONE)
                    if x[0] != 'item' or self.d_eq(st, x[1], args[0]) is None:
                        s.lists[o] = (('unknown', next(self.ids)),)
                        return self.ok(s, NONE)
                return self.raise_new(s, 'ValueError')
            if name == 'reverse':
                s.lists[o] = rev_segs(segs)
                return self.ok(s, NONE)
            if name == 'clear':
                s.lists[o] = ()
                return self.ok(s, NONE)
            if name == 'pop':
                i = cval(args[0]) if args and is_const(args[0], 'int') else \
                    -1 if not args else None
                if segs and i == -1 and segs[-1][0] == 'item':
                    s.lists[o] = segs[:-1]
                    return self.ok(s, segs[-1][1])
                if segs and i == 0 and segs[0][0] == 'item':
                    s.lists[o] = segs[1:]
                    return self.ok(s, segs[0][1])
                if not segs:
                    return self.raise_new(s, 'IndexError')
                if i in (0, -1):
                    # what is left is not known any more
                    out = []
                    for r in self.getitem(st, o, const(i), node, ctx):
                        if r.ok:
                            s = r.st.copy()
                            s.lists[o] = (('unknown', next(self.ids)),)
                            r = I.Res(s, True, mk('top', 'list.pop') if is_app(
                                r.val, 'elemat') else r.val)
                        out.append(r)
                    return out
                s.lists[o] = (('unknown', next(self.ids)),)
                return self.ok(s, mk('top', 'list.pop'))
            if name == 'sort':
                key = kw.get('key', NONE)
                s.lists[o] = (self.sorted_seg(st, segs, key,
                                              kw.get('reverse', FALSE)),)
                return self.ok(s, NONE)
            if name == 'copy':
                l = self.alloc(s, 'list')
                s.lists[l] = segs
                return self.ok(s, l)
            if name in ('__iter__',):
                return self.ok(st, mk('seq', 'iter', segs, o))
            if name == '__contains__':
                return self.contains(st, o, args[0], node, ctx)
            if name == '__getitem__':
                return self.getitem(st, o, args[0], node, ctx)
            if name == '__len__':
                return self.call_bi(st, 'len', [o], {}, node, ctx)
            return self.ok(st, mk('top', 'list.' + name))
        # opaque list: keep an operation record
        if name in ('append', 'remove', 'extend', 'insert', 'pop', 'clear',
                    'reverse', 'sort'):
            s = st.copy()
            s.epochs[o] = s.epochs.get(o, 0) + 1
            s.facts.pop(app('truthy', o), None)
            where = self.where(node, ctx)
            if name == 'extend':
                return self.then(self.iterate(st, args[0], node, ctx),
                                 lambda s2, segs: self.list_extend(
                                     s2, o, args[0], segs, node, ctx))
            if name == 'append':
                for p in [p for p in s.facts if is_app(p, 'in') and
                          p.a[2] is o]:
                    if s.facts[p] is False:
                        del s.facts[p]
                s.facts[app('in', args[0], o)] = True
            elif name == 'remove':
                known = st.facts.get(app('in', args[0], o))
                out = []
                if known is not True:
                    miss = st.copy()
                    miss.facts[app('in', args[0], o)] = False
                    out += self.raise_new(miss, 'ValueError', (),
                                          app('noitem', o, args[0]))
                    if known is False:
                        return out
                for p in [p for p in s.facts if is_app(p, 'in') and
                          p.a[2] is o]:
                    if s.facts[p] is True:
                        del s.facts[p]
                s.add(I.Ev('lop', o, (const(name),) + tuple(args), (), NONE,
                           where))
                return self.ok(s, NONE) + out
            s.add(I.Ev('lop', o, (const(name),) + tuple(args), (),
                       app('lpop', o, const(s.epochs[o]), *args)
                       if name == 'pop' else NONE, where))
            return self.ok(s, app('lpop', o, const(s.epochs[o]), *args)
                           if name == 'pop' else NONE)
        if name == '__iter__':
            return self.then(self.iterate(st, o, node, ctx),
                             lambda s, segs: self.ok(s, mk('seq', 'iter',
                                                           segs, o)))
        if name == '__contains__':
            return self.contains(st, o, args[0], node, ctx)
        if name == '__getitem__':
            return self.getitem(st, o, args[0], node, ctx)
        if name == '__len__':
            return self.call_bi(st, 'len', [o], {}, node, ctx)
        if name == 'copy':
            return self.call_bi(st, 'list', [o], {}, node, ctx)
        return self.ok(st, app('lmeth', self.freeze(st, o), const(name),
                               tup(*args)))

    def list_extend(self, st, o, arg, segs, node, ctx):
        """Extending a list is appending each element."""
        st = st.copy()
        where = self.where(node, ctx)
        st.epochs[o] = st.epochs.get(o, 0) + 1
        st.facts.pop(app('truthy', o), None)
        for p in [p for p in st.facts if is_app(p, 'in') and p.a[2] is o]:
            if st.facts[p] is False:
                del st.facts[p]
        for x in segs:
            if x[0] == 'item':
                st.facts[app('in', x[1], o)] = True
                st.add(I.Ev('lop', o, (const('append'), x[1]), (), NONE,
                            where))
            elif x[0] == 'many' and all(
                    i[0] == 'item' for g, items in x[3] for i in items):
                st.add(I.Loop(x[1], x[2], frozenset(
                    (frozenset(g), tuple(
                        I.Ev('lop', o, (const('append'), i[1]), (), NONE,
                             where) for i in items))
                    for g, items in x[3]), arg, False, where, NONE))
            else:
                st.add(I.Ev('lop', o, (const('extend'), mk(
                    'seq', 'iter', segs)), (), NONE, where))
                break
        return self.ok(st, NONE)

    def sorted_seg(self, st, segs, key, reverse):
        return ('sorted', tuple(segs), key, reverse)

    def seg_set(self, st, v, node, ctx):
        """A canonical term of the element set."""
        if v.tag == 'app' and v.a[0] in ('keys', 'inter'):
            return v
        segs = self.segs_of(st, v)
        if segs is None or v.tag == 'seq' and v.a[0] == 'dict':
            segs = self.as_segs(st, v, node, ctx)
        if len(segs) == 1 and segs[0][0] == 'many' and len(segs[0][3]) == 1:
            g, items = next(iter(segs[0][3]))
            if not g and items == (('item', segs[0][2]),):
                return segs[0][1]
        return mk('seq', 'set', segs)

    def set_method(self, st, o, name, args, kw, node, ctx):
        local = o in st.lists
        if name in ('intersection', 'isdisjoint', 'difference', 'union',
                    'issubset', 'issuperset', 'symmetric_difference'):
            if len(args) != 1:
                return self.ok(st, mk('top', 'set.' + name))
            if name in ('isdisjoint', 'issubset', 'issuperset'):
                # of few known elements: one after the other
                pairs = ((o, args[0]), (args[0], o))
                for x, y in pairs[:1] if name == 'issubset' else \
                        pairs[1:] if name == 'issuperset' else pairs:
                    sg = self.segs_of(st, x)
                    if sg is None or len(sg) > 4 or any(
                            i[0] != 'item' for i in sg) or \
                            x.tag == 'seq' and x.a[0] == 'dict':
                        continue
                    return self.each_in(st, [i[1] for i in sg], y,
                                        name == 'isdisjoint', node, ctx)
            a = self.seg_set(st, o, node, ctx)
            b = self.seg_set(st, args[0], node, ctx)
            x, y = self.two(a, b)
            if name == 'isdisjoint':
                return self.ok(st, self.neg(self.pred_value(
                    st, app('intersects', x, y))))
            if name == 'issubset':
                return self.ok(st, app('subset', a, b, TRUE))
            if name == 'issuperset':
                return self.ok(st, app('subset', b, a, TRUE))
            if name == 'intersection':
                return self.ok(st, app('inter', x, y))
            if name == 'union':
                s = st.copy()
                l = self.alloc(s, 'set')
                s.lists[l] = self.as_segs(st, o, node, ctx) + \
                    self.as_segs(st, args[0], node, ctx)
                return self.ok(s, l)
            return self.ok(st, app('set' + name, a, b))
        if local:
            s = st.copy()
            segs = s.lists[o]
            if name == 'add':
                if ('item', args[0]) not in segs:
                    s.lists[o] = segs + (('item', args[0]),)
                return self.ok(s, NONE)
            if name == 'update':
                for a in args:
                    s.lists[o] = s.lists[o] + self.as_segs(s, a, node, ctx)
                return self.ok(s, NONE)
            if name in ('discard', 'remove'):
                if ('item', args[0]) in segs:
                    s.lists[o] = tuple(x for x in segs
                                       if x != ('item', args[0]))
                elif segs:
                    s.lists[o] = (('unknown', next(self.ids)),)
                elif name == 'remove':
                    return self.raise_new(st, 'KeyError', (args[0],))
                return self.ok(s, NONE)
            if name == 'clear':
                s.lists[o] = ()
                return self.ok(s, NONE)
            if name == 'copy':
                l = self.alloc(s, 'set')
                s.lists[l] = segs
                return self.ok(s, l)
            return self.ok(st, mk('top', 'set.' + name))
        if name in ('add', 'update', 'discard', 'remove', 'clear', 'pop'):
            s = st.copy()
            s.epochs[o] = s.epochs.get(o, 0) + 1
            s.add(I.Ev('lop', o, (const(name),) + tuple(args), (), NONE,
                       self.where(node, ctx)))
            if name in ('discard', 'remove'):
                known = st.facts.get(app('in', args[0], o))
                s.facts[app('in', args[0], o)] = False
                if name == 'remove' and known is not True:
                    miss = st.copy()
                    miss.facts[app('in', args[0], o)] = False
                    out = self.raise_new(miss, 'KeyError', (args[0],))
                    return out if known is False else \
                        self.ok(s, NONE) + out
            if name == 'add':
                s.facts[app('in', args[0], o)] = True
            elif name == 'update' and len(args) == 1:
                sg = self.segs_of(s, args[0])
                if sg and all(x[0] == 'item' for x in sg):
                    for x in sg:
                        s.facts[app('in', x[1], o)] = True
            return self.ok(s, NONE)
        return self.ok(st, app('smeth', o, const(name), tup(*args)))

    def each_in(self, st, items, o, none, node, ctx):
        """Whether all (none) of some items are elements of o."""
        out = []
        states = [st]
        for k in items:
            nxt = []
            for s in states:
                for r in self.contains(s, o, k, node, ctx):
                    if not r.ok:
                        out.append(r)
                        continue
                    for s2, t in self.branch(r.st, r.val):
                        if t is none:
                            out.append(I.Res(s2, True, FALSE))
                        else:
                            nxt.append(s2)
            states = nxt
        return out + [I.Res(s, True, TRUE) for s in states]

    def str_method(self, st, o, name, args, kw, node, ctx):
        if o.tag == 'const' and all(a.tag == 'const' for a in args) and \
                not kw and name != 'format':
            try:
                r = getattr(cval(o), name)(*[cval(a) for a in args])
                if isinstance(r, (str, bytes, int, bool)):
                    return self.ok(st, const(r))
                if isinstance(r, (list, tuple)):
                    vals = [const(x) for x in r]
                    if isinstance(r, tuple):
                        return self.ok(st, tup(*vals))
                    s = st.copy()
                    l = self.alloc(s, 'list')
                    s.lists[l] = tuple(('item', v) for v in vals)
                    return self.ok(s, l)
            except Exception as e:
                return self.raise_new(st, type(e).__name__)
        if name in ('startswith', 'endswith') and len(args) == 1:
            a = args[0]
            if a.tag == 'tup':
                outs = []
                states = [st]
                for x in a.a:
                    nxt = []
                    for s in states:
                        for s2, t in self.split(s, app(name, o, x)):
                            if t:
                                outs += self.ok(s2, TRUE)
                            else:
                                nxt.append(s2)
                    states = nxt
                return outs + [I.Res(s, True, FALSE) for s in states]
            return self.ok(st, self.pred_value(st, app(name, o, a)))
        if name == 'format' and is_const(o, 'str') and '*' not in kw and \
                '**' not in kw:
            r = self.format(st, cval(o), args, kw)
            if r is not None:
                return self.ok(st, r)
        if name == 'join' and len(args) == 1:
            segs = self.as_segs(st, args[0], node, ctx)
            if all(x[0] == 'item' for x in segs):
                parts = []
                for i, x in enumerate(segs):
                    if i:
                        parts.append(o)
                    parts.append(x[1])
                return self.ok(st, self.cat(parts))
            if o is const('') and len(segs) > 1:
                return self.ok(st, self.cat([
                    x[1] if x[0] == 'item' else
                    app('join', o, mk('seq', 'list', (x,))) for x in segs]))
            return self.ok(st, app('join', o, mk('seq', 'list', segs)))
        if name in ('removeprefix', 'removesuffix') and len(args) == 1:
            op = 'startswith' if name == 'removeprefix' else 'endswith'
            out = []
            for s, t in self.split(st, app(op, o, args[0])):
                if not t:
                    out += self.ok(s, o)
                else:
                    n = self.text_len(s, args[0])
                    r = self.cut_head(s, o, n) if op == 'startswith' else \
                        self.cut_tail(s, o, n)
                    out += self.ok(s, r or app(name, o, args[0]))
            return out
        if name in ('encode', 'decode'):
            r = app(name, o, *args)
            k = 'bytes' if name == 'encode' else 'str'
            s = st.copy()
            s.kinds[r] = k
            out = self.ok(s, r)
            if self.in_try() or name == 'decode':
                e = 'UnicodeEncodeError' if name == 'encode' else \
                    'UnicodeDecodeError'
                if self.catches(e) or name == 'decode':
                    out += self.raise_new(st, e, (), app('badtext', o))
            return out
        if name == 'partition' and len(args) == 1 and not kw and \
                is_const(args[0], 'str') and cval(args[0]):
            r = self.partition(st, o, args[0])
            if r is not None:
                return self.ok(st, r)
        r = self.text_parts(st, o, name, args, kw)
        if r is not None:
            return r
        r = app('strm', const(name), o, *args)
        s = st.copy()
        if name in ('strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace',
                    'title'):
            s.kinds[r] = 'str'
        elif name in ('split', 'rsplit', 'splitlines'):
            s.kinds[r] = 'list'
        elif name in ('find', 'rfind', 'index', 'rindex', 'count'):
            s.kinds[r] = 'int'
        return self.ok(s, r)

    def text_parts(self, st, o, name, args, kw):
        """Parts of a text known to start or end with another text."""
        if kw or not args or args[0].tag != 'sym' and not is_const(
                args[0], 'str'):
            return None
        sep, more = args[0], tuple(args[1:])
        one = more == (const(1),)
        if name == 'replace':
            head, ok = True, more == (const(''), const(1))
        elif name in ('split', 'partition'):
            head, ok = True, one or name == 'partition' and not more
        elif name in ('rsplit', 'rpartition'):
            head, ok = False, one or name == 'rpartition' and not more
        elif name in ('find', 'index'):
            head, ok = True, not more
        elif name in ('rfind', 'rindex'):
            head, ok = False, not more
        else:
            return None
        if not ok or st.facts.get(
                app('startswith' if head else 'endswith', o, sep)) is False:
            return None
        parts, want = self.strip_parts(o), self.strip_parts(sep)
        n = self.text_len(st, sep)
        if head:
            known = is_const(sep) and not cval(sep) or \
                parts[:len(want)] == want
        else:
            known = is_const(sep) and not cval(sep) or \
                parts[-len(want):] == want
        if not known and st.facts.get(app(
                'startswith' if head else 'endswith', o, sep)) is not True:
            other = parts[-len(want):] if head else parts[:len(want)]
            if 'partition' not in name or is_const(sep) or other != want \
                    and st.facts.get(app('endswith' if head else
                                         'startswith', o, sep)) is not True:
                return None
            # somewhere in the text
            out = []
            for s, t in self.split(st, app('truthy', sep)):
                out += self.ok(s, tup(
                    app('upto', o, sep, const(head)), sep,
                    app('beyond', o, sep, const(head)))) if t else \
                    self.raise_new(s, 'ValueError')
            return out
        if name in ('find', 'index'):
            return self.ok(st, const(0))
        if name in ('rfind', 'rindex'):
            a, b = self.linear(self.text_len(st, o)), self.linear(n)
            return self.ok(st, self.num(
                list(a[0]) + [(t, -k) for t, k in b[0]], a[1] - b[1]))
        rest = self.cut_head(st, o, n) if head else self.cut_tail(st, o, n)
        if rest is None:
            return None
        if name == 'replace':
            return self.ok(st, rest)
        out = []
        for s, t in self.split(st, app('truthy', sep)) if not is_const(
                sep) else [(st, bool(cval(sep)))]:
            if not t:
                out += self.raise_new(s, 'ValueError')
            elif 'partition' in name:
                out += self.ok(s, tup(const(''), sep, rest) if head else
                               tup(rest, sep, const('')))
            else:
                s = s.copy()
                l = self.alloc(s, 'list')
                s.lists[l] = tuple(('item', v) for v in (
                    (const(''), rest) if head else (rest, const(''))))
                out += self.ok(s, l)
        return out

    def partition(self, st, o, sep):
        """(before, sep, after) of a text whose first part is known."""
        parts = self.strip_parts(o)
        if not parts or not is_const(parts[0], 'str') or \
                cval(sep) not in cval(parts[0]):
            return None
        a, _, b = cval(parts[0]).partition(cval(sep))
        rest = ([const(b)] if b else []) + list(parts[1:])
        return tup(const(a), sep, self.cat(rest) if rest else const(''))

    # ======================================================================
    # methods of unknown objects
    # ======================================================================

    NODE_ITER = {'keys': 'keys', 'values': 'values', 'items': 'items',
                 'iterkeys': 'keys', 'itervalues': 'values',
                 'iteritems': 'items', '__iter__': 'keys'}

    def opaque_method(self, st, o, name, args, kw, node, ctx):
        a = list(args)
        if self.kind(st, o) == 'foreign':
            # nothing is taken for granted
            return self.mcall(st, o, name, args, kw, node, ctx)
        if is_app(o, 'superattr') or is_app(o, 'super'):
            return self.opaque_call(st, app('attr', o, const(name)), args, kw,
                                    node, ctx, may_raise=False)
        if name == '__getitem__' and len(a) == 1:
            return self.getitem(st, o, a[0], node, ctx)
        if name == '__setitem__' and len(a) == 2:
            return self.setitem(st, o, a[0], a[1], node, ctx)
        if name == '__delitem__' and len(a) == 1:
            return self.delitem(st, o, a[0], node, ctx)
        if name in ('__contains__', 'has_key') and len(a) == 1:
            return self.contains(st, o, a[0], node, ctx)
        if name == '__len__' and not a:
            return self.call_bi(st, 'len', [o], {}, node, ctx)
        if name == '__bool__' and not a:
            return self.ok(st, app('truthy', o))
        if name in ('providedBy',) and len(a) == 1:
            return self.ok(st, self.pred_value(
                st, app('providedBy', o, a[0])))
        if name in ('implementedBy',) and len(a) == 1:
            return self.ok(st, self.pred_value(
                st, app('implementedBy', o, a[0])))
        if name in self.NODE_ITER and not a and not kw:
            view = self.view_of(st, o)
            if view is not None and name in view.opaque and \
                    name != '__iter__':
                pass
            out = []
            for r in self.iterate(st, o, node, ctx, quiet=False):
                if not r.ok:
                    out.append(r)
                    continue
                what = self.NODE_ITER[name]
                segs = r.val
                if what != 'keys':
                    segs = self.map_values(r.st, o, segs, what)
                live = () if name in ('keys', 'values', 'items') and \
                    self.kind(r.st, o) == 'node' else (o,)
                out += self.ok(r.st, mk('seq', 'view', segs, *live))
            return out
        if name == 'get' and len(a) in (1, 2) and self.mappish(st, o):
            default = a[1] if len(a) > 1 else kw.get('default', NONE)
            out = []
            self.handlers.append(frozenset(['KeyError']))
            try:
                rs = self.getitem(st, o, a[0], node, ctx)
            finally:
                self.handlers.pop()
            for r in rs:
                if r.ok:
                    out.append(r)
                    continue
                d = self.exc_isa(r.st, r.val, bi('KeyError'))
                if d is not False:
                    s = r.st
                    if d is None:
                        s = s.copy()
                        s.facts[app('isinstance', r.val,
                                    bi('KeyError'))] = True
                    out += self.ok(s, default)
                if d is not True:
                    s = r.st.copy()
                    s.facts[app('isinstance', r.val, bi('KeyError'))] = False
                    out.append(I.Res(s, False, r.val))
            return out
        return self.mcall(st, o, name, args, kw, node, ctx)

    def mappish(self, st, o):
        return self.kind(st, o) in ('node', 'dict')

    def mcall(self, st, o, name, args, kw, node, ctx):
        """Method call on an unknown object: one event."""
        st = st.copy()
        kwt = tuple(sorted(((k, v) for k, v in kw.items()
                            if isinstance(v, V)), key=lambda x: x[0]))
        if '*' in kw:
            kwt += (('*', mk('seq', 'tuple', tuple(kw['*']))),)
        fargs = tuple(self.freeze(st, x) for x in args)
        argt = tup(*fargs)
        ck = (o, name, argt, kwt)
        n = st.counts.get(ck, 0)
        st.counts[ck] = n + 1
        kwv = tup(*[tup(const(k), v) for k, v in kwt])
        res = app('mret', o, const(name), argt, kwv, const(n))
        where = self.where(node, ctx)
        st.add(I.Ev('mcall', o, (const(name),) + tuple(args), kwt, res,
                    where))
        if name not in self.PURE:
            st.epochs[o] = st.epochs.get(o, 0) + 1
        if (o, name) in self.mhooks:
            self.mhooks[(o, name)](st)
        s1 = st
        if name in self.ODICT_INSERT and \
                self.kind(st, o).rstrip('?') == 'dict':
            i = self.ODICT_INSERT[name]
            if len(args) > i + 1:
                s1 = st.copy()
                s1.maps[o] = self.map_log(st, o) + (
                    ('set', args[i], args[i + 1]),)
        out = self.ok(s1, res)
        if self.in_try():
            s2 = st.copy()
            e = mk('exc', '', (), app('raised', app('mcall', o, const(name)),
                                      argt, const(n)))
            s2.add(I.Ev('raise', o, (e,), (), e, where))
            out += self.throw(s2, e)
        return out

    ODICT_INSERT = {'insertbefore': 1, 'insertafter': 1, 'insertfirst': 0,
                    'insertlast': 0}

    PURE = frozenset(['alias', 'unalias', 'decode', 'encode', 'acquire',
                      'release', 'treerepr', 'get', 'node', 'dotted_name',
                      'resolve', 'uuid_factory'])

    # ======================================================================
    # library functions
    # ======================================================================

    _prelude = None

    def prelude(self, st, name, args, kw, node, ctx):
        """Functions written in terms of the language."""
        if self._prelude is None:
            self._prelude = {}
        fn = self._prelude.get(name)
        if fn is None:
            d = ast.parse(PRELUDE[name]).body[0]
            fn = self._prelude[name] = self.make_fn(
                d, st, I.Ctx('node'), name)[0].val
        return self.call(st, fn, list(args), kw, node, ctx)

    def call_bi(self, st, name, args, kw, node, ctx):
        short = name.split('.')[-1]
        m = getattr(self, 'bi_' + name.replace('.', '_'), None)
        if m is not None:
            return m(st, list(args), kw, node, ctx)
        if name in PRELUDE:
            return self.prelude(st, name, args, kw, node, ctx)
        if name in EXC_NAMES:
            return self.ok(st, self.exc_value(name, args, bi(name)))
        if name in ('plumber.default', 'plumber.override', 'plumber.finalize',
                    'plumber.plumb', 'plumber.plumbifexists'):
            v = args[0] if args else NONE
            return self.ok(st, mk('instr', short,
                                  v.a[1] if v.tag == 'instr' else v))
        if name == 'plumber.plumbing':
            return self.ok(st, app('deco', const('plumbing'), tup(*args)))
        if short == 'implementer' and name.startswith('zope.'):
            return self.ok(st, app('deco', const('implementer'), tup(*args)))
        if name == 'plumber.plumber.metaclasshook':
            return self.ok(st, args[0])
        if name == 'contextlib.contextmanager':
            return self.ok(st, app('cmfactory', args[0]))
        if name in ('functools.wraps', 'functools.update_wrapper'):
            return self.ok(st, app('deco', const('wraps'), tup(*args)))
        if name == 'functools.partial':
            return self.ok(st, app(
                'partial', args[0], tup(*args[1:]), tup(*(
                    tup(const(k), v) for k, v in sorted(kw.items())
                    if isinstance(k, str)))))
        if name in ('odict.odict', 'collections.OrderedDict',
                    'odict.odict.odict'):
            rs = self.bi_dict(st, list(args), kw, node, ctx)
            for r in rs:
                if r.ok and r.val.tag == 'ref':
                    self.ctor[r.val] = name
            return rs
        if name == 'threading.local':
            st = st.copy()
            r = self.alloc(st, 'tlocal')
            return self.ok(st, r)
        if name in ('threading.RLock', 'threading.Lock',
                    '_thread.allocate_lock'):
            return self.ext_call(st, name, args, kw, node, ctx,
                                 may_raise=False)
        if name in ('inspect.isclass', 'inspect.isfunction',
                    'inspect.ismethod'):
            return self.ok(st, self.pred_value(st, app(short, args[0])))
        if short in ('dict', 'odict') and False:
            pass
        if short in ('providedBy', 'implementedBy') and args:
            return self.ok(st, self.pred_value(
                st, app(short, bi(name.rpartition('.')[0]), args[0])))
        cls, dot, meth = name.rpartition('.')
        if cls in ('dict', 'odict.odict', 'list', 'set', 'str', 'bytes') and \
                args:
            return self.call_method(st, args[0], meth, list(args[1:]), kw,
                                    node, ctx)
        return self.ext_call(st, name, args, kw, node, ctx)

    def bi_isinstance(self, st, args, kw, node, ctx):
        v, c = args
        if v.tag == 'top':
            return self.ok(st, app('isinstance', v, c))
        if c.tag == 'tup':
            outs = []
            states = [st]
            for x in c.a:
                nxt = []
                for s in states:
                    for r in self.bi_isinstance(s, [v, x], kw, node, ctx):
                        for s2, t in self.branch(r.st, r.val, ctx):
                            if t:
                                outs += self.ok(s2, TRUE)
                            else:
                                nxt.append(s2)
                states = nxt
            return outs + [I.Res(s, True, FALSE) for s in states]
        if c is bi('type'):
            return self.ok(st, self.pred_value(st, app('isclass', v)))
        return self.ok(st, self.pred_value(st, app('isinstance', v, c)))

    def bi_issubclass(self, st, args, kw, node, ctx):
        a, b = args
        if a.tag == 'cls' and b.tag in ('cls', 'bi'):
            if a is b:
                return self.ok(st, TRUE)
            if b in self.iface_closure(a):
                return self.ok(st, TRUE)
            if b.tag == 'bi' and b.a[0].endswith('Interface') and \
                    self.is_iface(a.a[0]):
                return self.ok(st, TRUE)
            if a.tag == 'cls' and a.a[0] in self.prog.classes:
                return self.ok(st, FALSE)
        if is_app(a, 'type'):
            return self.bi_isinstance(st, [a.a[1], b], kw, node, ctx)
        return self.ok(st, self.pred_value(st, app('issubclass', a, b)))

    def bi_hasattr(self, st, args, kw, node, ctx):
        o, n = args
        if o.tag == 'top' or not is_const(n, 'str'):
            return self.ok(st, app('hasattr', o, n))
        return [I.Res(s, True, boolean(t))
                for s, t in self.has_attr(st, o, cval(n), node, ctx)]

    def bi_getattr(self, st, args, kw, node, ctx):
        o, n = args[0], args[1]
        if not is_const(n, 'str'):
            v = app('attr', o, n)
            if len(args) > 2:
                out = []
                for s, t in self.split(st, app('hasattr', o, n)):
                    out += self.ok(s, v if t else args[2])
                return out
            if not (self.catches('AttributeError', True) or self.all_fail):
                return self.ok(st, v)
            out = []
            for s, t in self.split(st, app('hasattr', o, n)):
                out += self.ok(s, v) if t else self.raise_new(
                    s, 'AttributeError', (n,), app('noattr', o, n))
            return out
        name = cval(n)
        if len(args) < 3:
            return self.load(st, o, name, node, ctx)
        out = []
        self.handlers.append(frozenset(['AttributeError']))
        try:
            rs = self.load(st, o, name, node, ctx)
        finally:
            self.handlers.pop()
        for r in rs:
            if r.ok:
                out.append(r)
                continue
            d = self.exc_isa(r.st, r.val, bi('AttributeError'))
            if d is not False:
                s = r.st
                if d is None:
                    s = s.copy()
                    s.facts[app('isinstance', r.val,
                                bi('AttributeError'))] = True
                out += self.ok(s, args[2])
            if d is not True:
                out.append(r)
        return out

    def bi_setattr(self, st, args, kw, node, ctx):
        o, n, v = args
        if is_const(n, 'str'):
            return self.store(st, o, cval(n), v, node, ctx)
        return self.store_dyn(st, o, n, v, node, ctx)

    def store_dyn(self, st, o, n, v, node, ctx):
        st = st.copy()
        st.cells[(o, n)] = v
        st.facts[app('hasattr', o, n)] = True
        st.add(I.Ev('setattr', o, (n, v), (), NONE, self.where(node, ctx)))
        return self.ok(st, NONE)

    def bi_delattr(self, st, args, kw, node, ctx):
        o, n = args
        if is_const(n, 'str'):
            return self.delete(st, o, cval(n), node, ctx)
        return self.ok(st, NONE)

    def bi_object___getattribute__(self, st, args, kw, node, ctx):
        o, n = args
        if not is_const(n, 'str'):
            v = st.cells.get((o, n))
            if v is not None:
                return self.ok(st, v)
            p = app('hasattr', o, n)
            out = []
            for s, t in self.split(st, p):
                if t:
                    out += self.ok(s, app('attr', o, n))
                else:
                    out += self.raise_new(s, 'AttributeError', (n,),
                                          app('noattr', o, n))
            return out
        view = self.view_of(st, o)
        v = st.cells.get((o, cval(n)))
        if v is not None and v is not I.DELETED:
            return self.ok(st, v)
        if view is not None and cval(n) in view.members:
            return self.load(st, o, cval(n), node, ctx)
        return self.opaque_load(st, o, cval(n), node, ctx)

    def bi_object___setattr__(self, st, args, kw, node, ctx):
        o, n, v = args
        if is_const(n, 'str'):
            return self.raw_store(st, o, cval(n), v, node, ctx)
        return self.store_dyn(st, o, n, v, node, ctx)

    def bi_object___delattr__(self, st, args, kw, node, ctx):
        return self.ok(st, NONE)

    def bi_object___new__(self, st, args, kw, node, ctx):
        st = st.copy()
        c = args[0]
        if len(args) > 1 or kw:
            return self.raise_new(st, 'TypeError', (), app('newargs', c))
        if c.tag == 'cls':
            return self.ok(st, self.alloc(st, c.a[0]))
        r = mk('ref', next(self.ids), 'instance')
        return self.ok(st, r)

    def bi_len(self, st, args, kw, node, ctx):
        v = args[0]
        if v.tag == 'const':
            try:
                return self.ok(st, const(len(cval(v))))
            except TypeError:
                return self.raise_new(st, 'TypeError')
        segs = self.segs_of(st, v)
        if segs is not None and not (v.tag == 'seq' and v.a[0] == 'dict'):
            if all(s[0] == 'item' for s in segs) and not (
                    v in st.lists and v.a[1] == 'set'):
                return self.ok(st, const(len(segs)))
            if len(segs) == 1 and segs[0][0] == 'many' and \
                    is_app(segs[0][1], 'keys') and len(segs[0][1].a) == 2 \
                    and len(segs[0][3]) == 1:
                g, items = next(iter(segs[0][3]))
                if not g and len(items) == 1 and not (
                        (v in st.lists and v.a[1] == 'set' or
                         v.tag == 'seq' and v.a[0] == 'set') and
                        (self.values_only(segs[0]) or
                         is_app(segs[0][1].a[1], 'mret'))):
                    return self.ok(st, app('len', segs[0][1]))
            return self.ok(st, app('len', self.freeze(st, v)))
        if self.is_map(st, v):
            ks = self.map_keys(st, v)
            if all(s[0] == 'item' for s in ks):
                return self.ok(st, const(len(ks)))
            if len(ks) == 1 and ks[0][0] == 'many':
                return self.ok(st, app('len', ks[0][1]))
            return self.ok(st, app('len', mk('seq', 'list', ks)))
        m = self.proto_view(st, v, '__len__')
        if m is not None:
            return self.call(st, m, [v], {}, node, ctx)
        k = self.kind(st, v).rstrip('?')
        if k == 'foreign':
            return self.mcall(st, v, '__len__', [], {}, node, ctx)
        if k in ('str', 'bytes') or is_app(v, 'after') or \
                is_app(v, 'before') or is_app(v, 'cat'):
            return self.ok(st, self.text_len(st, v))
        if k == 'node':
            return self.ok(st, app('len', self.keys_src(st, v)))
        return self.ok(st, app('len', v))

    def materialise(self, st, v, kind, node, ctx):
        out = []
        for r in self.iterate(st, v, node, ctx):
            if not r.ok:
                out.append(r)
                continue
            if kind == 'tuple':
                if all(s[0] == 'item' for s in r.val):
                    out += self.ok(r.st, tup(*[s[1] for s in r.val]))
                else:
                    out += self.ok(r.st, mk('seq', 'tuple', r.val))
                continue
            s = r.st.copy()
            l = self.alloc(s, kind)
            s.lists[l] = r.val
            out += self.ok(s, l)
        return out

    def bi_list(self, st, args, kw, node, ctx):
        if not args:
            st = st.copy()
            return self.ok(st, self.alloc(st, 'list'))
        return self.materialise(st, args[0], 'list', node, ctx)

    def bi_object(self, st, args, kw, node, ctx):
        st = st.copy()
        return self.ok(st, self.alloc(st, 'object'))

    def bi_tuple(self, st, args, kw, node, ctx):
        if not args:
            return self.ok(st, tup())
        return self.materialise(st, args[0], 'tuple', node, ctx)

    def bi_set(self, st, args, kw, node, ctx):
        if not args:
            st = st.copy()
            return self.ok(st, self.alloc(st, 'set'))
        return self.materialise(st, args[0], 'set', node, ctx)

    bi_frozenset = bi_set

    def bi_dict(self, st, args, kw, node, ctx):
        st = st.copy()
        d = self.alloc(st, 'dict')
        rs = self.ok(st, NONE)
        n0 = len(st.trace)
        if args:
            rs = self.map_update(st, d, args[0], node, ctx)
        for k, v in kw.items():
            if k == '**':
                rs = self.then(rs, lambda s, _, v=v: self.map_update(
                    s, d, v, node, ctx))
            elif isinstance(v, V):
                rs = self.then(rs, lambda s, _, k=k, v=v: self.map_set(
                    s, d, const(k), v, node, ctx))
        return self.then(rs, lambda s, _: self.ok(s, d))

    def bi_iter(self, st, args, kw, node, ctx):
        return self.then(self.iterate(st, args[0], node, ctx),
                         lambda s, segs: self.ok(s, mk(
                             'seq', 'iter', segs, args[0])
                             if self.live_of(args[0]) is not None
                             else mk('seq', 'iter', segs)))

    def bi_next(self, st, args, kw, node, ctx):
        segs = self.segs_of(st, args[0])
        if segs is not None and args[0].tag == 'seq':
            used = app('consumed', args[0])
            if st.facts.get(used):
                return self.ok(st, mk('top', 'next'))
            if isinstance(node, ast.Call) and node.args and isinstance(
                    node.args[0], (ast.Name, ast.Attribute)):
                # some iterator kept by the caller moves on
                st = st.copy()
                st.facts[used] = True
            if not segs:
                if len(args) > 1:
                    return self.ok(st, args[1])
                return self.raise_new(st, 'StopIteration')
            if segs[0][0] == 'many' and len(segs) == 1:
                return self.first_of(st, segs[0], args, node, ctx)
            if segs[0][0] in ('rev', 'item'):
                return self.first_item(st, segs, args, node, ctx)
        return self.ok(st, mk('top', 'next'))

    def first_item(self, st, segs, args, node, ctx):
        s = st.copy()
        l = self.alloc(s, 'list')
        s.lists[l] = segs
        at = 0
        if len(segs) == 1 and segs[0][0] == 'rev':
            s.lists[l], at = (segs[0][1],), -1
        out = []
        for r in self.getitem(s, l, const(at), node, ctx):
            if r.ok:
                out.append(r)
            elif len(args) > 1:
                out += self.ok(r.st, args[1])
            else:
                out += self.raise_new(r.st, 'StopIteration')
        return out

    def first_of(self, st, seg, args, node, ctx):
        """next() of a generator over an unknown source: some element that
        satisfies the filter, or none does."""
        src, elem, alts = seg[1:4]
        out = []
        for guards, items in alts:
            if len(items) == 1 and items[0][0] == 'item':
                s = st.copy()
                tok = app('found', src)
                for p, val in guards:
                    s.facts[subst(p, {elem: tok})] = val
                s.add(I.Ev('found', src, (tok, mk('seq', 'gen', (seg,))), (),
                           tok, self.where(node, ctx)))
                out += self.ok(s, subst(items[0][1], {elem: tok}))
            elif items:
                return self.ok(st, mk('top', 'next'))
        if any(not guards and len(items) == 1 for guards, items in alts) and (
                is_app(src, 'chain') and self.nonnull(st, src.a[1]) or
                st.facts.get(app('nonempty', src)) is True):
            return out
        s = st.copy()
        s.add(I.Ev('exhausted', src, (mk('seq', 'gen', (seg,)),), (), NONE,
                   self.where(node, ctx)))
        if len(args) > 1:
            out += self.ok(s, args[1])
        else:
            out += self.raise_new(s, 'StopIteration')
        return out

    def bi_reversed(self, st, args, kw, node, ctx):
        return self.then(self.iterate(st, args[0], node, ctx, quiet=True),
                         lambda s, segs: self.ok(
                             s, mk('seq', 'iter', rev_segs(segs),
                                   *([args[0]] if self.live_of(args[0])
                                     is not None else []))))

    def bi_sorted(self, st, args, kw, node, ctx):
        def fin(s, segs):
            s = s.copy()
            l = self.alloc(s, 'list')
            if segs:
                s.lists[l] = (self.sorted_seg(
                    s, segs, kw.get('key', NONE), kw.get('reverse', FALSE)),)
            return self.ok(s, l)
        return self.then(self.iterate(st, args[0], node, ctx, quiet=True),
                         fin)

    def bi_enumerate(self, st, args, kw, node, ctx):
        start = args[1] if len(args) > 1 else kw.get('start', const(0))

        def fin(s, segs):
            if not is_const(start, 'int'):
                return self.ok(s, mk('top', 'enumerate'))
            if all(x[0] == 'item' for x in segs):
                return self.ok(s, mk('seq', 'iter', tuple(
                    ('item', tup(const(i), x[1]))
                    for i, x in enumerate(segs, cval(start)))))
            out = []
            for x in segs:
                if x[0] != 'many':
                    return self.ok(s, mk('top', 'enumerate'))
                na = set()
                for g, items in x[3]:
                    na.add((g, tuple(('item', tup(self.num(
                        ((app('index', x[2]), 1),), cval(start)), i[1]))
                                     for i in items if i[0] == 'item')))
                out.append(('many', x[1], x[2], frozenset(na)))
            return self.ok(s, mk('seq', 'iter', tuple(out),
                                 *([args[0]] if self.live_of(args[0])
                                   is not None else [])))
        return self.then(self.iterate(st, args[0], node, ctx, quiet=True),
                         fin)

    def bi_zip(self, st, args, kw, node, ctx):
        if len(args) == 2:
            out = []
            for r in self.iterate(st, args[0], node, ctx, quiet=True):
                for r2 in self.iterate(r.st, args[1], node, ctx, quiet=True):
                    a, b = r.val, r2.val
                    if all(x[0] == 'item' for x in a + b):
                        return self.ok(r2.st, mk('seq', 'iter', tuple(
                            ('item', tup(x[1], y[1]))
                            for x, y in zip(a, b))))
                    if len(a) == len(b) == 1 and a[0][0] == b[0][0] == 'many' \
                            and a[0][1] is b[0][1] and \
                            len(a[0][3]) == len(b[0][3]) == 1:
                        ga, ia = next(iter(a[0][3]))
                        gb, ib = next(iter(b[0][3]))
                        if not ga and not gb and len(ia) == len(ib) == 1:
                            return self.ok(r2.st, mk('seq', 'iter', ((
                                'many', a[0][1], a[0][2], frozenset([(
                                    (), (('item', tup(ia[0][1], ib[0][1])),)
                                )])),)))
            del out
        return self.ok(st, mk('top', 'zip'))

    def bi_map(self, st, args, kw, node, ctx):
        if len(args) != 2:
            return self.ok(st, mk('top', 'map'))
        f, src = args
        return self.lazy(st, src, node, ctx, lambda s, v, acc: [
            (self.appended(r.st, acc, r.val), 'next', NONE) if r.ok
            else (r.st, 'exc', r.val)
            for r in self.call(s, f, [v], {}, node, ctx)])

    def bi_filter(self, st, args, kw, node, ctx):
        f, src = args

        def one(s, v, acc):
            out = []
            rs = self.call(s, f, [v], {}, node, ctx) if f is not NONE else \
                self.ok(s, v)
            for r in rs:
                if not r.ok:
                    out.append((r.st, 'exc', r.val))
                    continue
                for s2, t in self.branch(r.st, r.val, ctx):
                    out.append((self.appended(s2, acc, v) if t else s2,
                                'next', NONE))
            return out
        return self.lazy(st, src, node, ctx, one)

    def appended(self, st, acc, v):
        st = st.copy()
        st.lists[acc] = st.lists[acc] + (('item', v),)
        return st

    def lazy(self, st, src, node, ctx, one):
        out = []
        for r in self.iterate(st, src, node, ctx):
            if not r.ok:
                out.append(r)
                continue
            s = r.st.copy()
            acc = self.alloc(s, 'list')
            for s2, k, v in self.loop_segs(
                    s, r.val, lambda s3, v3: one(s3, v3, acc), ctx, node,
                    self.live_of(src)):
                if k == 'exc':
                    out.append(I.Res(s2, False, v))
                else:
                    out += self.ok(s2, mk('seq', 'gen', s2.lists[acc]))
        return out

    def quant(self, st, v, node, ctx, want):
        """any (want True) or all (want False) of the elements."""
        out = []
        for r in self.iterate(st, v, node, ctx):
            if not r.ok:
                out.append(r)
                continue
            segs = r.val
            states = [r.st]
            for s in segs:
                nxt = []
                for x in states:
                    if s[0] == 'item':
                        for s2, t in self.branch(x, s[1], ctx):
                            if t == want:
                                out += self.ok(s2, boolean(want))
                            else:
                                nxt.append(s2)
                        continue
                    p = self.quant_pred(x, s, want)
                    for s2, t in self.split(x, p):
                        if t:
                            out += self.ok(s2, boolean(want))
                        else:
                            nxt.append(s2)
                states = nxt
            out += [I.Res(s, True, boolean(not want)) for s in states]
        return out

    def quant_pred(self, st, seg, want):
        """Predicate: some element has truth value ``want``."""
        m = seg[1] if seg[0] == 'rev' else seg
        if m[0] == 'many':
            src, elem, alts = m[1:4]
            hit = set()
            for guards, items in alts:
                for it in items:
                    if it[0] != 'item':
                        return app('quantified', mk('seq', 'x', (m,)),
                                   boolean(want))
                    d = self.decide_truth(st, it[1])
                    if d is None:
                        v = it[1]
                        pos = want
                        while is_app(v, 'not'):
                            v, pos = v.a[1], not pos
                        hit.add(frozenset(guards) | {(v, pos)})
                    elif d == want:
                        hit.add(frozenset(guards))
            if len(hit) == 1:
                h = next(iter(hit))
                if len(h) == 1:
                    p, pos = next(iter(h))
                    # some key of A is that key
                    if pos and is_app(p, 'eq') and elem in p.a and \
                            elem is app('elem', src) and is_app(src, 'keys'):
                        k = p.a[2] if p.a[1] is elem else p.a[1]
                        if not mentions(k, elem):
                            return app('in', k, src.a[1])
                    # some key of A is a key of B
                    if pos and is_app(p, 'in') and p.a[1] is elem and \
                            elem is app('elem', src) and is_app(src, 'keys'):
                        a, b = self.two(src, app('keys', p.a[2])
                                        if not is_app(p.a[2], 'keys')
                                        else p.a[2])
                        return app('intersects', a, b)
            return app('exists', src, elem, frozenset(hit))
        return app('quantified', mk('seq', 'x', (m,)), boolean(want))

    def bi_any(self, st, args, kw, node, ctx):
        if self.quant_simple(st, args[0], True):
            return self.quant(st, args[0], node, ctx, True)
        return self.prelude(st, 'any', args, kw, node, ctx)

    def bi_all(self, st, args, kw, node, ctx):
        if self.quant_simple(st, args[0], False):
            return self.quant(st, args[0], node, ctx, False)
        return self.prelude(st, 'all', args, kw, node, ctx)

    def quant_simple(self, st, v, want):
        """Whether the quantified statement has a form of its own."""
        segs = self.segs_of(st, v)
        if segs is None:
            return True
        return not any(s[0] != 'item' and self.quant_pred(
            st, s, want).a[0] in ('exists', 'quantified') for s in segs)

    def bi_bool(self, st, args, kw, node, ctx):
        if not args:
            return self.ok(st, FALSE)
        return [I.Res(s, True, boolean(t))
                for s, t in self.branch(st, args[0], ctx)]

    def bi_int(self, st, args, kw, node, ctx):
        if not args:
            return self.ok(st, const(0))
        v = args[0]
        if v.tag == 'const':
            try:
                return self.ok(st, const(int(cval(v))))
            except Exception as e:
                return self.raise_new(st, type(e).__name__)
        if self.kind(st, v) in ('int',) and len(args) == 1:
            return self.ok(st, v)
        return self.ok(st, app('int', *args))

    def bi_str(self, st, args, kw, node, ctx):
        if not args:
            return self.ok(st, const(''))
        if len(args) == 1:
            return self.ok(st, self.to_text(st, args[0]))
        return self.ok(st, app('strdec', *args))

    def bi_repr(self, st, args, kw, node, ctx):
        return self.ok(st, app('repr', args[0]))

    def bi_hash(self, st, args, kw, node, ctx):
        return self.ok(st, app('hash', args[0]))

    def bi_id(self, st, args, kw, node, ctx):
        return self.ok(st, app('id', args[0]))

    def bi_hex(self, st, args, kw, node, ctx):
        st = st.copy()
        v = app('strm', const('hex'), args[0])
        st.kinds[v] = 'str'
        return self.ok(st, v)

    def bi_callable(self, st, args, kw, node, ctx):
        v = args[0]
        if v.tag in ('fn', 'bound', 'cls', 'pipe', 'bi'):
            return self.ok(st, TRUE)
        if self.kind(st, v) in ('str', 'int', 'dict', 'list', 'none', 'node'):
            return self.ok(st, FALSE)
        return self.ok(st, self.pred_value(st, app('callable', v)))

    def bi_type(self, st, args, kw, node, ctx):
        if len(args) != 1:
            return self.ok(st, mk('top', 'type()'))
        v = args[0]
        k = self.TYPE_OF_KIND.get(self.kind(st, v))
        if k and not (v.tag in ('sym', 'app') and k in (
                'list', 'tuple', 'dict', 'set')):
            return self.ok(st, bi(k))
        if v.tag == 'ref' and v.a[1] in self.prog.classes:
            return self.ok(st, mk('cls', v.a[1]))
        if v.tag == 'glob' and self.globcls.get(v) in self.prog.classes:
            return self.ok(st, mk('cls', self.globcls[v]))
        if self.plain_object(v):
            return self.ok(st, bi('object'))
        return self.ok(st, app('type', v))

    def bi_super(self, st, args, kw, node, ctx):
        if len(args) == 2:
            return self.ok(st, app('super', args[0], args[1]))
        return self.ok(st, mk('top', 'super'))

    def bi_property(self, st, args, kw, node, ctx):
        fs = [a.a[1] if a.tag == 'instr' else a for a in args[:3]]
        for k in ('fget', 'fset', 'fdel')[len(fs):]:
            fs.append(kw.get(k, NONE))
        return self.ok(st, mk('prop', *fs[:3]))

    def bi_staticmethod(self, st, args, kw, node, ctx):
        return self.ok(st, app('static', args[0]))

    def bi_classmethod(self, st, args, kw, node, ctx):
        return self.ok(st, app('classm', args[0]))

    def bi_max(self, st, args, kw, node, ctx):
        return self.ok(st, app('max', *args))

    def bi_min(self, st, args, kw, node, ctx):
        return self.ok(st, app('min', *args))

    def bi_range(self, st, args, kw, node, ctx):
        if all(is_const(a, 'int') for a in args):
            r = range(*[cval(a) for a in args])
            if len(r) < 50:
                return self.ok(st, mk('seq', 'iter', tuple(
                    ('item', const(i)) for i in r)))
        v = app('range', *args)
        return self.ok(st, mk('seq', 'iter', (self.many(v),)))

    bi_xrange = bi_range

    def bi_print(self, st, args, kw, node, ctx):
        return self.ext_call(st, 'print', args, kw, node, ctx)

    def bi_vars(self, st, args, kw, node, ctx):
        if args:
            return self.load(st, args[0], '__dict__', node, ctx)
        return self.ok(st, mk('top', 'vars'))

    def bi_bytes(self, st, args, kw, node, ctx):
        if len(args) == 1 and self.kind(st, args[0]) == 'bytes':
            return self.ok(st, args[0])
        return self.ok(st, app('bytes', *args))

    def bi_contextlib_suppress(self, st, args, kw, node, ctx):
        return self.ok(st, app('suppress', tup(*args)))

    def bi_uuid_UUID(self, st, args, kw, node, ctx):
        return self.ext_call(st, 'uuid.UUID', args, kw, node, ctx,
                             may_raise=False)

    def bi_itertools_chain(self, st, args, kw, node, ctx):
        outs = [I.Res(st, True, ())]
        for a in args:
            nxt = []
            for r in outs:
                for x in self.iterate(r.st, a, node, ctx):
                    nxt.append(I.Res(x.st, x.ok, r.val + x.val if x.ok
                                     else x.val))
            outs = nxt
        return [I.Res(r.st, r.ok, mk('seq', 'iter', r.val) if r.ok
                      else r.val) for r in outs]

    def bi_operator_itemgetter(self, st, args, kw, node, ctx):
        if len(args) == 1:
            return self.ok(st, app('itemgetter', args[0]))
        return self.ok(st, mk('top', 'itemgetter'))
