"""Statements, loops (fixpoint with widening), exceptions, context managers."""
import ast

from .values import (FALSE, NONE, TRUE, V, app, bi, boolean, const, cval,
                     is_app, is_const, mentions, mentions_any, mk, subst, tup)

from . import interp as I

HOLE = mk('hole', 0)


class Stmts(object):

    def block(self, stmts, st, ctx):
        outs = []
        states = [st]
        for n in stmts:
            nxt = []
            for s in states:
                for s2, k, v in self.stmt(n, s, ctx):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        outs.append((s2, k, v))
            states = nxt
            if len(states) + len(outs) > self.MAX_STATES:
                raise I.Limit('state limit')
            if not states:
                break
        return outs + [(s, 'next', NONE) for s in states]

    def stmt(self, n, st, ctx):
        self.tick()
        m = getattr(self, 'st_' + type(n).__name__, None)
        if m is None:
            raise I.Limit('statement %s' % type(n).__name__)
        return m(n, st, ctx)

    def fin(self, results, f):
        """Continue results with f(st, val) -> outs."""
        out = []
        for r in results:
            if r.ok:
                out.extend(f(r.st, r.val))
            else:
                out.append((r.st, 'exc', r.val))
        return out

    def st_Pass(self, n, st, ctx):
        return [(st, 'next', NONE)]

    st_Global = st_Nonlocal = st_Pass

    def st_Expr(self, n, st, ctx):
        if isinstance(n.value, ast.Constant):
            return [(st, 'next', NONE)]
        return self.fin(self.ev(n.value, st, ctx),
                        lambda s, v: [(s, 'next', NONE)])

    def st_Return(self, n, st, ctx):
        if n.value is None:
            return [(st, 'ret', NONE)]
        return self.fin(self.ev(n.value, st, ctx),
                        lambda s, v: [(s, 'ret', v)])

    def st_Break(self, n, st, ctx):
        return [(st, 'brk', NONE)]

    def st_Continue(self, n, st, ctx):
        return [(st, 'cont', NONE)]

    def st_Assert(self, n, st, ctx):
        def f(s, v):
            out = []
            for s2, t in self.branch(s, v, ctx):
                if t:
                    out.append((s2, 'next', NONE))
                else:
                    out.append((s2, 'exc', self.exc_value('AssertionError')))
            return out
        return self.fin(self.ev(n.test, st, ctx), f)

    def st_FunctionDef(self, n, st, ctx):
        qual = (self.fns[ctx.fn].qual if ctx.fn is not None else ctx.mod) + \
            '.' + n.name
        return self.fin(self.make_def(n, st, ctx, qual), lambda s, v: [
            (self.assign_name(n.name, v, s, ctx), 'next', NONE)])

    def st_ClassDef(self, n, st, ctx):
        return [(self.assign_name(n.name, mk('top', 'local class ' + n.name),
                                  st, ctx), 'next', NONE)]

    def st_Import(self, n, st, ctx):
        for a in n.names:
            name = a.asname or a.name.split('.')[0]
            target = a.name if a.asname else a.name.split('.')[0]
            v = mk('mod', target) if target in self.prog.modules else \
                bi(target)
            st = self.assign_name(name, v, st, ctx)
        return [(st, 'next', NONE)]

    def st_ImportFrom(self, n, st, ctx):
        mod = n.module or ''
        if n.level:
            parts = ctx.mod.split('.')
            is_pkg = self.prog.modules[ctx.mod].path.endswith('__init__.py')
            cut = n.level - (1 if is_pkg else 0)
            base = parts[:len(parts) - cut] if cut else parts
            mod = '.'.join(base + ([mod] if mod else []))
        for a in n.names:
            v = None
            if mod in self.prog.modules:
                v = self.glob_value(mod, a.name)
                if v is None and mod + '.' + a.name in self.prog.modules:
                    v = mk('mod', mod + '.' + a.name)
            if v is None:
                v = bi(mod + '.' + a.name)
            st = self.assign_name(a.asname or a.name, v, st, ctx)
        return [(st, 'next', NONE)]

    # -- assignment ----------------------------------------------------------

    def st_Assign(self, n, st, ctx):
        def f(s, v):
            outs = [(s, 'next', NONE)]
            for t in n.targets:
                nxt = []
                for s2, k2, v2 in outs:
                    if k2 != 'next':
                        nxt.append((s2, k2, v2))
                    else:
                        nxt += self.assign(t, v, s2, ctx)
                outs = nxt
            return outs
        return self.fin(self.ev(n.value, st, ctx), f)

    def st_AnnAssign(self, n, st, ctx):
        if n.value is None:
            return [(st, 'next', NONE)]
        return self.fin(self.ev(n.value, st, ctx),
                        lambda s, v: self.assign(n.target, v, s, ctx))

    def assign(self, t, val, st, ctx):
        if isinstance(t, ast.Name):
            return [(self.assign_name(t.id, val, st, ctx), 'next', NONE)]
        if isinstance(t, ast.Attribute):
            return self.fin(self.ev(t.value, st, ctx), lambda s, o: self.fin(
                self.store(s, o, t.attr, val, t, ctx),
                lambda s2, _: [(s2, 'next', NONE)]))
        if isinstance(t, ast.Subscript):
            def f(s, vals):
                return self.fin(self.setitem(s, vals[0], vals[1], val, t, ctx),
                                lambda s2, _: [(s2, 'next', NONE)])
            return self.fin(self.seq_ev([t.value, t.slice], st, ctx), f)
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = []
            if any(isinstance(e, ast.Starred) for e in t.elts):
                got = self.unpack_star(st, val, t.elts, t, ctx)
            else:
                got = self.unpack_val(st, val, len(t.elts), t, ctx)
            for s, k, vals in got:
                if k == 'exc':
                    outs.append((s, k, vals))
                    continue
                cur = [(s, 'next', NONE)]
                for e, v in zip(t.elts, vals):
                    if isinstance(e, ast.Starred):
                        e = e.value
                    nxt = []
                    for s2, k2, v2 in cur:
                        if k2 != 'next':
                            nxt.append((s2, k2, v2))
                        else:
                            nxt += self.assign(e, v, s2, ctx)
                    cur = nxt
                outs += cur
            return outs
        if isinstance(t, ast.Starred):
            return self.assign(t.value, val, st, ctx)
        raise I.Limit('assignment target')

    def unpack_star(self, st, v, elts, node, ctx):
        """first, *rest = v"""
        i = [isinstance(e, ast.Starred) for e in elts].index(True)
        after = len(elts) - i - 1
        segs = self.segs_of(st, v)
        if segs is not None and all(s[0] == 'item' for s in segs):
            if len(segs) < len(elts) - 1:
                return [(st, 'exc', self.exc_value(
                    'ValueError', (const('unpack'),), app('unpack', v)))]
            vals = [s[1] for s in segs]
            cut = len(vals) - after
            mid = mk('seq', 'list', tuple(('item', x) for x in vals[i:cut]))
            return [(st, 'next', vals[:i] + [mid] + vals[cut:])]
        if segs is None and self.kind(st, v).rstrip('?') in (
                'list', 'tuple', 'any') and not self.is_map(st, v):
            return [(st, 'next', [app('elemat', v, const(j))
                                 for j in range(i)] + [
                app('slice', v, const(i),
                    const(-after) if after else NONE)] + [
                app('elemat', v, const(j - after)) for j in range(after)])]
        top = mk('top', 'starred unpacking')
        if len(elts) != 2:
            return [(st, 'next', [top for e in elts])]
        # first, *rest or *rest, last
        out = []
        for r in self.iterate(st, v, node, ctx):
            if not r.ok:
                out.append((r.st, 'exc', r.val))
                continue
            s = r.st.copy()
            l = self.alloc(s, 'list')
            s.lists[l] = r.val
            for x in self.getitem(s, l, const(0 if i else -1), node, ctx):
                if x.ok:
                    out.append((x.st, 'next',
                                [x.val, top] if i else [top, x.val]))
                else:
                    out.append((x.st, 'exc', self.exc_value(
                        'ValueError', (const('unpack'),), app('unpack', v))))
        return out

    def unpack_val(self, st, v, n, node, ctx):
        segs = self.segs_of(st, v)
        if segs is not None and all(s[0] == 'item' for s in segs):
            if len(segs) != n:
                return [(st, 'exc', self.exc_value(
                    'ValueError', (const('unpack'),), app('unpack', v)))]
            return [(st, 'next', [s[1] for s in segs])]
        if v.tag == 'const' and v.a[0] != 'str':
            return [(st, 'exc', self.exc_value('TypeError', (),
                                               app('unpack', v)))]
        return [(st, 'next', [app('unpack', self.freeze(st, v), const(i))
                              for i in range(n)])]

    def st_AugAssign(self, n, st, ctx):
        t = n.target
        load = self.as_load(t)
        out = []
        for r in self.ev(load, st, ctx):
            if not r.ok:
                out.append((r.st, 'exc', r.val))
                continue
            for r2 in self.ev(n.value, r.st, ctx):
                if not r2.ok:
                    out.append((r2.st, 'exc', r2.val))
                    continue
                op = type(n.op).__name__
                cur, val = r.val, r2.val
                if op == 'Add' and (cur in r2.st.lists or
                                    self.kind(r2.st, cur) == 'list') and \
                        cur.tag != 'tup':
                    for r3 in self.list_method(r2.st, cur, 'extend', [val],
                                               {}, n, ctx):
                        out.append((r3.st, 'next', NONE) if r3.ok else
                                   (r3.st, 'exc', r3.val))
                    continue
                if op == 'BitOr' and self.kind(r2.st, cur) in ('set', 'dict'):
                    for r3 in self.call_method(r2.st, cur, 'update', [val],
                                               {}, n, ctx):
                        out.append((r3.st, 'next', NONE) if r3.ok else
                                   (r3.st, 'exc', r3.val))
                    continue
                for r3 in self.binop(r2.st, op, cur, val, n, ctx):
                    if not r3.ok:
                        out.append((r3.st, 'exc', r3.val))
                        continue
                    out += self.assign(t, r3.val, r3.st, ctx)
        return out

    def as_load(self, t):
        if isinstance(t, ast.Name):
            x = ast.Name(t.id, ast.Load())
        elif isinstance(t, ast.Attribute):
            x = ast.Attribute(t.value, t.attr, ast.Load())
        else:
            x = ast.Subscript(t.value, t.slice, ast.Load())
        return ast.copy_location(x, t)

    def st_Delete(self, n, st, ctx):
        outs = [(st, 'next', NONE)]
        for t in n.targets:
            nxt = []
            for s, k, v in outs:
                if k != 'next':
                    nxt.append((s, k, v))
                    continue
                nxt += self.del_target(t, s, ctx)
            outs = nxt
        return outs

    def del_target(self, t, st, ctx):
        ok = lambda s, _: [(s, 'next', NONE)]       # noqa: E731
        if isinstance(t, ast.Name):
            st = st.copy()
            if ctx.frame is not None and t.id in st.frames[ctx.frame][0]:
                st.delvar(ctx.frame, t.id)
            return [(st, 'next', NONE)]
        if isinstance(t, ast.Attribute):
            return self.fin(self.ev(t.value, st, ctx), lambda s, o: self.fin(
                self.delete(s, o, t.attr, t, ctx), ok))
        if isinstance(t, ast.Subscript):
            return self.fin(
                self.seq_ev([t.value, t.slice], st, ctx),
                lambda s, v: self.fin(self.delitem(s, v[0], v[1], t, ctx),
                                      ok))
        if isinstance(t, (ast.Tuple, ast.List)):
            outs = [(st, 'next', NONE)]
            for e in t.elts:
                nxt = []
                for s, k, v in outs:
                    nxt += self.del_target(e, s, ctx) if k == 'next' else \
                        [(s, k, v)]
                outs = nxt
            return outs
        raise I.Limit('del target')

    # -- branches ----------------------------------------------------------------

    def st_If(self, n, st, ctx):
        def f(s, v):
            out = []
            for s2, t in self.branch(s, v, ctx):
                out += self.block(n.body if t else n.orelse, s2, ctx)
            return self.idle(s, out)
        return self.idle(st, self.fin(self.ev(n.test, st, ctx), f))

    @staticmethod
    def idle(st, outs):
        """Outcomes of a statement, one if nothing depends on its tests."""
        if len(outs) < 2:
            return outs
        for s, k, v in outs:
            if k != 'next' or s.trace is not st.trace and s.trace != st.trace:
                return outs
            for a in ('frames', 'cells', 'lists', 'maps', 'epochs', 'taint',
                      'loops', 'counts', 'pending', 'kinds', 'cells0'):
                x, y = getattr(s, a), getattr(st, a)
                if x is not y and x != y:
                    return outs
        return [(st, 'next', NONE)]

    def st_Raise(self, n, st, ctx):
        if n.exc is None:
            if self.excs:
                return [(st, 'exc', self.excs[-1])]
            return [(st, 'exc', self.exc_value('RuntimeError'))]

        def f(s, v):
            if v.tag in ('bi', 'cls'):
                return self.fin(self.call(s, v, [], {}, n, ctx),
                                lambda s2, v2: [(s2, 'exc', v2)])
            return [(s, 'exc', v)]
        return self.fin(self.ev(n.exc, st, ctx), f)

    # -- loops -----------------------------------------------------------------

    def st_For(self, n, st, ctx):
        out = []
        for r in self.ev(n.iter, st, ctx):
            if not r.ok:
                out.append((r.st, 'exc', r.val))
                continue
            for r2 in self.iterate(r.st, r.val, n.iter, ctx, live=True):
                if not r2.ok:
                    out.append((r2.st, 'exc', r2.val))
                    continue

                def one(s, val):
                    res = []
                    for s2, k2, v2 in self.assign(n.target, val, s, ctx):
                        if k2 != 'next':
                            res.append((s2, k2, v2))
                        else:
                            res += self.block(n.body, s2, ctx)
                    return res
                for s, k, v in self.loop_segs(r2.st, r2.val, one, ctx, n,
                                              self.live_of(r.val)):
                    if k == 'brk':
                        out.append((s, 'next', NONE))
                    elif k == 'next' and n.orelse:
                        out += self.block(n.orelse, s, ctx)
                    else:
                        out.append((s, k, v))
        return out

    def loop_segs(self, st, segs, one, ctx, node, live):
        outs = []
        states = [st]
        for seg in segs:
            nxt = []
            for s in states:
                if seg[0] == 'item':
                    res = one(s, seg[1])
                elif seg[0] == 'many':
                    res = self.summarise(s, seg, one, ctx, node, live, False)
                elif seg[0] == 'rev' and seg[1][0] == 'many':
                    res = self.summarise(s, seg[1], one, ctx, node, live,
                                         True)
                elif seg[0] == 'sorted' and len(seg[1]) == 1 and \
                        seg[1][0][0] == 'many':
                    m = seg[1][0]
                    src = app('sorted', m[1], seg[2], seg[3])
                    res = self.summarise(s, ('many', src, m[2], m[3]), one,
                                         ctx, node, live, False)
                elif seg[0] == 'unordered' and len(seg[1]) == 1 and \
                        seg[1][0][0] == 'many':
                    m = seg[1][0]
                    res = self.summarise(
                        s, ('many', app('unordered', m[1]), m[2], m[3]),
                        one, ctx, node, live, False)
                else:
                    src = mk('seq', 'list', (seg,))
                    res = self.summarise(s, self.many(src), one, ctx, node,
                                         live, False)
                for s2, k, v in res:
                    if k in ('next', 'cont'):
                        nxt.append(s2)
                    else:
                        outs.append((s2, k, v))
            states = nxt
            if len(states) + len(outs) > self.MAX_STATES:
                raise I.Limit('state limit')
        return outs + [(s, 'next', NONE) for s in states]

    active_elems = ()

    def summarise(self, st, m, one, ctx, node, live, reverse):
        src, elem, alts = m[1], m[2], m[3]
        depth = self.active_elems.count(elem)
        if depth:
            e2 = app('elem', src, const(depth))
            alts = subst(alts, {elem: e2})
            orig, elem = elem, e2
        saved = self.active_elems
        self.active_elems = saved + (m[2],)

        def once(state):
            outs = []
            for guards, items in alts:
                s = state.copy()
                dead = False
                for p, val in guards:
                    d = self.decide(s, p) if p.tag == 'app' else None
                    if d is not None and d != val:
                        dead = True
                        break
                    s.facts[p] = val
                if dead:
                    continue
                states = [s]
                for it in items:
                    nxt = []
                    for x in states:
                        if it[0] == 'item':
                            res = one(x, it[1])
                        else:
                            res = self.loop_segs(x, (it,), one, ctx, node,
                                                 live)
                        for s2, k, v in res:
                            if k in ('next', 'cont'):
                                nxt.append(s2)
                            else:
                                outs.append((s2, k, v))
                    states = nxt
                outs += [(x, 'next', NONE) for x in states]
            return outs
        try:
            return self.fixpoint(st, once, src, elem, ctx, node, live,
                                 reverse)
        finally:
            self.active_elems = saved

    def unendless(self, n):
        """while True with its exit at the beginning, as a loop with that
        condition."""
        if not (isinstance(n.test, ast.Constant) and n.test.value) or \
                n.orelse or not n.body:
            return None
        f = n.body[0]
        if not isinstance(f, ast.If):
            return None

        def leaving(body):
            """Statements doing nothing but leaving the loop in the end."""
            return body and isinstance(
                body[-1], (ast.Break, ast.Return, ast.Raise)) and not any(
                isinstance(x, (ast.Break, ast.Continue))
                for y in body[:-1] for x in ast.walk(y))
        t = f.test
        if leaving(f.body):
            end, rest = f.body, f.orelse
            if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                t = t.operand
            elif isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                    isinstance(t.ops[0], (ast.Is, ast.IsNot)):
                t = ast.Compare(t.left, [ast.IsNot() if isinstance(
                    t.ops[0], ast.Is) else ast.Is()], t.comparators)
            else:
                t = ast.UnaryOp(ast.Not(), t)
        elif leaving(f.orelse):
            end, rest = f.orelse, f.body
        else:
            return None
        w = ast.While(t, rest + n.body[1:] or [ast.Pass()],
                      end[:-1] if isinstance(end[-1], ast.Break) else end)
        for x in (t, w):
            ast.copy_location(x, n)
        ast.fix_missing_locations(w)
        return w

    @staticmethod
    def unnext(n):
        """while True with next() at the beginning, as a for loop."""
        if not (isinstance(n.test, ast.Constant) and n.test.value) or \
                n.orelse or not n.body:
            return None
        t = n.body[0]
        if not isinstance(t, ast.Try) or t.finalbody or len(t.body) != 1 or \
                len(t.handlers) != 1:
            return None
        h, a = t.handlers[0], t.body[0]
        if h.name or not isinstance(h.type, ast.Name) or \
                h.type.id != 'StopIteration':
            return None
        if not isinstance(a, ast.Assign) or len(a.targets) != 1:
            return None
        v = a.value
        if not isinstance(v, ast.Call) or len(v.args) != 1 or v.keywords or \
                not isinstance(v.func, ast.Name) or v.func.id != 'next' or \
                not isinstance(v.args[0], ast.Name):
            return None
        end = h.body[-1]
        if not isinstance(end, (ast.Break, ast.Return, ast.Raise)):
            return None
        if any(isinstance(x, (ast.Break, ast.Continue)) for y in h.body
               for x in ast.walk(y) if x is not end):
            return None
        w = ast.For(a.targets[0], v.args[0],
                    t.orelse + n.body[1:] or [ast.Pass()],
                    h.body[:-1] if isinstance(end, ast.Break) else h.body)
        ast.copy_location(w, n)
        w.type_comment = None
        ast.fix_missing_locations(w)
        return w

    ROUNDS = 8

    def unrolled(self, n, st, once, ctx):
        """Outcomes of a loop whose condition is a constant every time it is
        evaluated, None if it is not."""
        if isinstance(n.test, ast.Constant):
            return None
        live, outs = [st], []
        for i in range(self.ROUNDS):
            nxt = []
            for s in live:
                for r in self.ev(n.test, s, ctx):
                    if not r.ok or r.val.tag not in ('const', 'tup'):
                        return None
                for s2, k, v in once(s):
                    (nxt if k == 'next' else outs).append(
                        s2 if k == 'next' else (
                            s2, 'next' if k == 'done' else k, v))
            if not nxt:
                return outs
            live = nxt
            if len(live) > self.ROUNDS:
                return None
        return None

    _endless = {}

    def st_While(self, n, st, ctx):
        if n not in self._endless:
            self._endless[n] = self.unnext(n) or self.unendless(n)
        other = self._endless[n]
        if isinstance(other, ast.For):
            return self.st_For(other, st, ctx)
        if other is not None:
            return self.st_While(other, st, ctx)

        def once(state):
            outs = []
            for r in self.ev(n.test, state, ctx):
                if not r.ok:
                    outs.append((r.st, 'exc', r.val))
                    continue
                for s, t in self.branch(r.st, r.val, ctx):
                    if not t:
                        outs.append((s, 'done', NONE))
                        continue
                    for s2, k, v in self.block(n.body, s, ctx):
                        outs.append((s2, 'next' if k == 'cont' else k, v))
            return outs
        outs = self.unrolled(n, st, once, ctx)
        if outs is None:
            outs = self.fixpoint(st, once, None, None, ctx, n, None, False)
        res = []
        for s, k, v in outs:
            if k == 'brk':
                res.append((s, 'next', NONE))
            elif k == 'next' and n.orelse:
                res += self.block(n.orelse, s, ctx)
            else:
                res.append((s, k, v))
        return res

    # the fixpoint -------------------------------------------------------------

    def changes(self, a, b):
        """What differs in state b that was present in state a."""
        out = set()
        for f, (vs, p) in a.frames.items():
            vs2 = b.frames[f][0]
            if vs is vs2:
                continue
            for k in set(vs) | set(vs2):
                if vs.get(k) is not vs2.get(k):
                    out.add(('var', f, k))
        if a.cells is not b.cells:
            for k in b.cells:
                if a.cells.get(k) is not b.cells[k]:
                    out.add(('cell', k))
        for r, segs in a.lists.items():
            if b.lists.get(r) != segs:
                out.add(('list', r))
        for r in set(a.maps) | set(b.maps):
            if r.tag == 'ref' and r not in a.maps:
                continue        # allocated inside
            if a.maps.get(r, self.map_log(a, r)) != b.maps.get(
                    r, self.map_log(b, r)):
                out.add(('map', r))
        for o in b.epochs:
            if a.epochs.get(o, 0) != b.epochs[o]:
                out.add(('epoch', o))
        return out

    def fixpoint(self, st, once, src, elem, ctx, node, live, reverse):
        uid = next(self.ids)
        changed = set()
        base = len(st.trace)
        mark = I.Ev('loopmark', NONE, (), (), NONE, ())
        toks = {}
        rounds = 0
        while True:
            rounds += 1
            if rounds > 8:
                raise I.Limit('loop does not stabilise')
            g = self.widen(st, changed, uid, elem, toks)
            g.trace = st.trace + (mark,)
            born = next(self.ids)
            outs = once(g)
            back = [s for s, k, v in outs if k in ('next', 'cont')]
            new = set()
            for s in back:
                new |= self.changes(g, s)
            # neither are those of objects made by the current round
            new = set(c for c in new if not (
                c[0] == 'cell' and c[1][0].tag == 'ref' and
                c[1][0].a[0] > born))
            # cells of the current element are not carried over
            if elem is not None:
                new = set(c for c in new if not (
                    c[0] == 'cell' and mentions(c[1][0], elem)) and not (
                    c[0] in ('map', 'epoch', 'list') and
                    mentions(c[1], elem)))
            if new <= changed:
                break
            changed |= new
        # ------------------------------------------------------------------
        back = [s for s, k, v in outs if k in ('next', 'cont')]
        exits = [(s, k, v) for s, k, v in outs if k not in ('next', 'cont')]
        where = self.where(node, ctx)
        lvs = {}
        for c in changed:
            if c[0] == 'var' and (c in toks):
                lvs[c] = toks[c]
            elif c[0] == 'cell' and c in toks:
                lvs[c] = toks[c]
        chain = None
        is_while = src is None
        if is_while:
            src, elem, lv = self.chain_of(st, g, back, changed, toks, uid,
                                          lvs)
            if lv is not None:
                chain = lv
        ren = {chain: elem} if chain is not None else {}

        def delta(s):
            gf = g.facts
            d = frozenset((p, val) for p, val in s.facts.items()
                          if gf.get(p) is not val and
                          not is_app(p, 'nonempty'))
            return d
        salts = set()
        for s in back:
            ev = s.trace[base + 1:]
            salts.add((subst(delta(s), ren), subst(ev, ren)))
        salts = frozenset(salts)
        lists, maps = {}, {}
        for c in changed:
            if c[0] == 'list':
                lists[c[1]] = self.list_summary(c[1], st, g, back, delta, ren,
                                                src, elem, uid, reverse)
            elif c[0] == 'map':
                maps[c[1]] = self.map_summary(c[1], st, g, back, delta, ren,
                                              src, elem, uid)
        res = []
        once_only = not back
        # normal exhaustion
        ev = I.Loop(src, elem, salts, live, False, where,
                    const("reversed") if reverse else NONE)
        finals = self.finals(st, g, back, changed, lvs, src, elem, uid,
                             reverse, ren, chain)
        if not is_while:
            e = st.copy()
            e.trace = st.trace + (ev,)
            self.settle(e, st, back, changed, lists, maps, finals, elem, ren)
            if once_only:
                e.facts[app('nonempty', src)] = False
            if e.facts.get(app('nonempty', src)) is False and \
                    st.facts.get(app('nonempty', src)) is True:
                pass
            elif not (once_only and self.src_nonempty(st, src)):
                res.append((e, 'next', NONE))
        for s, k, v in exits:
            s = s.copy()
            part = I.Loop(src, elem, salts, live, k != "done", where,
                          const("reversed") if reverse else NONE)
            for r, (done, pre) in lists.items():
                if r in s.lists:
                    s.lists[r] = self.replace_acc(s.lists[r], uid,
                                                  done if k == 'done'
                                                  else pre)
            for r, (done, pre) in maps.items():
                if r in s.maps:
                    s.maps[r] = self.replace_acc(s.maps[r], uid,
                                                 done if k == 'done' else pre)
            tail = s.trace[base + 1:]
            s.trace = st.trace + ((part,) if (salts or k == 'done') else ()) \
                + tail
            m = {}
            if chain is not None:
                m[chain] = app('end', src) if k == 'done' else \
                    app('found', src)
            elif elem is not None:
                if once_only:
                    m[elem] = app('last' if reverse else 'first', src)
                    s.facts[app('nonempty', src)] = True
                else:
                    m[elem] = app('found', src if not reverse else
                                  app('reversed', src))
            if k == 'done':
                for c, val in finals.items():
                    if c in lvs and lvs[c] is not chain:
                        m.setdefault(lvs[c], val)
            if m:
                v = self.subst_state(s, m, v)
            res.append((s, 'next' if k == 'done' else k, v))
        return res

    def src_nonempty(self, st, src):
        if st.facts.get(app('nonempty', src)) is True:
            return True
        if is_app(src, 'chain'):
            return self.nonnull(st, src.a[1])
        return False

    def widen(self, st, changed, uid, elem, toks):
        g = st.copy()
        for c in changed:
            if c[0] == 'var':
                _, f, name = c
                if name not in g.frames[f][0]:
                    # first bound inside of the loop
                    if c not in toks:
                        toks[c] = app('loopvar', const(uid), const(name))
                    continue
                if c not in toks:
                    toks[c] = app('loopvar', const(uid), const(name))
                    init = g.frames[f][0][name]
                    k = self.kind(st, init)
                    if k in ('str', 'int'):
                        g.kinds[toks[c]] = k
                init = st.frames[f][0][name]
                k = self.kind(st, init)
                if k in ('str', 'int'):
                    g.kinds[toks[c]] = k
                g.setvar(f, name, toks[c])
            elif c[0] == 'cell':
                if c[1] in g.cells:
                    if c not in toks:
                        toks[c] = app('loopvar', const(uid),
                                      tup(c[1][0], const(c[1][1])
                                          if isinstance(c[1][1], str)
                                          else c[1][1]))
                    g.cells[c[1]] = toks[c]
                else:
                    if c not in toks:
                        toks[c] = app('loopvar', const(uid),
                                      tup(c[1][0], const(c[1][1])
                                          if isinstance(c[1][1], str)
                                          else c[1][1]))
                    g.cells[c[1]] = toks[c]
            elif c[0] == 'list':
                g.lists[c[1]] = st.lists[c[1]] + (('acc', uid, elem),)
                g.facts.pop(app('truthy', c[1]), None)
            elif c[0] == 'map':
                g.maps[c[1]] = self.map_log(st, c[1]) + (('acc', uid, elem),)
                g.facts.pop(app('truthy', c[1]), None)
            elif c[0] == 'epoch':
                g.epochs[c[1]] = 1000 + uid
        return g

    def chain_of(self, st, g, back, changed, toks, uid, lvs):
        """Name a while loop that walks one variable along a step function."""
        cand = []
        for c in changed:
            if c not in toks:
                continue
            if c[0] == 'var' and c[2] not in st.frames[c[1]][0]:
                continue
            tok = toks[c]
            steps = set()
            ends = [s.frames[c[1]][0].get(c[2]) if c[0] == 'var'
                    else s.cells.get(c[1]) for s in back]
            real = set(x for x in ends if x is not None and x is not NONE and
                       is_app(x, 'attr') and x.a[1] is tok)
            for s, step in zip(back, ends):
                if step is NONE:
                    for x in real:
                        # ended although there is another value
                        if self.decide(s, self.pred2('is', x, NONE)) is False \
                                and not any(t and (
                                    is_app(f, 'is') and mentions(f, tok) or
                                    is_app(f, 'eq') and set(f.a[1:]) == {
                                        x, tok} or
                                    is_app(f, 'in') and f.a[1] in (x, tok))
                                    for f, t in s.facts.items()):
                            step = app('falseend', x)
                if step is NONE:
                    # ended although there is a value, a false one
                    for f, t in s.facts.items():
                        if t is False and is_app(f, 'truthy') and \
                                is_app(f.a[1], 'attr') and \
                                f.a[1].a[1] is tok and self.decide(
                                    s, self.pred2('is', f.a[1], NONE)) \
                                is not True:
                            step = app('falseend', f.a[1])
                steps.add(step)
            if None in steps or steps == {tok}:
                continue
            others = [t for x, t in toks.items() if t is not tok]
            if any(mentions_any(x, others) for x in steps):
                continue
            if any(mentions(x, tok) for x in steps):
                cand.append((c, tok, steps))
        if len(cand) == 1:
            c, tok, steps = cand[0]
            init = st.frames[c[1]][0][c[2]] if c[0] == 'var' else \
                st.cells.get(c[1], app('attr', c[1][0], const(c[1][1])))
            steps = frozenset(subst(x, {tok: HOLE}) for x in steps)
            src = app('chain', init, steps)
            return src, app('elem', src), tok
        src = app('while', const(uid))
        return src, app('elem', src), None

    def list_summary(self, r, st, g, back, delta, ren, src, elem, uid,
                     reverse):
        """(segments after exhaustion, segments at an early exit) replacing
        the accumulator marker."""
        acc = ('acc', uid, g.lists[r][-1][2] if g.lists[r] and
               g.lists[r][-1][0] == 'acc' else None)
        base = g.lists[r]
        if not base or base[-1][:2] != ('acc', uid):
            bad = (('unknown', uid),)
            return bad, bad
        acc = base[-1]
        base = base[:-1]
        alts = set()
        front = set()
        for s in back:
            segs = s.lists[r]
            n = len(base)
            if segs[:n] == base and len(segs) > n and segs[n] == acc:
                suf = segs[n + 1:]
                if suf:
                    front.add('back')
                alts.add((delta(s), suf))
            elif len(segs) >= n + 1 and segs[len(segs) - n - 1:] == \
                    base + (acc,):
                front.add('front')
                alts.add((delta(s), segs[:len(segs) - n - 1]))
            else:
                bad = (('unknown', uid),)
                return bad, bad
        if len(front) > 1:
            bad = (('unknown', uid),)
            return bad, bad
        alts = frozenset(subst(tuple(alts), ren))
        alts = self.merge_alts(alts)
        if front == {'front'}:
            many = ('many', src, elem, alts)
            seg = many if reverse else ('rev', many)
            return (('front', seg, len(base)),), (('unknown', uid),)
        seg = ('many', src, elem, alts)
        if all(not a[1] for a in alts):
            return (), ()
        if reverse:
            seg = ('rev', seg)
        return (seg,), (('part', seg),)

    def merge_alts(self, alts):
        """Drop guards when every alternative adds the same segments."""
        if len(set(a[1] for a in alts)) == 1:
            return frozenset([((), next(iter(alts))[1])])
        # order guards deterministically
        return frozenset((tuple(sorted(g, key=repr)), segs)
                         for g, segs in alts)

    def map_summary(self, r, st, g, back, delta, ren, src, elem, uid):
        base = g.maps.get(r, ())
        if not base or base[-1][:2] != ('acc', uid):
            bad = (('unknown', uid),)
            return bad, bad
        alts = set()
        n = len(base)
        for s in back:
            log = s.maps.get(r, ())
            if log[:n] != base:
                bad = (('unknown', uid),)
                return bad, bad
            alts.add((delta(s), log[n:]))
        alts = self.merge_alts(frozenset(subst(tuple(alts), ren)))
        return (('loop', src, elem, alts),), (('looppart', src, elem, alts),)

    def replace_acc(self, segs, uid, by):
        out = []
        for s in segs:
            if s[0] == 'acc' and s[1] == uid:
                for b in by:
                    if b[0] == 'front':
                        return (b[1],) + tuple(out[:b[2]]) + tuple(
                            x for x in segs[len(out) + 1:])
                    out.append(b)
            else:
                out.append(s)
        return tuple(out)

    def finals(self, st, g, back, changed, lvs, src, elem, uid, reverse, ren,
               chain):
        """Value of changed variables after exhaustion."""
        out = {}
        last = app('first' if reverse else 'last', src)
        for c in changed:
            if c[0] not in ('var', 'cell'):
                continue
            if c[0] == 'var':
                init = st.frames[c[1]][0].get(c[2])
                ends = set(s.frames[c[1]][0].get(c[2]) for s in back)
            else:
                init = st.cells.get(c[1])
                if init is None and isinstance(c[1][1], str):
                    init = app('attr', c[1][0], const(c[1][1]))
                ends = set(s.cells.get(c[1]) for s in back)
            tok = lvs.get(c) or app('loopvar', const(uid), const(str(c[2:])))
            alltoks = list(lvs.values())
            if chain is not None and tok is chain:
                continue
            if None in ends:
                out[c] = None if ends == {None} else mk('top', 'loop variable')
                continue
            val = None
            if len(ends) == 1:
                e = next(iter(ends))
                if not mentions_any(e, [t for t in alltoks
                                        if t is not chain]):
                    # overwritten by a function of the element
                    v = subst(subst(e, ren), {elem: last}) \
                        if elem is not None else e
                    if init is None or self.src_nonempty(st, src):
                        val = v
                    elif v is init:
                        val = v
                    else:
                        val = app('lastor', src, v, init)
                elif is_app(e, 'cat') and e.a[1] is tok and not any(
                        mentions_any(x, alltoks) for x in e.a[2:]) and \
                        chain is None:
                    seg = ('many', src, elem, frozenset([((), tuple(
                        ('item', x) for x in (self.cat(e.a[2:]),)))]))
                    if reverse:
                        seg = ('rev', seg)
                    val = self.cat([init, app('join', const(''), mk(
                        'seq', 'list', (seg,)))])
                elif mentions(e, tok) and not mentions_any(
                        e, [t for t in alltoks if t is not tok]):
                    step = subst(e, {tok: HOLE})
                    if init is const(0) and step is self.num(
                            [(HOLE, 1)], 1) and is_app(src, 'keys') and \
                            len(src.a) == 2:
                        # counting
                        val = app('len', src)
                    else:
                        val = app('fold', src if not reverse else
                                  app('reversed', src), init
                                  if init is not None else NONE, step)
            elif len(ends) > 1 and all(
                    e is tok or (is_app(e, 'cat') and e.a[1] is tok and
                                 not any(mentions_any(x, alltoks)
                                         for x in e.a[2:]))
                    for e in ends) and chain is None:
                # conditional concatenation
                al = set()
                for s in back:
                    e = s.frames[c[1]][0].get(c[2]) if c[0] == 'var' else \
                        s.cells.get(c[1])
                    gd = tuple(sorted(((p, v) for p, v in s.facts.items()
                                       if g.facts.get(p) is not v), key=repr))
                    al.add((gd, () if e is tok else
                            (('item', self.cat(e.a[2:])),)))
                seg = ('many', src, elem, self.merge_alts(frozenset(al)))
                if reverse:
                    seg = ('rev', seg)
                val = self.cat([init, app('join', const(''), mk(
                    'seq', 'list', (seg,)))])
            if val is None:
                val = app('loopend', src, tok)
            out[c] = val
        return out

    def settle(self, e, st, back, changed, lists, maps, finals, elem, ren):
        for c in changed:
            if c[0] == 'var':
                v = finals.get(c)
                if v is None:
                    if c[2] in e.frames[c[1]][0]:
                        e.delvar(c[1], c[2])
                else:
                    e.setvar(c[1], c[2], v)
            elif c[0] == 'cell':
                e.cells[c[1]] = finals[c] if finals.get(c) is not None else \
                    mk('top', 'loop cell')
                e.facts.pop(app('hasattr', c[1][0], const(c[1][1])
                                if isinstance(c[1][1], str) else c[1][1]),
                            None)
            elif c[0] == 'list':
                done = lists[c[1]][0]
                e.lists[c[1]] = self.replace_acc(
                    st.lists[c[1]] + (('acc', -1),), -1, done) \
                    if True else None
                e.facts.pop(app('truthy', c[1]), None)
            elif c[0] == 'map':
                e.maps[c[1]] = self.map_log(st, c[1]) + maps[c[1]][0]
                e.facts.pop(app('truthy', c[1]), None)
            elif c[0] == 'epoch':
                e.epochs[c[1]] = 500000 + next(self.ids)
        # attributes every iteration sets on its element
        if back and elem is not None:
            common = None
            for s in back:
                cs = set((k, v) for k, v in s.cells.items()
                         if mentions(k[0], elem) and
                         st.cells.get(k) is not v)
                common = cs if common is None else common & cs
            for k, v in common or ():
                e.cells[k] = v

    def subst_state(self, st, m, val):
        """Rename tokens in everything the path can observe."""
        for f in list(st.frames):
            vs, p = st.frames[f]
            nv = None
            for k, v in vs.items():
                if isinstance(v, V):
                    w = subst(v, m)
                    if w is not v:
                        if nv is None:
                            nv = dict(vs)
                        nv[k] = w
            if nv is not None:
                st.frames[f] = (nv, p)
        st.cells = dict(((subst(k[0], m), subst(k[1], m)
                          if isinstance(k[1], V) else k[1]), subst(v, m))
                        for k, v in st.cells.items())
        st.facts = dict((subst(k, m), v) for k, v in st.facts.items())
        st.lists = dict((r, subst(x, m)) for r, x in st.lists.items())
        st.maps = dict((subst(r, m), subst(x, m))
                       for r, x in st.maps.items())
        st.memo = dict((subst(k, m), subst(v, m)
                        if not isinstance(v, bool) else v)
                       for k, v in st.memo.items())
        st.kinds = dict((subst(k, m), v) for k, v in st.kinds.items())
        st.epochs = dict((subst(k, m), v) for k, v in st.epochs.items())
        st.trace = tuple(self.subst_ev(e, m) for e in st.trace)
        return subst(val, m) if isinstance(val, V) else val

    def subst_ev(self, e, m):
        if isinstance(e, I.Loop):
            return e
        return I.Ev(e.kind, subst(e.f, m), subst(e.args, m), subst(e.kw, m),
                    subst(e.res, m), e.where)

    # -- try -------------------------------------------------------------------

    def handler_class(self, h, st, ctx):
        if h.type is None:
            return bi('BaseException')
        for r in self.ev(h.type, st, ctx):
            if r.ok:
                return r.val
        return mk('top', 'handler')

    def class_names(self, v):
        if v.tag == 'tup':
            out = set()
            for x in v.a:
                out |= self.class_names(x)
            return out
        if v.tag in ('bi', 'cls'):
            return {v.a[0]}
        return {'Exception'}

    def st_Try(self, n, st, ctx):
        classes = [self.handler_class(h, st, ctx) for h in n.handlers]
        names = set()
        for c in classes:
            names |= self.class_names(c)
        if n.finalbody:
            self.handlers.append(None)
        try:
            if n.handlers:
                self.handlers.append(frozenset(names))
            try:
                body = self.block(n.body, st, ctx)
            finally:
                if n.handlers:
                    self.handlers.pop()
            outs = []
            for s, k, v in body:
                if k == 'exc':
                    outs += self.handle(n.handlers, classes, s, v, ctx)
                elif k == 'next' and n.orelse:
                    outs += self.block(n.orelse, s, ctx)
                else:
                    outs.append((s, k, v))
        finally:
            if n.finalbody:
                self.handlers.pop()
        if not n.finalbody:
            return outs
        res = []
        for s, k, v in outs:
            for s2, k2, v2 in self.block(n.finalbody, s, ctx):
                if k2 == 'next':
                    res.append((s2, k, v))
                else:
                    res.append((s2, k2, v2))
        return res

    st_TryStar = st_Try

    def handle(self, handlers, classes, st, e, ctx):
        outs = []
        cur = [st]
        for h, c in zip(handlers, classes):
            nxt = []
            for s in cur:
                d = self.exc_isa(s, e, c) if c.tag != 'top' else None
                todo = []
                if d is None:
                    s1, s2 = s.copy(), s.copy()
                    self.note_exc(s1, e, c, True)
                    self.note_exc(s2, e, c, False)
                    todo.append(s1)
                    nxt.append(s2)
                elif d:
                    todo.append(s)
                else:
                    nxt.append(s)
                for s1 in todo:
                    if h.name:
                        s1 = self.assign_name(h.name, e, s1, ctx)
                    self.excs.append(e)
                    try:
                        res = self.block(h.body, s1, ctx)
                    finally:
                        self.excs.pop()
                    outs += res
            cur = nxt
        return outs + [(s, 'exc', e) for s in cur]

    def note_exc(self, st, e, c, val):
        if c.tag == 'tup':
            if not val:
                for x in c.a:
                    st.facts[app('isinstance', e, x)] = False
            else:
                # the common base of the caught classes
                known = [x for x in c.a if self.exc_isa(st, e, x) is None]
                if len(known) == 1:
                    st.facts[app('isinstance', e, known[0])] = True
                st.facts[app('isinstance', e, c)] = True
            return
        st.facts[app('isinstance', e, c)] = val

    # -- with --------------------------------------------------------------------

    def st_With(self, n, st, ctx):
        return self.with_items(n.items, n, st, ctx)

    def with_items(self, items, n, st, ctx):
        if not items:
            return self.block(n.body, st, ctx)
        it = items[0]
        out = []
        for r in self.ev(it.context_expr, st, ctx):
            if not r.ok:
                out.append((r.st, 'exc', r.val))
                continue
            out += self.with_one(r.st, r.val, it, items[1:], n, ctx)
        return out

    def with_body(self, st, val, it, rest, n, ctx):
        outs = []
        if it.optional_vars is not None:
            start = self.assign(it.optional_vars, val, st, ctx)
        else:
            start = [(st, 'next', NONE)]
        for s, k, v in start:
            if k != 'next':
                outs.append((s, k, v))
            else:
                outs += self.with_items(rest, n, s, ctx)
        return outs

    def with_one(self, st, cm, it, rest, n, ctx):
        if cm.tag == 'cm':
            return self.with_gen(st, cm, it, rest, n, ctx)
        if is_app(cm, 'suppress'):
            c = cm.a[1]
            self.handlers.append(frozenset(self.class_names(c)))
            try:
                body = self.with_body(st, cm, it, rest, n, ctx)
            finally:
                self.handlers.pop()
            outs = []
            for s, k, v in body:
                if k != 'exc':
                    outs.append((s, k, v))
                    continue
                d = self.exc_isa(s, v, c)
                if d is not False:
                    s1 = s.copy()
                    if d is None:
                        self.note_exc(s1, v, c, True)
                    outs.append((s1, 'next', NONE))
                if d is not True:
                    s2 = s.copy()
                    if d is None:
                        self.note_exc(s2, v, c, False)
                    outs.append((s2, 'exc', v))
            return outs
        view = self.view_of(st, cm)
        if view is not None and '__enter__' in view.members and \
                '__exit__' in view.members:
            enter, exit_ = view.members['__enter__'], view.members['__exit__']
            outs = []
            for r in self.call(st, enter, [cm], {}, n, ctx):
                if not r.ok:
                    outs.append((r.st, 'exc', r.val))
                    continue
                self.handlers.append(None)
                try:
                    body = self.with_body(r.st, r.val, it, rest, n, ctx)
                finally:
                    self.handlers.pop()
                for s, k, v in body:
                    if k == 'exc':
                        args = [cm, app('type', v), v, app('traceback', v)]
                    else:
                        args = [cm, NONE, NONE, NONE]
                    for r2 in self.call(s, exit_, args, {}, n, ctx):
                        if not r2.ok:
                            outs.append((r2.st, 'exc', r2.val))
                            continue
                        if k != 'exc':
                            outs.append((r2.st, k, v))
                            continue
                        for s3, t in self.branch(r2.st, r2.val, ctx):
                            outs.append((s3, 'next', NONE) if t else
                                        (s3, 'exc', v))
            return outs
        # opaque context manager (a lock): enter and exit events
        where = self.where(n, ctx)
        s = st.copy()
        s.add(I.Ev('mcall', cm, (const('__enter__'),), (), cm, where))
        if (cm, '__enter__') in self.mhooks:
            self.mhooks[(cm, '__enter__')](s)
        self.handlers.append(None)
        try:
            body = self.with_body(s, app('entered', cm), it, rest, n, ctx)
        finally:
            self.handlers.pop()
        outs = []
        for s, k, v in body:
            s = s.copy()
            s.add(I.Ev('mcall', cm, (const('__exit__'),), (), NONE, where))
            outs.append((s, k, v))
        return outs

    def with_gen(self, st, cm, it, rest, n, ctx):
        fn, args, kw = cm.a
        args = list(args)
        while fn.tag == 'bound':
            args = [fn.a[1]] + args
            fn = fn.a[0]
        if fn.tag != 'fn':
            return self.with_one(st, app('opaquecm', fn), it, rest, n, ctx)
        key = id(self.fns[fn.a[0]].node)

        def ycb(s, yv):
            # the body does not run inside of the generator activation
            idx = None
            for i in range(len(self.stack) - 1, -1, -1):
                if self.stack[i] == key:
                    idx = i
                    break
            if idx is not None:
                self.stack[idx] = ('cm', key)
            excs, self.excs = self.excs, self.excs[:depth]
            try:
                outs = self.with_body(s, yv, it, rest, n, ctx)
            finally:
                self.excs = excs
                if idx is not None:
                    self.stack[idx] = key
            res = []
            for s2, k, v in outs:
                if k == 'next':
                    res.append(I.Res(s2, True, NONE))
                elif k == 'exc':
                    res.append(I.Res(s2, False, v))
                else:
                    s2 = s2.copy()
                    s2.pending = s2.pending + ((k, v),)
                    res.append(I.Res(s2, True, NONE))
            return res
        depth = len(self.excs)
        base = len(st.pending)
        outs = []
        for r in self.call_fn(st, fn, args, dict(kw), n, ctx, ycb=ycb):
            if not r.ok:
                s = r.st
                if len(s.pending) > base:
                    s = s.copy()
                    s.pending = s.pending[:base]
                outs.append((s, 'exc', r.val))
                continue
            if len(r.st.pending) > base:
                s = r.st.copy()
                k, v = s.pending[-1]
                s.pending = s.pending[:base]
                outs.append((s, k, v))
            else:
                outs.append((r.st, 'next', NONE))
        return outs
