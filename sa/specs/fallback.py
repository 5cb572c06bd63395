"""C26: looking up missing keys elsewhere."""
from ..interp import Ctx
from ..lib import (KEY, NEXT, NONE, Loop, State, Unknown, app, bi, const,
                   cval, is_app, is_const, mentions, show, sym)
from .events import fresh, locals_of, root, since

CTX = Ctx('node')
SEARCH = ('getitem', 'mcall')
FK = const('fallback_key')


def C26(c):
    q = c.q('node.behaviors.Fallback')
    me = c.me(q)
    st = fresh(c)
    ps = c.plumb(q, '__getitem__', [me, KEY], st=st.copy())
    search = c.part(lookup, c, q, me, st, ps)
    c.part(nested, c, q, me, st, ps)
    if search is not None:
        c.part(ancestors, c, me, search, ps)


def first(p):
    """The error of the lookup of the key itself, or None."""
    for e in p.trace:
        if not isinstance(e, Loop) and e.kind == 'raise' and e.f is NEXT:
            return e.args[0]
    return None


def searching(p, st):
    """Index of the first event of the search, or None."""
    tr = p.trace
    for i in range(len(st.trace), len(tr)):
        e = tr[i]
        if isinstance(e, Loop):
            if any(x.kind in SEARCH for x, d, l in p_flat([e])):
                return i
        elif e.kind in SEARCH or e.kind == 'call' and is_app(e.f, 'rec'):
            return i
    return None


def p_flat(tr):
    from ..lib import flat
    return flat(tr)


def moved(p, st):
    """Thread local values differing from the beginning."""
    out = []
    for (o, n), v in st.cells.items():
        w = p.st.cells.get((o, n))
        if w is not v and isinstance(n, str):
            out.append('%s is %s afterwards' % (n, show(w) if w is not None
                                                else 'missing'))
    return out


def rec_of(p, st):
    return [e for e, d, l in p_flat(since(p, st))
            if e.kind == 'call' and is_app(e.f, 'rec')]


def lookup(c, q, me, st, ps):
    """Paths of the lookup; returns (function searching, marker)."""
    recs = {}
    for p in ps:
        for e in rec_of(p, st):
            recs.setdefault(e.f, []).append((p, e))
    results = set(e.res for l in recs.values() for p, e in l)

    def j(p):
        out = []
        calls = [e for e in p.calls(NEXT)]
        if len(calls) != 1 or list(calls[0].args) != [me, KEY]:
            return 'the key itself is looked up %s' % (
                'with %s' % show(tuple(calls[0].args)) if len(calls) == 1
                else '%d times' % len(calls))
        err = first(p)
        at = searching(p, st)
        if moved(p, st):
            out += ['the search is not over after the lookup: %s' % x
                    for x in moved(p, st)]
        if at is not None and p.index(calls[0]) > at:
            out.append('fallbacks are searched before the key itself')
        if err is None:
            if at is not None:
                out.append('fallbacks are searched though the key was found')
            elif not p.ok:
                out.append('fails with %s though the key was found' % show(
                    p.val))
            elif p.val is not calls[0].res:
                out.append('returns %s for a key found' % show(p.val))
            return out
        k = p.A.exc_isa(p.st, err, bi('KeyError'))
        if k is not True:
            if k is None and at is None and p.val is err:
                return out
            if at is not None:
                out.append('fallbacks are searched after an error other than '
                           'KeyError')
            elif p.val is not err:
                out.append('an error other than KeyError is replaced')
            return out
        # the key is missing
        if at is None:
            if p.ok:
                out.append('a missing key gives %s' % show(p.val))
                return out
            if p.val is err or p.raises('KeyError') and keyarg(p.val):
                if p.holds(app('is', app('attr', me, const('__parent__')),
                               NONE)) is True:
                    return out
                if not p.events('raise') or p.val is err and not \
                        any(mentions(f, '__parent__') for f in p.st.facts):
                    out.append('no fallback is searched for a missing key')
                return out
            if not p.raises('KeyError') and any(
                    e.args[0] is p.val for e in p.events('raise')
                    if e.f is not NEXT):
                return out
            out.append('a missing key is reported as %s' % show(p.val))
            return out
        if p.ok:
            return out
        # an error
        last = [e for e in p.trace if not isinstance(e, Loop) and
                e.kind == 'raise' and e.args[0] is p.val]
        if p.val is err or p.raises('KeyError') and keyarg(p.val):
            return out
        if last:
            if last[-1].f.tag == 'app' and is_app(p.val.a[2], 'nokey') or \
                    p.raises('KeyError'):
                out.append('the missing key is reported as %s' % show(p.val))
            return out
        if p.val.tag == 'exc' and p.val.a[2].tag == 'app' and \
                p.val.a[2].a[0] == 'raised':
            return out
        out.append('a missing key is reported as %s' % show(p.val))
        return out
    c.each('C26.lookup', ps, j, 'lookup: the key itself is looked up once, '
           'first; found values and errors other than KeyError pass without '
           'search; after the search the state of the thread is as before '
           'on every path; an unsuccessful search ends with KeyError of the '
           'key')
    if not recs:
        raise Unknown('searches otherwise')
    # the function searching: the one called with the parent of the node
    par = app('attr', me, const('__parent__'))
    for f, l in sorted(recs.items(), key=repr):
        fd = [x for x in c.A.fns.values() if x.qual == cval(f.a[1])]
        if not fd:
            continue
        for p, e in l:
            m = bound(fd[0], e)
            if m is not None and par in m.values():
                return f, fd[0], m, p
    raise Unknown('searches otherwise')


def keyarg(v):
    return v.tag == 'exc' and tuple(v.a[1]) == (KEY,)


def bound(fd, e):
    """Arguments of a call by name of parameter."""
    a = fd.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if a.vararg or a.kwarg:
        return None
    m = dict(zip(names, e.args))
    for k, v in e.kw:
        m[k] = v
    for n, d in zip(reversed(names), reversed(fd.defaults)):
        m.setdefault(n, d)
    for n, d in fd.kwdefaults.items():
        m.setdefault(n, d)
    return m


CHANGING = ('setitem', 'delitem', 'mset', 'mdel', 'mupdate', 'mclear',
            'setattr', 'delattr')


def changed(p, nodes):
    """Changes of the nodes given, or of what belongs to them."""
    for e, d, l in p_flat(p.trace):
        if e.kind in CHANGING and root(e.f) in nodes:
            return 'a lookup changes %s' % show(e.f)


def nested(c, q, me, st, ps):
    """Lookups made while searching do not search themselves."""
    states = []
    for p in ps:
        at = searching(p, st)
        if at is None:
            continue
        s = st.copy()
        upto = p.trace[at]
        for (o, n), v in st.cells.items():
            w = v
            for e in p.trace:
                if e is upto:
                    break
                if not isinstance(e, Loop) and e.kind == 'setattr' and \
                        e.f is o and e.args[0] is const(n):
                    w = e.args[1]
            if w.tag == 'ref':
                continue
            s.cells[(o, n)] = w
        key = tuple(sorted((repr(k), repr(v)) for k, v in s.cells.items()))
        if key not in [k for k, x in states]:
            states.append((key, s))
    if not states:
        raise Unknown('searches otherwise')
    for k, s in states:
        qs = c.plumb(q, '__getitem__', [c.me(q, name='other'), KEY],
                     st=s.copy())

        def j(p):
            if first(p) is None:
                return
            if searching(p, s) is not None:
                return 'lookups made by a search start a search of their own'
            if p.ok:
                return 'a missing key gives %s while searching' % show(p.val)
            if moved(p, s):
                return 'a lookup made by the search ends the search'
        c.each('C26.nested', qs, j, 'while a search is going on missing '
               'keys are just missing')


# -- the search ---------------------------------------------------------------

def ancestors(c, me, search, ps):
    f, fd, m, p0 = search
    par = app('attr', me, const('__parent__'))
    roles = {}
    for n, v in m.items():
        segs = p0.segs(v)
        if v is par:
            roles['node'] = n
        elif v.tag == 'ref' and v.a[1] == 'set':
            roles['visited'] = n
        elif segs is not None:
            if 'path' in roles:
                raise Unknown('searches with %s' % show(v))
            roles['path'] = n
        elif mentions(v, 'path'):
            roles['path'] = n
        else:
            raise Unknown('searches with %s = %s' % (n, show(v)))
    if set(roles) != set(['node', 'path', 'visited']):
        raise Unknown('searches with %s' % ', '.join(sorted(m)))

    def start():
        # what the search starts with
        out = []
        segs = p0.segs(m[roles['path']])
        src = app('keys', app('attr', me, const('path')))
        want = ('many', src, app('elem', src), frozenset(
            [((), (('item', app('elem', src)),))]))
        if segs is None:
            raise Unknown('searches path %s' % show(m[roles['path']]))
        if tuple(segs) != (want, ('item', KEY)):
            out.append('another path than the one of the node and the key '
                       'is searched: %s' % show(tuple(segs)))
        vis = m[roles['visited']]
        if vis in (fd.defaults + tuple(fd.kwdefaults.values())):
            out.append('what was searched is remembered for later lookups')
        return out
    c.judge('C26.start', start, p0, text='the search starts with the path '
            'of the node and the key, and nothing searched')

    fn = c.glob(fd.qual)
    N, PATH = sym('n', 'node'), sym('path', 'list')
    VIS = sym('visited', 'set')
    P = app('attr', N, const('__parent__'))
    args = {roles['node']: N, roles['path']: PATH, roles['visited']: VIS}
    seen = app('in', N, VIS)
    marker = []

    def same(v):
        return v is not None and v.get(roles['path']) is PATH and \
            v.get(roles['visited']) is VIS

    # the root: nothing found
    st = State()
    st.facts[app('is', P, NONE)] = True
    st.kinds = dict(st.kinds)

    def root(p):
        if not p.ok:
            return 'the search ends with %s at the root' % show(p.val)
        if [e for e, d, l in p.flat() if e.kind in SEARCH]:
            raise Unknown('searches the root otherwise')
        if not (is_const(p.val) or p.val.tag == 'glob' or
                p.val.tag == 'cls'):
            raise Unknown('gives %s for a root' % show(p.val))
        marker.append(p.val)
        if is_const(p.val):
            return 'nothing found is told by %s, which may be found' % show(
                p.val)
    c.each('C26.root', c.call(fn, [], args, st=st), root,
           'a node without parent has no fallback')

    def up(p, rec, why):
        """Continues with the next ancestor, returning what it finds."""
        if len(rec) != 1:
            return 'the search ends %s' % why if not rec else \
                'ancestors are searched %d times' % len(rec)
        b = bound(fd, rec[0])
        if not same(b):
            if b is None:
                raise Unknown('searches otherwise')
            return 'ancestors are searched with %s' % ', '.join(
                '%s = %s' % (k, show(v)) for k, v in sorted(b.items())
                if v not in (PATH, VIS))
        return None

    def node_of(e):
        return bound(fd, e)[roles['node']]

    def passes(p, rec):
        if p.ok:
            return None if p.val is rec.res else \
                'what is found below ancestors is replaced by %s' % show(
                    p.val)
        if p.passes_on(rec.f):
            return None
        return 'fails with %s' % show(p.val)

    def recs(p):
        return [e for e, d, l in p.flat()
                if e.kind == 'call' and is_app(e.f, 'rec')]

    def visited_before(p):
        if recs(p) and any(e.f is not f for e in recs(p)):
            raise Unknown('searches otherwise')
        if [e for e, d, l in p.flat() if e.kind in SEARCH]:
            return 'a fallback is searched again, maybe for ever'
        r = recs(p)
        bad = up(p, r, 'at an ancestor searched before')
        if bad:
            return bad
        if node_of(r[0]) is not P:
            return 'the search continues with %s' % show(node_of(r[0]))
        return passes(p, r[0])
    st = State()
    st.facts[app('is', P, NONE)] = False
    st.facts[seen] = True
    c.each('C26.once', c.call(fn, [], args, st=st), visited_before,
           'fallbacks are not searched a second time from the same node')

    def unvisited(p):
        r = recs(p)
        if any(e.f is not f for e in r):
            raise Unknown('searches otherwise')
        fk = app('attr', P, FK)
        none = p.st.facts.get(app('hasattr', P, FK)) is False or \
            p.truth(fk) is False or any(
                is_app(k, 'is') and fk in k.a[1:] and v
                for k, v in p.st.facts.items())
        reads = [e for e, d, l in p.flat() if e.kind in SEARCH]
        if none:
            if reads:
                return 'a fallback is searched though the ancestor has none'
            bad = up(p, r, 'at an ancestor without fallback')
            if bad:
                return bad
            if node_of(r[0]) is not P:
                return 'the search continues with %s' % show(node_of(r[0]))
            return passes(p, r[0])
        out = []
        if not reads:
            if p.truth(fk) is None and p.st.facts.get(
                    app('hasattr', P, FK)) is None:
                raise Unknown('fallbacks are found otherwise')
            if p.ok or r:
                return 'the fallback of an ancestor is not searched'
            return 'fails with %s' % show(p.val)
        # remembered before anything is read
        add = [e for e in p.events('lop', VIS)
               if e.args[0] in (const('add'), const('update'))]
        if not any(e.args[1:] == (N,) or is_one(p, e.args[1], N)
                   for e in add):
            if add or p.events('lop', VIS):
                out.append('another node is remembered as searched')
            else:
                out.append('a fallback is searched again and again, nothing '
                           'is remembered')
        e = reads[0]
        k = e.args[0] if e.kind == 'getitem' else e.args[1]
        if e.f is not P or k is not fk:
            out.append('%s[%s] is searched as fallback' % (show(e.f),
                                                           show(k)))
            return out
        if e.kind == 'mcall' and e.args[0] is not const('get'):
            raise Unknown('fallbacks are found otherwise')
        fb = e.res
        gone = any(x.kind == 'raise' and x.f is P for x in p.events('raise')) \
            or any(is_app(k, 'is') and fb in k.a[1:] and v
                   for k, v in p.st.facts.items())
        if gone:
            if r:
                bad = up(p, r, '')
                if bad:
                    return out + [bad]
                if node_of(r[0]) is not P:
                    out.append('the search continues with %s' % show(
                        node_of(r[0])))
                return out + [x for x in [passes(p, r[0])] if x]
            err = [x.args[0] for x in p.events('raise') if x.f is P]
            if p.ok:
                out.append('the search ends at an ancestor the fallback of '
                           'which does not exist')
            elif p.val not in err:
                out.append('fails with %s' % show(p.val))
            elif p.may_raise('KeyError'):
                out.append('a fallback which does not exist is reported '
                           'instead of the missing key')
            return out
        if p.truth(fb) is False and not p.loops():
            out.append('a fallback which is false is not searched')
            return out
        if is_app(fb, 'mret'):
            dflt = e.args[2] if len(e.args) > 2 else NONE
            if p.A.decide(p.st, p.A.pred2('is', fb, dflt)) is not False and \
                    p.truth(fb) is not True and p.A.decide(
                        p.st, p.A.pred2('eq', fb, dflt)) is not False:
                return out + ['a fallback which does not exist is not '
                              'recognised']
        return out + descend(p, r, fb)

    def descend(p, r, fb):
        src = app('keys', app('slice', PATH, app('len', app(
            'attr', fb, const('path'))), NONE))
        out = []
        ls = p.loops()
        if not ls:
            if p.holds(app('nonempty', src)) is False and p.val is fb:
                return out
            last = p.events('raise')
            if not p.ok and last and last[-1].args[0] is p.val:
                return out
            raise Unknown('sub paths are searched otherwise')
        if len(ls) > 1:
            raise Unknown('sub paths are searched otherwise')
        l = ls[0]
        if l.src is not src:
            if is_app(l.src, 'chain'):
                raise Unknown('sub paths are searched otherwise')
            if mentions(l.src, PATH):
                out.append('%s is searched below the fallback' % show(l.src))
                return out
            raise Unknown('sub paths are searched otherwise')
        bad = false_missing(p, l)
        if bad:
            return out + [bad]
        if l.partial:
            # a key is missing below
            if r:
                b = up(p, r, '')
                if b:
                    return out + [b]
                n = node_of(r[0])
                if not is_app(n, 'loopvar'):
                    out.append('ancestors of %s are searched instead of '
                               'those of the node reached' % show(n))
                return out + [x for x in [passes(p, r[0])] if x]
            last = p.events('raise')
            if not p.ok and last and last[-1].args[0] is p.val:
                if p.raises('KeyError'):
                    out.append('the search ends below the first fallback')
                return out
            out.append('the search ends with %s below the first fallback' %
                       show(p.val))
            return out
        if r:
            out.append('ancestors are searched though the key was found')
        if not p.ok:
            raise Unknown('fails with %s' % show(p.val))
        el = app('elem', src)
        v = p.val
        if not is_app(v, 'fold') or v.a[1] is not src or v.a[2] is not fb:
            if p.holds(app('nonempty', src)) is False and v is fb:
                return out
            out.append('returns %s' % show(v))
            return out
        step = v.a[3]
        if is_app(step, 'item') and step.a[1].tag == 'hole' and \
                step.a[2] is el:
            return out
        if is_app(step, 'mret') and step.a[1].tag == 'hole' and \
                step.a[2] is const('get') and list(step.a[3].a)[:1] == [el]:
            return out
        out.append('descends by %s' % show(step))
        return out

    def false_missing(p, l):
        """A value is taken for missing for other reasons than the key."""
        for k, v in list(p.st.facts.items()) + [
                x for g, evs in l.alts for x in g]:
            if is_app(k, 'truthy') and (
                    is_app(k.a[1], 'mret') or is_app(k.a[1], 'item')) and \
                    is_app(k.a[1].a[1], 'loopvar'):
                return 'values which are false are taken for missing'
            if is_app(k, 'is') and NONE in k.a[1:] and any(
                    (is_app(x, 'mret') or is_app(x, 'item')) and
                    is_app(x.a[1], 'loopvar') for x in k.a[1:]):
                return 'values which are None are taken for missing'
        return None

    st = State()
    st.facts[app('is', P, NONE)] = False
    st.facts[seen] = False
    c.each('C26.search', c.call(fn, [], args, st=st), unvisited,
           'an ancestor defining a fallback: the node is remembered, the '
           'rest of the path is looked up below the fallback, step by step; '
           'the first value missing continues with the ancestors of the '
           'node reached, as does a fallback not existing; other ancestors '
           'are passed over')

    # what the lookup makes of the result
    def result(p):
        out = []
        r = [e for e in recs(p)]
        if len(r) != 1 or first(p) is None:
            return out
        res = r[0].res
        mk_ = [m for m in marker]
        if not mk_:
            raise Unknown('result of the search')
        nothing = p.A.pred2('is', res, mk_[0])
        t = p.st.facts.get(nothing)
        if t is None:
            if p.st.facts.get(app('truthy', res)) is not None:
                out.append('a value found which is false is taken for '
                           'missing')
            elif p.ok and p.val is res:
                out.append('%s is returned if nothing is found' % show(
                    mk_[0]))
            return out
        if t and p.ok:
            out.append('returns %s if nothing is found' % show(p.val))
        if not t and not p.ok and not p.events('raise', r[0].f):
            out.append('fails though a value was found')
        if not t and p.ok and p.val is not res:
            out.append('%s is returned instead of the value found' % show(
                p.val))
        return out
    c.each('C26.unchanged', ps, lambda p: changed(p, (me,)),
           'looking up keys changes no node')
    c.each('C26.unchanged', c.call(fn, [], args), lambda p: changed(p, (N,)))
    c.each('C26.result', ps, result, 'a value found by the search is '
           'returned, whatever it is')


def is_one(p, v, n):
    return p.segs(v) == (('item', n),) or \
        v.tag == 'ref' and p.segs(v) is not None and \
        tuple(p.segs(v)) == (('item', n),)
