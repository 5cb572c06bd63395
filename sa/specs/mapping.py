"""C08, C09: mapping operations agree with item access and iteration."""
from ..lib import (KEY, NONE, VAL, FALSE, TRUE, Loop, Missing, State, Unknown,
                   app, bi, const, is_app, is_const, mk, show, sym)

PROTO = ('__getitem__', '__setitem__', '__delitem__', '__iter__')
CLASSES = ['node.behaviors.FullMapping', 'node.base.AbstractNode',
           'node.base.BaseNode', 'node.base.OrderedNode', 'node.base.Node',
           'node.base.AttributedNode']
DEF = sym('default', 'any')
CHANGES = ('setitem', 'delitem', 'mset', 'mdel', 'mupdate', 'mclear',
           'setattr', 'delattr')


def changing(e):
    """Does it change an object the caller may know?"""
    return e.kind in CHANGES and e.f.tag != 'ref'


def run(c, q, name, args):
    view, s = c.protocol(q, PROTO)
    m = view.members.get(name)
    if m is None:
        raise Missing('%s.%s' % (q, name))
    if m.tag == 'pipe' and c.A.is_behavior(q):
        raise Missing('%s.%s' % (q, name))
    return s, c.vcall(view, s, name, args)


def failed(p, kind, s, *args):
    """The failing protocol call of that kind on s, or None."""
    evs = [e for e in p.events() if e.kind in (kind, 'raise')]
    for i, e in enumerate(evs):
        if e.kind == kind and e.f is s and i + 1 < len(evs) and \
                evs[i + 1].kind == 'raise':
            return e, evs[i + 1].args[0] if evs[i + 1].args else None
    return None


def changes(p, s, kinds=CHANGES):
    """Effects on s; a failed protocol call changed nothing."""
    evs = [e for e, d, l in p.flat()]
    out = []
    for i, e in enumerate(evs):
        if e.kind in kinds and e.f is s and not (
                i + 1 < len(evs) and evs[i + 1].kind == 'raise' and
                evs[i + 1].f is s):
            out.append(e)
    return out


def C08(c):
    for n in CLASSES:
        c.part(reads, c, c.q(n))


def reads(c, q):
    short = q.split('.')[-1]

    def lookup(meth, args, default):
        s, ps = run(c, q, meth, args)
        ITEM = app('item', s, KEY)

        def j(p):
            ch = [e for e in p.events() if changing(e)]
            if ch:
                return 'reading changes something: %s' % ch[0].kind
            f = failed(p, 'getitem', s)
            if f is None:
                got = [e for e in p.events('getitem', s)
                       if e.args == (KEY,)]
                if p.ok and not got and any(
                        l.src is app('keys', s) for l in p.loops()):
                    return 'whether the child is there is decided by the ' \
                        'keys iterated instead of item access'
                if not p.ok:
                    return 'raises %s although the child is there' % show(
                        p.val)
                if p.val is ITEM and default is not FALSE:
                    return
                want = TRUE if default is FALSE else ITEM
                if p.val is not want:
                    absent = p.holds(app('in', KEY, s)) is False or \
                        p.holds(app('in', KEY, app('keys', s))) is False
                    if absent and p.val is default:
                        return
                    return 'returns %s for a child which is there' % show(
                        p.val)
                if default is FALSE and not got and \
                        p.holds(app('in', KEY, s)) is not True and \
                        p.holds(app('in', KEY, app('keys', s))) is not True:
                    return 'reports a child without looking for it'
                return
            e, exc = f
            if e.args[:1] != (KEY,):
                return 'looks up %s instead of the key' % show(e.args)
            isk = p.A.exc_isa(p.st, exc, bi('KeyError'))
            if p.ok:
                if isk is not True:
                    return 'an error which is no missing key is swallowed'
                if p.val is not default:
                    return 'returns %s for a missing key' % show(p.val)
            else:
                if p.val is not exc:
                    return 'error of item access is replaced by %s' % show(
                        p.val)
                if isk is not False:
                    return 'a missing key is not treated as absent'
        c.each('C08.%s' % meth, ps, j, '%s: result of item access, the '
               'default exactly on KeyError of it, other errors pass, no '
               'effects' % meth)
    c.part(lookup, 'get', [KEY, DEF], DEF)
    c.part(lookup, 'get', [KEY], NONE)
    c.part(lookup, '__contains__', [KEY], FALSE)
    if 'has_key' in c.protocol(q, PROTO)[0].members:
        c.part(lookup, 'has_key', [KEY], FALSE)

    def listing(meth, shape):
        s, ps = run(c, q, meth, [])
        src = app('keys', s)
        e = app('elem', src)
        want = {'k': e, 'v': app('item', s, e)}
        want['i'] = mk('tup', want['k'], want['v'])

        def j(p):
            ch = [x for x in p.events() if changing(x)]
            if ch:
                return 'reading changes something: %s' % ch[0].kind
            if not p.ok:
                f = failed(p, 'getitem', s)
                if f and f[1] is p.val:
                    return
                return 'raises %s' % show(p.val)
            segs = p.segs()
            if segs is None:
                raise Unknown('result is %s' % show(p.val))
            if segs == (p.A.many(src, want[shape]),):
                return
            if not segs and p.holds(app('nonempty', src)) is False:
                return
            return 'yields %s' % show(segs)
        c.each('C08.%s' % meth, ps, j, '%s: one element per iterated key, in '
               'order, read by item access' % meth)
    for meth, shape in (('keys', 'k'), ('iterkeys', 'k'), ('values', 'v'),
                        ('itervalues', 'v'), ('items', 'i'),
                        ('iteritems', 'i')):
        c.part(listing, meth, shape)

    def length():
        s, ps = run(c, q, '__len__', [])

        def j(p):
            if not p.ok:
                return 'raises %s' % show(p.val)
            if p.val is not app('len', app('keys', s)):
                if is_const(p.val) and p.val.a[1] == 0 and p.holds(
                        app('nonempty', app('keys', s))) is False:
                    return
                if is_app(p.val, 'len') or is_const(p.val):
                    return 'length is %s' % show(p.val)
                raise Unknown('length is %s' % show(p.val))
        c.each('C08.len', ps, j, '__len__ is the number of iterated keys')
    c.part(length)


# -- writing -------------------------------------------------------------------

def C09(c):
    for n in CLASSES:
        q = c.q(n)
        for f in (clear, update, setdefault, pop, popitem):
            c.part(f, c, q)


def loop_of(p, ev):
    """(loop, alternative) an event lies in."""
    def rec(tr):
        for e in tr:
            if isinstance(e, Loop):
                for g, evs in e.alts:
                    if any(x is ev for x in evs):
                        return e, g
                    r = rec(evs)
                    if r:
                        return r
        return None
    return rec(p.trace)


def clear(c, q):
    s, ps = run(c, q, 'clear', [])
    src = app('keys', s)

    def j(p):
        out = []
        other = [e for e in p.events() if changing(e) and
                 e.kind != 'delitem']
        if other:
            out.append('unexpected effect %s %s' % (other[0].kind,
                                                    show(other[0].args)))
        dels = [e for e, d, l in p.flat() if e.kind == 'delitem' and
                e.f is s]
        for l in [x for x in p.trace if isinstance(x, Loop)]:
            for g, evs in l.alts:
                if any(getattr(e, 'kind', '') == 'delitem' and e.f is s
                       for e in evs) and l.live is s:
                    out.append('children are deleted while iterating them')
        if p.ok:
            if p.holds(app('nonempty', src)) is False:
                return out
            good = False
            for l in [x for x in p.trace if isinstance(x, Loop)]:
                if l.src is src and not l.partial and l.alts and all(
                        sum(1 for e in evs if getattr(e, 'kind', '') ==
                            'delitem' and e.f is s and
                            e.args == (app('elem', src),)) == 1
                        for g, evs in l.alts):
                    good = True
            if not good:
                if any(l.src is not src and any(
                        getattr(e, 'kind', '') == 'delitem'
                        for g, evs in l.alts for e in evs)
                        for l in p.loops()):
                    raise Unknown('other iteration')
                out.append('not every child is deleted by item deletion')
        else:
            f = failed(p, 'delitem', s)
            if f is None or f[1] is not p.val:
                out.append('raises %s' % show(p.val))
        return out
    c.each('C09.clear', ps, j, 'clear: one item deletion per key, iterating a '
           'copy of the keys, no other effect, errors pass')


def update(c, q):
    for kind in ('dict', 'list', 'node'):
        other = sym('other', kind)
        s, ps = run(c, q, 'update', [other])
        src = app('keys', other) if kind != 'list' else None

        def j(p):
            ch = [e for e in p.events() if changing(e) and not (
                e.kind == 'setitem' and e.f is s)]
            if ch:
                return 'unexpected effect %s %s' % (ch[0].kind,
                                                    show(ch[0].args))
            if not p.ok:
                f = failed(p, 'setitem', s)
                if f is None or f[1] is not p.val:
                    g = failed(p, 'getitem', other)
                    if g and g[1] is p.val:
                        return
                    return 'raises %s' % show(p.val)
                return
            ls = [l for l in p.loops() if any(
                getattr(e, 'kind', '') == 'setitem' for g, evs in l.alts
                for e in evs)]
            if not ls:
                if p.holds(app('nonempty', app('keys', other))) is False or \
                        p.holds(app('nonempty', other)) is False:
                    return
                return 'nothing is set'
            if len(ls) != 1 or ls[0].partial:
                return 'not every item is set'
            l = ls[0]
            e = app('elem', l.src)
            want = (e, app('item', other, e)) if kind != 'list' else \
                (app('unpack', e, const(0)), app('unpack', e, const(1)))
            if kind != 'list' and l.src is not src:
                return 'iterates %s' % show(l.src)
            if l.obj is not NONE:
                return 'items are set in reversed order'
            for g, evs in l.alts:
                sets = [x for x in evs if getattr(x, 'kind', '') == 'setitem']
                if len(sets) != 1:
                    return 'an item is set %d times' % len(sets)
                if sets[0].args != want and not (
                        kind == 'list' and sets[0].args == (
                            app('item', e, const(0)),
                            app('item', e, const(1)))):
                    if kind == 'list':
                        raise Unknown('sets %s' % show(sets[0].args))
                    return 'sets %s' % show(sets[0].args)
        c.each('C09.update', ps, j, 'update: one item assignment per item of '
               'the argument, in order, with its key and value, no other '
               'effect, errors pass')
    # keywords
    s, _ = c.protocol(q, PROTO)[1], None
    view, s = c.protocol(q, PROTO)
    m = view.members['update']
    kwv = sym('kwval', 'any')
    ps = c.call(m, [s, sym('other', 'dict')], {'somekey': kwv})

    def jk(p):
        if p.ok:
            more = [e for e in p.top_events() if changing(e) and (
                e.kind != 'setitem' or e.args != (const('somekey'), kwv)
                ) and const('somekey') in e.args]
            if more:
                return 'a keyword argument causes %s %s' % (
                    more[0].kind, show(more[0].args))
            if len([e for e in p.top_events('setitem', s)
                    if e.args[:1] == (const('somekey'),)]) > 1:
                return 'a keyword argument is set several times'
            if [e for e in p.top_events('getitem', s)
                    if e.args[:1] == (const('somekey'),)]:
                return 'a keyword argument is looked up'
            sets = [e for e in p.top_events('setitem', s)]
            if not any(e.args == (const('somekey'), kwv) for e in sets):
                if any(getattr(e, 'kind', '') == 'setitem' and
                       const('somekey') in e.args for e, d, l in p.flat()):
                    return
                if any(getattr(e, 'kind', '') == 'mset' and e.f.tag == 'ref'
                       and const('somekey') in e.args
                       for e, d, l in p.flat()):
                    raise Unknown('arguments are put together first')
                return 'keyword arguments are not set'
            last = [e for e in sets if e.args[0] is const('somekey')][-1]
            if any(isinstance(e, Loop) and any(
                    getattr(x, 'kind', '') == 'setitem'
                    for g, evs in e.alts for x in evs)
                    for e in p.trace[p.index(last) + 1:]):
                return 'keyword arguments do not win'
    c.each('C09.update-kw', ps, jk, 'update: keyword arguments are set after '
           'the items of the argument')
    ps = c.call(m, [s, sym('one', 'dict'), sym('two', 'dict')])

    def j2(p):
        if p.ok:
            return 'more than one positional argument is accepted'
        if changes(p, s):
            return 'changes something before refusing'
        if not p.raises('TypeError'):
            return 'raises %s' % show(p.val)
    c.each('C09.update-args', ps, j2, 'update: more than one positional '
           'argument raises TypeError without any effect')
    ps = c.call(m, [s])

    def j0(p):
        if not p.ok:
            return 'raises %s' % show(p.val)
        if changes(p, s):
            return 'changes something'
    c.each('C09.update-none', ps, j0, 'update without arguments changes '
           'nothing')


def setdefault(c, q):
    for args, d in (([KEY, DEF], DEF), ([KEY], NONE)):
        s, ps = run(c, q, 'setdefault', args)

        def j(p):
            ch = changes(p, s)
            f = failed(p, 'getitem', s)
            known = p.holds(app('in', KEY, s))
            if f is None and known is not False:
                if ch:
                    return 'changes something although the child is there'
                if not p.ok or p.val is not app('item', s, KEY):
                    return 'gives %s for a child which is there' % show(p.val)
                return
            if f is not None:
                if f[0].args[:1] != (KEY,):
                    return 'looks up %s' % show(f[0].args)
                isk = p.A.exc_isa(p.st, f[1], bi('KeyError'))
                if isk is not True:
                    if isk is False and (p.ok or p.val is not f[1] or ch):
                        return 'an error which is no missing key does not ' \
                            'pass'
                    if isk is None:
                        if p.ok:
                            return 'an error which is no missing key is '\
                                'swallowed'
                    return
            g = failed(p, 'setitem', s)
            if g is not None:
                if g[0].args != (KEY, d):
                    return 'sets %s' % show(g[0].args)
                if p.ok or p.val is not g[1]:
                    return 'error of item assignment does not pass'
                return
            if not p.ok:
                return 'raises %s' % show(p.val)
            if [(e.kind, e.args) for e in ch] != [('setitem', (KEY, d))]:
                return 'performs %s instead of setting the default' % [
                    (e.kind, show(e.args)) for e in ch]
            if p.val is not d and p.val is not app('item', s, KEY):
                return 'returns %s' % show(p.val)
        c.each('C09.setdefault', ps, j, 'setdefault: existing child without '
               'effect; exactly on KeyError one item assignment of the '
               'default, which is returned; other errors pass')


def pop(c, q):
    UN = c.glob('node.utils.UNSET')
    for args, d in (([KEY, DEF], DEF), ([KEY], None), ([KEY, NONE], NONE)):
        s, ps = run(c, q, 'pop', args)
        ITEM = app('item', s, KEY)

        def j(p):
            if d is DEF and p.holds(p.A.pred2('is', DEF, UN)) is True:
                return
            ch = changes(p, s)
            g = failed(p, 'delitem', s)
            f = failed(p, 'getitem', s)
            bad = [e for e in p.events() if changing(e) and
                   not (e.kind == 'delitem' and e.f is s)]
            if bad:
                return 'unexpected effect %s %s' % (bad[0].kind,
                                                    show(bad[0].args))
            dels = p.events('delitem', s)
            if any(e.args != (KEY,) for e in dels):
                return 'deletes %s' % show(dels[0].args)
            if g is None and f is None and \
                    p.holds(app('in', KEY, s)) is not False:
                if not p.ok:
                    return 'raises %s' % show(p.val)
                if p.val is not ITEM:
                    return 'returns %s instead of the child' % show(p.val)
                if len(dels) != 1:
                    return 'deletes the child %d times' % len(dels)
                return
            fail = f or g
            if fail is None:
                exc, isk = None, True
            else:
                if fail[0].args[:1] != (KEY,):
                    return 'looks up %s' % show(fail[0].args)
                exc = fail[1]
                isk = p.A.exc_isa(p.st, exc, bi('KeyError'))
            if g is None and dels:
                return 'deletes a missing child'
            if p.ok:
                if isk is not True:
                    return 'an error which is no missing key is hidden'
                if d is None:
                    return 'returns %s for a missing key without default' % \
                        show(p.val)
                if p.val is not d:
                    return 'returns %s instead of the default' % show(p.val)
            else:
                if isk is not True:
                    if exc is not None and p.val is not exc:
                        return 'error is replaced by %s' % show(p.val)
                elif f is not None and d is not None:
                    return 'raises %s although a default is given' % show(
                        p.val)
                if isk is True and not p.raises('KeyError'):
                    return 'a missing key raises %s' % show(p.val)
        c.each('C09.pop', ps, j, 'pop: the child read, after exactly one item '
               'deletion; the default, also None, exactly on KeyError; '
               'KeyError without default; other errors pass')


def popitem(c, q):
    s, ps = run(c, q, 'popitem', [])
    src = app('keys', s)
    last = app('last', src)

    def j(p):
        bad = [e for e in p.events() if changing(e) and
               not (e.kind == 'delitem' and e.f is s)]
        if bad:
            return 'unexpected effect %s %s' % (bad[0].kind,
                                                show(bad[0].args))
        dels = p.events('delitem', s)
        if p.ok:
            if p.holds(app('nonempty', src)) is False:
                return 'an empty mapping returns %s' % show(p.val)
            if p.val is not mk('tup', last, app('item', s, last)):
                return 'returns %s instead of the last item' % show(p.val)
            if [e.args for e in dels] != [(last,)]:
                return 'deletes %s' % [show(e.args) for e in dels]
            return
        f = failed(p, 'getitem', s) or failed(p, 'delitem', s)
        if f is not None:
            if p.val is not f[1]:
                return 'error is replaced by %s' % show(p.val)
            return
        if any(is_app(e.f, 'iter') and e.f.a[1] is s
               for e in p.events('raise')):
            # the keys cannot be read
            return 'deletes something' if dels else None
        if any(t is True and is_app(k, 'is') and last in k.a[1:]
               for k, t in p.st.facts.items()):
            raise Unknown('a marker may be the last key')
        if p.holds(app('nonempty', src)) is not False:
            return 'raises %s although there are children' % show(p.val)
        if dels:
            return 'deletes something from an empty mapping'
        if not p.raises('KeyError'):
            return 'an empty mapping raises %s' % show(p.val)
    c.each('C09.popitem', ps, j, 'popitem: last key and child, after exactly '
           'one item deletion of it; KeyError if there is none')
