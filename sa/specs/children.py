"""C30: children created by factories."""
from ..lib import (KEY, NEXT, NONE, Loop, Skip, State, Unknown, app, bi, const,
                   cval, flat, is_app, is_const, show, sym, tup)

SPLIT = ('keys', 'elem')
MUTATES = ('mset', 'mdel', 'mupdate', 'mclear', 'setitem', 'delitem')


def C30(c):
    q = c.q('node.behaviors.ChildFactory')
    me = c.me(q)
    c.part(created, c, q, me)
    c.part(listed, c, q, me)
    q = c.q('node.behaviors.FixedChildren')
    c.part(fixed, c, q)


# -- children created on access ----------------------------------------------

def created(c, q, me):
    rule = 'ChildFactory.__getitem__: what is stored is returned; when the ' \
        'layers below raise KeyError, factories[key]() is called once, its ' \
        'result is stored by self[key] = child and returned'
    FS = app('attr', me, const('factories'))
    FN = app('item', FS, KEY)
    st = State()
    ps = c.failing(c.plumb, q, '__getitem__', [me, KEY], st=st)

    def j(p):
        calls = p.calls(NEXT)
        if not calls or any(list(e.args) != [me, KEY] or e.kw for e in calls):
            return 'the key is not looked up in the layers below'
        if len(calls) > 1:
            # reading back what was stored
            if not any(e.kind == 'setitem' and e.f is me
                       for e in p.trace[:p.index(calls[1])]
                       if not isinstance(e, Loop)):
                return 'the key is looked up %d times' % len(calls)
        first = [e for e in p.events('raise', NEXT)][:1]
        made = [e for e in p.calls(FN)]
        other = [e for e, d, l in p.flat() if e.kind == 'call' and
                 is_app(e.f, 'item') and e.f is not FN]
        stores = [e for e, d, l in p.flat() if e.kind in MUTATES and
                  e.f is me]
        other_stores = [e for e, d, l in p.flat() if e.kind in MUTATES and
                        e.f is not me and e.f.tag != 'ref']
        if other:
            return 'the factory called is %s' % show(other[0].f)
        if other_stores:
            e = other_stores[0]
            return '%s %s%s bypasses item assignment of the node' % (
                e.kind, show(e.f), show(tuple(e.args)))
        if len(made) > 1:
            return 'the child is created %d times' % len(made)
        if made and (made[0].args or made[0].kw):
            return 'the factory is called with %s' % show(
                tuple(made[0].args))
        if not first:
            if made or stores:
                return 'an existing child is created again'
            if not p.ok:
                return 'reading an existing child fails with %s' % show(p.val)
            if p.val is not calls[0].res:
                return 'instead of the existing child %s is returned' % show(
                    p.val)
            return
        err = first[0].args[0]
        missing = p.A.exc_isa(p.st, err, bi('KeyError'))
        if missing is not True:
            if missing is None:
                if made or stores:
                    return 'errors other than KeyError create the child anew'
                if p.ok:
                    return 'errors of the layers below are swallowed'
                if p.val is err:
                    return
                raise Unknown('error of the layers below of unknown type')
            if made or stores:
                return 'an error other than KeyError creates the child anew'
            if p.ok or p.val is not err:
                return 'an error of the layers below gives %s' % show(p.val)
            return
        known = p.holds(app('in', KEY, FS))
        if p.holds(p.A.pred2('is', FN, NONE)) is True:
            # no factory at all
            if made or stores:
                return 'a key without factory is stored'
            return
        if known is None:
            known = True if made else None
        if known is False:
            if p.ok or not p.raises('KeyError'):
                return 'a key without factory gives %s' % show(p.val)
            if made or stores:
                return 'a key without factory is stored'
            return
        if known is None:
            raise Unknown('whether there is a factory is not decided')
        if not made:
            return 'no child is created though there is a factory'
        if p.events('raise', FN):
            if stores:
                return 'though creating the child failed %s is stored' % show(
                    tuple(stores[0].args))
            if p.ok:
                return 'an error of the factory is swallowed'
            if not p.passes_on(FN):
                return 'an error of the factory becomes %s' % show(p.val)
            return
        child = made[0].res
        if not stores:
            return 'the child created is not stored'
        if len(stores) > 1 or stores[0].kind != 'setitem' or \
                list(stores[0].args) != [KEY, child]:
            return 'the child created is stored as %s' % ', '.join(
                '%s %s' % (e.kind, show(tuple(e.args))) for e in stores)
        if [e for e in p.events('raise', me)]:
            if p.ok:
                return 'an error when storing the child is swallowed'
            if p.val is not p.events('raise', me)[0].args[0]:
                return 'an error when storing the child becomes %s' % show(
                    p.val)
            return
        if len(calls) > 1:
            if p.events('raise', NEXT)[1:]:
                return
            if p.ok and p.val is calls[1].res:
                return
        back = [e.res for e, d, l in p.flat() if e.kind == 'getitem' and
                e.f is me and list(e.args) == [KEY]]
        if p.ok and (p.val is child or p.val is app('item', me, KEY) or
                     p.val in back):
            return
        if not p.ok and back:
            return
        return 'instead of the child created the result is %s' % show(p.val)
    c.each('C30.created', ps, j, rule)
    if not any(p.ok and p.calls(FN) for p in ps):
        c.judge('C30.created', lambda: (_ for _ in ()).throw(
            Unknown('no path creates a child')) if any(
                p.doubt() for p in ps) else
            'no child is ever created')


def listed(c, q, me):
    FS = app('attr', me, const('factories'))
    rule = 'ChildFactory: iteration yields every key of the factories of ' \
        'the node, in their order, nothing else'

    def keys_of(p, FSs, own=False):
        if not p.ok:
            return 'iteration fails with %s' % show(p.val)
        segs = p.segs()
        if segs is None:
            raise Unknown('what iteration gives is %s' % show(p.val))
        if len(segs) != 1 or segs[0][0] != 'many':
            return 'iteration yields %s' % show(segs)
        _, src, el, alts = segs[0]
        if src not in [app('keys', f) for f in FSs]:
            if src is app('keys', me) and own:
                # by the iteration of the node
                pass
            elif is_app(src, 'keys'):
                return 'iteration yields keys of %s' % show(src.a[1])
            else:
                raise Unknown('iterates %s' % show(src))
        if any(len(items) != 1 or items[0][1] is not el
               for g, items in alts):
            return 'iteration yields %s' % show(sorted(alts, key=repr))
        if len(alts) != 1 or any(g for g, items in alts):
            return 'some keys are left out of the iteration'

    for name in ('__iter__', 'iterkeys'):
        c.each('C30.listed', c.method(q, name, []),
               lambda p: keys_of(p, [FS], name != '__iter__'), rule)
    v, m = c.composed('factories', ['node.behaviors.Nodify',
                                    'node.behaviors.ChildFactory',
                                    'node.behaviors.OdictStorage'])
    G = c.A.mixin_view(q).members.get('factories')
    fs = [app('attr', m, const('factories'))]
    if G is not None:
        fs.append(G)
    for name in ('keys', '__iter__', 'iterkeys'):
        c.each('C30.listed', c.vcall(v, m, name, []),
               lambda p: keys_of(p, fs))


# -- fixed children ------------------------------------------------------------

def fixed(c, q):
    v, me = c.composed('fixed', ['node.behaviors.Nodify',
                                 'node.behaviors.FixedChildren'])
    box = c.part(read, c, v, me)
    if box is None:
        return
    c.part(refused, c, v, me, box)
    c.part(initialized, c, q, box)


def read(c, v, me):
    """Attribute the children are read from."""
    names = set()
    ps = c.vcall(v, me, '__getitem__', [KEY])

    def j(p):
        if not p.ok:
            if not p.raises('KeyError'):
                return 'reading a child gives %s' % show(p.val)
            return
        x = p.val
        if is_app(x, 'item') and x.a[2] is KEY and is_app(
                x.a[1], 'attr') and x.a[1].a[1] is me:
            names.add(x.a[1].a[2])
            return
        if is_app(x, 'ret') or is_app(x, 'item'):
            return 'reading a child gives %s' % show(x)
        raise Unknown('reads %s' % show(x))
    rule = 'FixedChildren: __getitem__ and __iter__ read the same container'
    c.each('C30.read', ps, j, rule)
    if len(names) != 1:
        raise Skip()
    name = names.pop()
    box = app('attr', me, name)

    def k(p):
        if not p.ok:
            return 'iteration fails with %s' % show(p.val)
        segs = p.segs()
        if segs is None:
            raise Unknown('what iteration gives is %s' % show(p.val))
        if len(segs) != 1 or segs[0][0] != 'many' or \
                segs[0][1] is not app('keys', box):
            return 'iteration yields %s' % show(segs)
        _, src, el, alts = segs[0]
        if len(alts) != 1 or any(g or len(items) != 1 or items[0][1] is not el
                                 for g, items in alts):
            return 'iteration yields %s' % show(sorted(alts, key=repr))
    c.each('C30.read', c.vcall(v, me, '__iter__', []), k)
    return cval(name)


def refused(c, v, me, box):
    B = app('attr', me, const(box))
    rule = 'FixedChildren: setting and deleting children raises on every ' \
        'path; no operation of the mapping changes the children'
    x = sym('x', 'any')
    ops = [('__setitem__', [KEY, x]), ('__delitem__', [KEY]),
           ('setdefault', [KEY, x]), ('pop', [KEY]), ('pop', [KEY, x]),
           ('popitem', []), ('clear', []), ('update', [x]),
           ('detach', [KEY]), ('__getitem__', [KEY]), ('__iter__', []),
           ('get', [KEY])]
    for name, args in ops:
        if name not in v.members:
            continue

        def j(p):
            for e, d, l in p.flat():
                if e.kind in MUTATES and (e.f is B or e.f is me):
                    if any(y.kind == 'raise' and y.f is e.f
                           for y, d2, l2 in p.flat()) and not p.ok:
                        continue
                    return 'children are changed by %s' % e.kind
                if e.kind == 'mcall' and e.f is B and e.args and cval(
                        e.args[0]) in ('pop', 'popitem', 'clear', 'update',
                                       'setdefault', '__setitem__',
                                       '__delitem__'):
                    return 'children are changed by %s' % cval(e.args[0])
                if e.kind == 'setattr' and e.f is me and \
                        e.args[0] is const(box):
                    return 'children are replaced'
            if name in ('__setitem__', '__delitem__') and p.ok:
                return 'is not refused'
        c.each('C30.refused', c.vcall(v, me, name, args), j, rule)


def initialized(c, q, box):
    me = c.me(q)
    FS = app('attr', me, const('fixed_children_factories'))
    a, kv = sym('arg', 'any'), sym('kwarg', 'any')
    ps = c.plumb(q, '__init__', [me, a], {'k': kv})
    src = app('keys', FS)
    rule = 'FixedChildren.__init__: _next once with the arguments; for ' \
        'every pair in order factory() is called once, the child is named, ' \
        'gets the node as parent and is stored under its key'

    def j(p):
        calls = p.calls(NEXT)
        if len(calls) != 1:
            return 'initialization is passed on %d times' % len(calls)
        kw = calls[0].kw
        kw = dict(kw) if not isinstance(kw, dict) else kw
        if list(calls[0].args) != [me, a] or \
                {(cval(k) if not isinstance(k, str) else k): x
                 for k, x in kw.items()} != {'k': kv}:
            return 'initialization is passed on with %s' % show(
                tuple(calls[0].args))
        if not p.ok:
            if p.events('raise') and any(e.args and e.args[0] is p.val
                                         for e in p.events('raise')):
                return
            return 'fails with %s' % show(p.val)
        if p.events('raise'):
            return 'errors are swallowed'
        d = p.st.cells.get((me, box))
        if d is None:
            return 'the children are not stored'
        log = p.map_log(d)
        if log is None:
            raise Unknown('children are %s' % show(d))
        log = list(log)
        if len(log) != 1 or log[0][0] not in ('loop', 'looppart'):
            return 'the children stored are %s' % show(tuple(log))
        if log[0][0] == 'looppart':
            return 'only some of the children are created'
        _, s, el, alts = log[0]
        if s is not src:
            if is_app(s, 'keys') and s.a[1] is FS or is_app(s, 'rev'):
                return 'children are created from %s' % show(s)
            raise Unknown('children are created from %s' % show(s))
        if len(alts) != 1:
            return 'some children are left out: %s' % show(
                sorted(alts, key=repr))
        (g, items), = alts
        k, f = app('unpack', el, const(0)), app('unpack', el, const(1))
        k2, f2 = app('item', el, const(0)), app('item', el, const(1))
        if g:
            return 'children are only created when %s' % show(tuple(g))
        if len(items) != 1 or items[0][0] != 'set':
            return 'every round stores %s' % show(items)
        key, child = items[0][1:3]
        if key not in (k, k2):
            return 'a child is stored under %s' % show(key)
        rounds = []
        for e, dd, l in p.flat():
            if e.kind == 'call' and e.f in (f, f2):
                if l is None:
                    raise Unknown('a factory is called outside of the loop')
                if l not in rounds:
                    rounds.append(l)
        if not rounds:
            return 'the factories are not called'
        if len(rounds) != 1:
            raise Unknown('factories are called in several loops')
        out = []
        for gs, evs in rounds[0].alts:
            evs = [e for e, dd, l in flat(evs)]
            made = [e for e in evs if e.kind == 'call' and e.f in (f, f2)]
            if len(made) != 1:
                return 'factories are called %d times for each child' % \
                    len(made)
            if made[0].args or made[0].kw:
                return 'factories are called with %s' % show(
                    tuple(made[0].args))
            if child is not made[0].res:
                return 'what is stored is %s' % show(child)
            sets = [e for e in evs if e.kind == 'setattr' and e.f is child]
            for n, want in (('__name__', (k, k2)), ('__parent__', (me,))):
                vals = [e.args[1] for e in sets if e.args[0] is const(n)]
                if not vals:
                    out.append('%s of the child is not set' % n)
                elif vals[-1] not in want:
                    out.append('%s of the child is %s' % (n, show(vals[-1])))
        return out
    c.each('C30.initialized', ps, j, rule)
    c.judge('C30.initialized', lambda: None if any(p.ok for p in ps) else
            'initialization never succeeds')
