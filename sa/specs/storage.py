"""C06, C07: ordered insertion, storage of children."""
from ..lib import (KEY, NEXT, NONE, VAL, Loop, State, Unknown, app, bi, const,
                   is_app, is_const, mentions, mk, show, sym)
from .location import effects, set_on


def storage_of(c, st, s, view):
    """[(state, storage object)] of a node in a state."""
    m = view.members['storage']
    out = []
    for r in c.A.load(st.copy(), s, 'storage', None, _ctx()):
        if r.ok:
            out.append((r.st, r.val))
    return out


def _ctx():
    from ..lib import Ctx
    return Ctx('node')


def C07(c):
    for name in ('node.behaviors.DictStorage', 'node.behaviors.OdictStorage'):
        c.part(backed, c, name)
    c.part(ordered, c)
    c.part(ready, c)


def backed(c, name):
    short = name.split('.')[-1]
    q = c.q(name)
    view, s = c.composed(short, [name])
    prop = view.members.get('storage')

    def run(meth, args):
        return c.vcall(view, s, meth, args)

    # the storage itself
    ps = c.call(prop.a[0], [s]) if prop.tag == 'prop' else []
    if prop.tag != 'prop':
        c.judge('C07.own', lambda: 'storage of %s is one object shared by all '
                'nodes' % short if prop.tag == 'glob' else None)

    def own(p):
        if not p.ok:
            return 'storage fails with %s' % show(p.val)
        if p.val.tag == 'glob':
            return 'storage is an object shared by all nodes (%s)' % show(
                p.val)
        if p.val.tag == 'ref':
            again = [x for x in storage_of(c, p.st, s, view)]
            if any(v is not p.val for _, v in again):
                return 'storage is created again on next access'
        elif is_app(p.val, 'attr') and p.val.a[1] is s:
            if set_on(p, s):
                return 'existing storage is replaced'
        else:
            return 'storage is %s, which does not belong to the node' % show(
                p.val)
    c.each('C07.own', ps, own, 'storage property: the mapping returned is '
           'allocated per node on first access, kept on the node and found '
           'again, never a module or class level object, never replaced')

    def target(p, want):
        """The mapping in effect at the end of the path."""
        vals = set(v for _, v in storage_of(c, p.st, s, view))
        if len(vals) != 1:
            raise Unknown('storage differs')
        return vals.pop()

    def get(p):
        d = target(p, None)
        writes = [e for e in p.events() if e.kind in (
            'mset', 'mdel', 'mupdate', 'mclear', 'setitem', 'delitem')]
        if writes:
            return 'reading a child changes something: %s' % writes[0].kind
        if p.ok:
            if p.val is not app('item', d, KEY):
                return 'reading returns %s instead of the child stored under '\
                    'the key' % show(p.val)
        else:
            if p.holds(app('in', KEY, d)) is True:
                return 'reading a stored child fails'
            if not p.raises('KeyError'):
                return 'reading a missing child raises %s' % show(p.val)
    c.each('C07.get', run('__getitem__', [KEY]), get, '__getitem__ returns '
           'exactly storage[key], KeyError if it is missing, changing nothing')

    def put(p):
        d = target(p, None)
        if not p.ok:
            return 'storing fails with %s' % show(p.val)
        w = [e for e in p.events() if e.kind in ('mset', 'mdel', 'mupdate',
                                                 'mclear')]
        if [(e.kind, e.f, e.args) for e in w] != [('mset', d, (KEY, VAL))]:
            return 'storing performs %s' % [
                (e.kind, show(e.f), show(e.args)) for e in w]
    c.each('C07.set', run('__setitem__', [KEY, VAL]), put, '__setitem__ writes '
           'exactly storage[key] = value')

    def rem(p):
        d = target(p, None)
        w = [e for e in p.events() if e.kind in ('mset', 'mdel', 'mupdate',
                                                 'mclear')]
        if p.ok:
            if [(e.kind, e.f, e.args) for e in w] != [('mdel', d, (KEY,))]:
                return 'deleting performs %s' % [
                    (e.kind, show(e.f), show(e.args)) for e in w]
        else:
            if w:
                return 'failing deletion changes the storage'
            if not p.raises('KeyError'):
                return 'deleting a missing child raises %s' % show(p.val)
            if p.holds(app('in', KEY, d)) is True:
                return 'deleting a stored child fails'
    c.each('C07.del', run('__delitem__', [KEY]), rem, '__delitem__ removes '
           'exactly storage[key], KeyError if it is missing')

    def it(p):
        if not p.ok:
            return 'iteration fails with %s' % show(p.val)
        d = target(p, None)
        segs = p.segs()
        if d.tag == 'ref':
            if segs:
                return 'a fresh node yields %s' % show(segs)
            return
        src = app('keys', d)
        if segs != (c.A.many(src),):
            return 'iteration yields %s instead of all keys of the storage' % \
                show(segs)
        if [e for e in p.events() if e.kind in ('mset', 'mdel', 'mupdate',
                                                'mclear')]:
            return 'iteration changes the storage'
    c.each('C07.iter', run('__iter__', []), it, '__iter__ yields every key '
           'of the storage once, in order')


def ordered(c):
    """Everything implementing IOrdered allocates an ordered mapping."""
    IORD = c.cls('node.interfaces.IOrdered')
    seen = 0
    for q in sorted(c.prog.classes):
        if c.A.is_iface(q) or '.testing.' in q or '.tests.' in q:
            continue
        view = c.A.mixin_view(q) if c.A.is_behavior(q) else c.A.class_view(q)
        if IORD not in view.provides:
            continue
        m = view.members.get('storage')
        if m is None or m.tag != 'prop':
            continue
        vn = view.name
        s = sym('self', 'node', vn)
        ps = c.call(m.a[0], [s])
        seen += 1

        def j(p):
            if p.ok and p.val.tag == 'ref' and p.val.a[1] == 'dict':
                n = c.A.ctor.get(p.val)
                if n is None:
                    return 'storage of the ordered node is a plain dict'
        c.each('C07.ordered', ps, j, 'storage of nodes declared as IOrdered '
               'is an ordered mapping')


def ready(c):
    """Composed node classes: storing and reading meet at the same place."""
    for name in ('node.base.BaseNode', 'node.base.OrderedNode',
                 'node.base.Node', 'node.base.AttributedNode'):
        q = c.q(name)
        view = c.A.class_view(q)
        s = sym('self', 'node', q)
        k = sym('key', 'int')      # never a nodespace key
        n = sym('val', 'node')

        def j(p):
            if not p.ok:
                return
            w = [e for e in p.events() if e.kind in ('mset',) and
                 e.args[1] is n and e.args[0] is k]
            if len(w) != 1:
                return 'child is written %d times' % len(w)
            vals = set(v for _, v in storage_of(c, p.st, s, view))
            if len(vals) == 1 and w[0].f is not vals.pop():
                return 'child is not written to the storage'
        c.each('C07.ready', c.vcall(view, s, '__setitem__', [k, n]), j,
               'ready-made node classes write a child to their own storage '
               'once, under its key')


# -- order ---------------------------------------------------------------------

def C06(c):
    q = c.q('node.behaviors.Order')
    me = c.me(q)
    S = app('attr', me, const('storage'))
    n = sym('newnode', 'node')
    ref = sym('refnode', 'node')
    NAME = app('attr', n, const('__name__'))
    RNAME = app('attr', ref, const('__name__'))
    KEYS = app('keys', me)

    def same_key(v, where):
        """Is v the key of the first/last child?"""
        k = app(where, KEYS)
        return v in (k, app('attr', app('item', me, k), const('__name__')))

    spec = {
        'insertbefore': ([n, ref], lambda e: (
            e.args[0] is const('insertbefore') and e.args[1] is RNAME)),
        'insertafter': ([n, ref], lambda e: (
            e.args[0] is const('insertafter') and e.args[1] is RNAME)),
        'insertfirst': ([n], lambda e: (
            (e.args[0] is const('insertbefore') and
             same_key(e.args[1], 'first')) or
            e.args[0] is const('insertfirst'))),
        'insertlast': ([n], lambda e: (
            (e.args[0] is const('insertafter') and
             same_key(e.args[1], 'last')) or
            e.args[0] is const('insertlast'))),
    }

    def is_insert(e):
        return e.kind == 'mcall' and e.f is S and is_const(e.args[0]) and \
            e.args[0].a[1] in ('insertbefore', 'insertafter', 'insertfirst',
                               'insertlast')

    CONTAINED = None

    def contained_fact(p):
        """Value of the path's 'node already contained' test, if any."""
        for e in p.events('mcall', me, 'node'):
            if len(e.args) == 2 and e.args[1] is app('attr', n,
                                                     const('uuid')):
                v = p.holds(c.A.pred2('is', e.res, NONE))
                return None if v is None else not v
        return None

    def unfounded(p):
        """Refusals the path gives no reason for."""
        if any(e.kind == 'raise' for e in p.events()):
            return []
        f = p.st.facts
        if contained_fact(p) or any(
                f.get(app('in', k, x)) is t for x in (S, me, KEYS)
                for k, t in ((NAME, True), (RNAME, False))):
            return []
        if f.get(c.A.pred2('is', NAME, NONE)):
            return []
        for k in f:
            if not any(k is app('in', b, x) for x in (S, me, KEYS)
                       for b in (NAME, RNAME)) and \
                    not mentions(k, NAME) and \
                    k is not app('nonempty', KEYS) and \
                    not (is_app(k, 'truthy') and mentions(k, KEYS)) and \
                    k is not app('hasattr', me, const('node')) and \
                    not any(e.kind == 'mcall' and e.f is me and
                            e.args[0] is const('node') and mentions(k, e.res)
                            for e in p.events()):
                raise Unknown('refusal because of %s' % show(k))
        return ['a node is refused which has a name, is not contained in the '
                'tree and whose name is not in use']

    def one(meth):
        args, good = spec[meth]
        ps = c.method(q, meth, args)

        def j(p):
            out = []
            evs = [e for e in p.events() if e.kind in (
                'mset', 'mdel', 'mupdate', 'mclear', 'setitem', 'delitem',
                'setattr') or is_insert(e) or (
                    e.kind == 'raise' and (e.f is S or e.f is me))]
            ins = [e for e in evs if is_insert(e)]
            ass = [e for e in evs if e.kind == 'setitem']
            dels = [e for e in evs if e.kind in ('mdel', 'delitem')]
            # an insertion which failed inserted nothing
            eff = []
            failed = []
            for i, e in enumerate(evs):
                if is_insert(e) and i + 1 < len(evs) and \
                        evs[i + 1].kind == 'raise':
                    failed.append(e)
                elif e.kind == 'setitem' and i + 1 < len(evs) and \
                        evs[i + 1].kind == 'raise':
                    failed.append(e)
                elif e.kind != 'raise':
                    eff.append(e)
            if p.ok:
                direct = meth in ('insertfirst', 'insertlast') and \
                    p.holds(app('nonempty', KEYS)) is False
                writes = [e for e in eff if e.kind != 'setitem' and
                          not is_insert(e)]
                if writes:
                    out.append('unexpected effect %s %s' % (
                        writes[0].kind, show(writes[0].args)))
                if not direct:
                    if len(ins) != 1:
                        out.append('storage insertion happens %d times' %
                                   len(ins))
                    for e in ins:
                        if not good(e):
                            out.append('node is inserted by storage.%s%s' % (
                                e.args[0].a[1], show(tuple(e.args[1:]))))
                        elif e.args[-2:] != (NAME, n):
                            out.append('node is inserted as %s' % show(
                                tuple(e.args[-2:])))
                if [e.args for e in ass] != [(NAME, n)]:
                    out.append('item assignments performed: %s' % [
                        show(e.args) for e in ass])
                elif ins and p.index(ins[0]) > p.index(ass[0]):
                    out.append('item assignment precedes the insertion, so '
                               'the node keeps its place at the end')
                for x, (noname,) in p.cases(c.A.pred2('is', NAME, NONE)):
                    if noname:
                        out.append('a node without name is accepted')
                if not direct:
                    a = p.st.facts.get(app('in', NAME, S))
                    b = p.st.facts.get(app('in', NAME, me))
                    if a is not False and b is not False:
                        out.append('a name already in use is not refused')
                    if p.holds(app('hasattr', me, const('node'))) is not \
                            False and contained_fact(p) is not False and \
                            p.holds(c.A.pred2('is', app('attr', me, const(
                                'node')), NONE)) is not True:
                        out.append('a node already contained in the tree is '
                                   'not refused')
            else:
                if failed and failed[-1].kind == 'setitem':
                    # refused by item assignment
                    rest = [e for e in eff if is_insert(e)]
                    gone = [e for e in dels if e.args[0] is NAME and
                            e.f is not me]
                    if rest and not gone and any(
                            e.args[0] is NAME for e in dels):
                        out.append('a node refused by item assignment is '
                                   'taken out of the children by item '
                                   'deletion, which may be refused too and '
                                   'announces a removal')
                    elif rest and not gone:
                        out.append('a node refused by item assignment stays '
                                   'in the storage')
                    if p.val.a[2] is not NONE and p.val.tag == 'exc' and \
                            p.val.a[0]:
                        out.append('error of item assignment is replaced by '
                                   '%s' % show(p.val))
                elif failed:
                    if eff:
                        out.append('a failing insertion changes %s' %
                                   show(eff[0].args))
                    if p.val.a[0] == '' and p.may_raise('KeyError') and \
                            failed[-1].args[0].a[1] in (
                                'insertbefore', 'insertafter'):
                        out.append('a missing reference child is not '
                                   'reported as ValueError')
                    if p.val.a[0] and not p.raises('ValueError'):
                        out.append('a missing reference child raises %s' %
                                   show(p.val))
                else:
                    if eff:
                        out.append('the node is refused after the change %s '
                                   '%s' % (eff[0].kind, show(eff[0].args)))
                    out += unfounded(p)
            return out
        c.each('C06.' + meth, ps, j, 'Order.%s: on every successful path the '
               'storage gets exactly one insertion of the node under its '
               'name at that place, followed by exactly one item assignment, '
               'and name set, not in use, not contained have been '
               'established; refusing paths have no effect, and a refusal by '
               'item assignment is preceded by removal from the storage' %
               meth)
    for m in spec:
        c.part(one, m)

    def swap():
        a, b = sym('node_a', 'node'), sym('node_b', 'node')
        ps = c.method(q, 'swap', [a, b])
        names = [app('attr', x, const('__name__')) for x in (a, b)]

        def j(p):
            if not p.ok:
                return
            m = [e for e in p.events() if e.kind in (
                'mcall', 'mset', 'mdel', 'setitem', 'delitem', 'setattr',
                'mupdate', 'mclear')]
            if any(e.kind != 'mcall' for e in m):
                raise Unknown('swap by other means')
            m = [e for e in m if e.f is S]
            if len(m) != 1 or m[0].args[0] is not const('swap'):
                return 'swapping performs %s' % [show(e.args) for e in m]
            if sorted(map(show, m[0].args[1:])) != sorted(map(show, names)):
                return 'swaps %s' % show(tuple(m[0].args[1:]))
        c.each('C06.swap', ps, j, 'Order.swap exchanges exactly the two keys '
               'of the given children in the storage')
    c.part(swap)

    def capable():
        """Classes plumbing Order need a storage able to insert."""
        for cq in sorted(c.prog.classes):
            if c.A.is_iface(cq) or c.A.is_behavior(cq):
                continue
            view = c.A.class_view(cq)
            if q not in view.bases:
                continue
            m = view.members.get('storage')
            if m is None or m.tag != 'prop':
                continue
            s = sym('self', 'node', cq)
            for p in c.call(m.a[0], [s]):
                if p.ok and p.val.tag == 'ref':
                    c.judge('C06.storage', lambda: None if c.A.ctor.get(p.val)
                            else 'storage of %s is not an odict and has no '
                            'insertion' % cq, p, text='classes with ordered '
                            'insertion have a storage which supports it')
    c.part(capable)
