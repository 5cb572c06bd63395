"""C01, C02, C03: location of stored children, rollback, child validation."""
from ..lib import (KEY, NEXT, NONE, VAL, Loop, State, Unknown, app, bi, const,
                   flat, is_app, is_const, show, subterms, sym)

READY = ['node.base.AbstractNode', 'node.base.BaseNode',
         'node.base.OrderedNode', 'node.base.Node', 'node.base.AttributedNode']
STORING = READY[1:] + ['node.behaviors.NodeAttributes']


LOCATION = [const('__name__'), const('__parent__')]
READS = [('__getitem__', [KEY]), ('get', [KEY]), ('__contains__', [KEY]),
         ('keys', []), ('values', []), ('items', []), ('__iter__', []),
         ('__len__', []), ('iterkeys', []), ('itervalues', []),
         ('iteritems', []), ('has_key', [KEY]), ('acquire', [VAL]),
         ('filteredvalues', [VAL]), ('treerepr', []), ('__repr__', []),
         ('__bool__', []), ('path', []), ('root', []), ('attrs', []),
         ('swap', [VAL, KEY])]
REMOVES = [('__delitem__', [KEY]), ('detach', [KEY]), ('pop', [KEY]),
           ('popitem', []), ('clear', [])]


def inode(c):
    return c.cls('node.interfaces.INode')


def is_node(c, v=VAL):
    return app('providedBy', inode(c), v)


def located(p, ev, v, key, me):
    """Problem with the location of v before event ev, or None."""
    n, par = p.at(ev, v, '__name__'), p.at(ev, v, '__parent__')
    out = []
    if n is not key:
        out.append('name of the child is %s instead of the key when it gets '
                   'stored' % show(n))
    if par is not me:
        out.append('parent of the child is %s instead of the node when it '
                   'gets stored' % show(par))
    return out


def final_located(p, v, key, me):
    out = []
    if p.final(v, '__name__') is not key:
        out.append('name of the stored child is %s instead of its key' %
                   show(p.final(v, '__name__')))
    if p.final(v, '__parent__') is not me:
        out.append('parent of the stored child is %s instead of the node' %
                   show(p.final(v, '__parent__')))
    return out


def final_located_init(p, s, n, par):
    out = []
    for attr, want in (('__name__', n), ('__parent__', par)):
        v = p.final(s, attr)
        if v is not want:
            out.append('a node created with %s %s has %s %s' % (
                attr.strip('_'), show(want), attr.strip('_'), show(v)))
    return out


def writes(p, v):
    """Events which write v into some mapping."""
    return [e for e, d, l in p.flat() if
            (e.kind in ('mset', 'setitem') and e.args[1] is v)]


def set_on(p, o):
    return [e for e in p.events() if e.kind in ('setattr', 'delattr') and
            e.f is o]


def simplify_plain(c):
    """The plain string keys used for composed node classes: not a nodespace
    key."""
    st = State()
    return st


def C01(c):
    INODE = is_node(c)
    Adopt = c.q('node.behaviors.Adopt')
    me = c.me(Adopt)

    def adopt():
        ps = c.plumb(Adopt, '__setitem__', [me, KEY, VAL])

        def j(p):
            out = []
            for x, (node,) in p.cases(INODE):
                calls = x.calls(NEXT)
                if x.ok and len(calls) != 1:
                    out.append('child is handed on %d times to the layers '
                               'below' % len(calls))
                for e in calls:
                    if e.args != (me, KEY, VAL):
                        out.append('layers below get %s' % show(e.args))
                    if node:
                        out += located(x, e, VAL, KEY, me)
                if node and x.ok:
                    out += final_located(x, VAL, KEY, me)
                if not node and set_on(x, VAL):
                    out.append('attributes of a value which is not a node '
                               'are set')
            return out
        c.each('C01.adopt', ps, j, 'Adopt.__setitem__: on every path handing '
               'a node to _next its __name__ is the key and __parent__ the '
               'node already, it still is on return, and values not providing '
               'INode are handed on without any attribute store')
    c.part(adopt)

    def setdefault():
        view, s = c.composed('adopt', ['node.behaviors.Adopt',
                                       'node.behaviors.Nodify'])
        D = sym('default', 'any')
        ps = c.vcall(view, s, 'setdefault', [KEY, D])

        def j(p):
            out = []
            stores = p.calls(app('endpoint', const('__setitem__')))
            for x, (node,) in p.cases(is_node(c, D)):
                for e in stores:
                    if e.args[1:] != (KEY, D):
                        out.append('stores %s' % show(e.args[1:]))
                    elif node:
                        out += located(x, e, D, KEY, s)
                if node and x.ok and stores:
                    out += final_located(x, D, KEY, s)
                if not node and set_on(x, D):
                    out.append('attributes of a value which is not a node '
                               'are set')
            return out
        c.each('C01.setdefault', ps, j, 'setdefault of an adopting mapping '
               'stores nodes located at the key and the node')
    c.part(setdefault)

    def update():
        view, s = c.composed('adopt', ['node.behaviors.Adopt',
                                       'node.behaviors.Nodify'])
        D = sym('other', 'dict')
        ps = c.vcall(view, s, 'update', [D])

        def j(p):
            out = []
            for e, d, l in p.flat():
                if e.kind == 'call' and e.f is app('endpoint',
                                                   const('__setitem__')):
                    k, v = e.args[1:3]
                    evs = [x for g, alt in l.alts if e in alt for x in alt] \
                        if l is not None else list(p.trace)
                    gs = [g for g, alt in l.alts if e in alt] if l else [()]
                    for g in gs:
                        t = dict(g).get(is_node(c, v))
                        if t is False:
                            if any(x.kind == 'setattr' and x.f is v
                                   for x in alt_events(l, g)):
                                out.append('attributes of a value which is '
                                           'not a node are set')
                            continue
                        if t is None:
                            t = p.holds(is_node(c, v))
                        if t:
                            n = par = None
                            for x in alt_events(l, g) if l else p.trace:
                                if x is e:
                                    break
                                if x.kind == 'setattr' and x.f is v:
                                    if x.args[0] is const('__name__'):
                                        n = x.args[1]
                                    if x.args[0] is const('__parent__'):
                                        par = x.args[1]
                            if n is not k or par is not s:
                                out.append('node stored without location')
            return out
        c.each('C01.update', ps, j, 'update of an adopting mapping stores '
               'nodes located at their key and the node')
    c.part(update)

    def factory():
        q = c.q('node.behaviors.ChildFactory')
        m = c.me(q)
        ps = c.plumb(q, '__getitem__', [m, KEY])

        def j(p):
            if not p.ok:
                return
            created = [e for e in p.events('call') if e.f is not NEXT]
            if not created:
                return
            if p.val is not created[-1].res:
                return
            st = [e for e in p.events('setitem', m)]
            if [e.args for e in st] != [(KEY, p.val)]:
                return 'child created by the factory is not stored by item ' \
                    'assignment under its key'
        c.each('C01.factory', ps, j, 'children created by ChildFactory are '
               'stored by item assignment of the node')
    c.part(factory)

    def fixed():
        q = c.q('node.behaviors.FixedChildren')
        m = c.me(q)
        ps = c.plumb(q, '__init__', [m])

        def j(p):
            out = []
            if not p.ok:
                return
            for l in p.loops():
                for g, evs in l.alts:
                    other = [x for h, es in l.alts if es is not evs
                             for x, d, ll in flat(es)]
                    for i, e in enumerate(evs):
                        if isinstance(e, Loop) or e.kind != 'mset':
                            continue
                        k, v = e.args
                        n = par = None
                        for x in p.events():
                            if any(x is y for y in other):
                                continue
                            if x.kind == 'setattr' and x.f is v:
                                if x.args[0] is const('__name__'):
                                    n = x.args[1]
                                if x.args[0] is const('__parent__'):
                                    par = x.args[1]
                        if n is not k:
                            out.append('name of a fixed child is %s instead '
                                       'of its key' % show(n))
                        if par is not m:
                            out.append('parent of a fixed child is %s' %
                                       show(par))
            return out
        c.each('C01.fixed', ps, j, 'every fixed child is located at its key '
               'and the node')
    c.part(fixed)

    def nodespaces():
        q = c.q('node.behaviors.Nodespaces')
        m = c.me(q)
        k = sym('key', 'str')
        ps = c.plumb(q, '__setitem__', [m, k, VAL])

        def j(p):
            out = []
            for e in writes(p, VAL):
                if e.args[0] is k:
                    out += located(p, e, VAL, k, m) if e.kind == 'mset' or \
                        True else []
                    if p.ok:
                        out += final_located(p, VAL, k, m)
            return out
        c.each('C01.nodespace', ps, j, 'a nodespace is located at its key and '
               'the node when it gets stored')
    c.part(nodespaces)

    def ready():
        for name in STORING:
            q = c.q(name)
            view = c.A.class_view(q)
            s = sym('self', 'node', q)
            ps = c.vcall(view, s, '__setitem__', [KEY, VAL])

            def j(p):
                out = []
                for x, (node,) in p.cases(INODE):
                    if node:
                        for e in writes(x, VAL):
                            if e.args[0] is KEY:
                                out += located(x, e, VAL, KEY, s)
                        if x.ok:
                            out += final_located(x, VAL, KEY, s)
                    elif set_on(x, VAL) and x.holds(app(
                            'isinstance', KEY, bi('str'))) is not True:
                        out.append('attributes of a value which is not a '
                                   'node are set')
                return out
            c.each('C01.' + name.split('.')[-1], ps, j, 'item assignment of '
                   'the ready-made node classes, all layers included, stores '
                   'nodes located and never locates other values')
    c.part(ready)

    def init():
        N, P = sym('name', 'any'), sym('parent', 'any')
        for name in STORING:
            q = c.q(name)
            view = c.A.class_view(q)
            s = sym('self', 'node', q)

            def j(p):
                if not p.ok:
                    return 'creating a node fails with %s' % show(p.value) \
                        if p.out == 'raise' else None
                return final_located_init(p, s, N, P)
            for args, kw in (([N, P], {}), ([], {'name': N, 'parent': P})):
                ps = c.vcall(view, s, '__init__', args, kw)
                c.each('C01.init', ps, j, 'a node of the ready-made classes '
                       'carries exactly the name and parent it is created '
                       'with')
    c.part(init)

    def others():
        for name in STORING:
            q = c.q(name)
            view = c.A.class_view(q)
            s = sym('self', 'node', q)
            for meth, args in READS + REMOVES:
                if meth not in view.members:
                    continue

                def j(p):
                    for e, d, l in p.flat():
                        if e.kind not in ('setattr', 'delattr') or \
                                e.args[0] not in LOCATION:
                            continue
                        if (meth, args) in REMOVES and not (
                                l is not None or is_app(e.f, 'item') and
                                any(is_app(x, 'elem') or is_app(x, 'found')
                                    for x in subterms(e.f))):
                            # what got removed
                            continue
                        if any(x.tag == 'ref' for x in (e.f,)):
                            continue
                        return '%s of %s is set although it is not stored ' \
                            'anew' % (e.args[0].a[1], show(e.f))
                try:
                    ps = c.vcall(view, s, meth, args)
                except Unknown:
                    continue
                c.each('C01.others', ps, j, 'reading and removing children '
                       'of the ready-made classes does not change the '
                       'location of (other) children')
    c.part(others)

    def order():
        if True:
            q = c.q('node.behaviors.Order')
            m = c.me(q)
            n = sym('newnode', 'node')
            for meth, args in (('insertfirst', [n]), ('insertlast', [n]),
                               ('insertbefore', [n, sym('ref', 'node')]),
                               ('insertafter', [n, sym('ref', 'node')])):
                ps = c.method(q, meth, args)

                def j(p):
                    if not p.ok:
                        return
                    ass = [e for e in p.events('setitem', m)
                           if e.args[1] is n]
                    if not ass:
                        return 'inserted node is not run through item ' \
                            'assignment, hence not located'
                    if ass[-1].args[0] is not app('attr', n,
                                                  const('__name__')):
                        return 'inserted node is assigned under %s' % show(
                            ass[-1].args[0])
                c.each('C01.' + meth, ps, j, 'ordered insertion assigns the '
                       'node under its own name by item assignment')
    c.part(order)


def alt_events(l, g):
    if l is None:
        return ()
    for gg, evs in l.alts:
        if gg == g:
            return evs
    return ()


def C02(c):
    INODE = is_node(c)
    Adopt = c.q('node.behaviors.Adopt')
    me = c.me(Adopt)

    def restored(p, v):
        out = []
        for n in ('__name__', '__parent__'):
            if not p.untouched(v, n):
                out.append('%s of the refused child stays %s' %
                           (n, show(p.final(v, n))))
        return out

    def adopt():
        ps = c.plumb(Adopt, '__setitem__', [me, KEY, VAL])

        def j(p):
            out = []
            calls = p.calls(NEXT)
            if len(calls) > 1:
                out.append('storing is attempted %d times' % len(calls))
            fails = p.events('raise', NEXT)
            if fails and p.ok:
                out.append('error of the layers below is swallowed')
            elif fails and not p.passes_on(NEXT):
                out.append('error of the layers below is replaced by %s' %
                           show(p.val))
            if not p.ok:
                out += restored(p, VAL)
                if not fails:
                    if p.val.a[2].tag == 'app' and \
                            p.val.a[2].a[0] == 'noattr':
                        return []
                    out.append('fails on its own')
            return out
        c.each('C02.adopt', ps, j, 'Adopt.__setitem__: on every path on which '
               '_next raises any Exception, that very error leaves the '
               'function, __name__ and __parent__ of the node hold their '
               'initial values, and _next was called once')
    c.part(adopt)

    def relocated():
        # a layer below which relocates the node itself, like one keeping it
        # in some container of its own
        new = dict((n, sym('below ' + n, 'any'))
                   for n in ('__name__', '__parent__'))

        def hook(st):
            st = st.copy()
            for n, v in new.items():
                st.cells[(VAL, n)] = v
            return [st]
        c.A.hooks[NEXT] = hook
        try:
            ps = c.plumb(Adopt, '__setitem__', [me, KEY, VAL])
        finally:
            c.A.hooks.clear()

        def j(p):
            if p.ok or not p.events('raise', NEXT) or \
                    p.holds(INODE) is not True:
                return
            out = []
            for n in ('__name__', '__parent__'):
                x = p.final(VAL, n)
                if not p.untouched(VAL, n):
                    out.append('%s of the refused child stays %s if a layer '
                               'below changes it' % (n, show(x)))
            return out
        c.each('C02.relocated', ps, j, 'Adopt.__setitem__: __name__ and '
               '__parent__ of a refused node are restored also if the layers '
               'below change them')
    c.part(relocated)

    def ready():
        for name in STORING:
            q = c.q(name)
            view = c.A.class_view(q)
            s = sym('self', 'node', q)
            ps = c.vcall(view, s, '__setitem__', [KEY, VAL])

            def j(p):
                if not p.ok:
                    return restored(p, VAL)
            c.each('C02.' + name.split('.')[-1], ps, j, 'no failing path of '
                   'item assignment of a ready-made node class leaves the '
                   'refused node relocated')
    c.part(ready)

    def below():
        # refused by a layer below in a class of its own
        view, s = c.composed('adopt', ['node.behaviors.Adopt',
                                       'node.behaviors.Nodify'])
        D = sym('default', 'any')
        ps = c.vcall(view, s, 'setdefault', [KEY, D])

        def j(p):
            if p.calls(app('endpoint', const('__setitem__'))) and not p.ok:
                return restored(p, D)
        c.each('C02.setdefault', ps, j, 'a node refused by setdefault keeps '
               'its location')
    c.part(below)


def effects(p):
    return [e for e in p.events() if e.kind in (
        'setattr', 'delattr', 'mset', 'mdel', 'mupdate', 'setitem', 'delitem',
        'mclear', 'call') and not (e.kind == 'call' and e.f.tag == 'bi')]


def C03(c):
    INODE = is_node(c)
    q = c.q('node.behaviors.NodeChildValidate')
    me = c.me(q)
    allow = app('truthy', app('attr', me, const('allow_non_node_childs')))
    ISCLASS = app('isclass', VAL)

    def alone():
        ps = c.plumb(q, '__setitem__', [me, KEY, VAL])

        def j(p):
            out = []
            calls = p.calls(NEXT)
            for x, (al, cl, node) in p.cases(allow, ISCLASS, INODE):
                if not al and (cl or not node):
                    what = 'a class' if cl else 'a value which is no node'
                    if effects(x):
                        out.append('%s is handed on' % what)
                    if x.ok:
                        out.append('%s is accepted' % what)
                    elif not x.raises('ValueError'):
                        out.append('%s raises %s instead of ValueError' %
                                   (what, show(x.val)))
                else:
                    if [e.args for e in calls] != [(me, KEY, VAL)]:
                        out.append('an allowed value is handed on as %s' %
                                   ([show(e.args) for e in calls] or
                                    'nothing'))
                    if not x.ok and not x.passes_on(NEXT):
                        out.append('an allowed value is refused with %s' %
                                   show(x.val))
            return sorted(set(out))
        c.each('C03.validate', ps, j, 'NodeChildValidate.__setitem__: unless '
               'allowed, classes and values not providing INode leave by '
               'ValueError without effect; everything else is handed on once, '
               'unchanged')
    c.part(alone)

    def ready():
        for name in STORING:
            k = c.q(name)
            view = c.A.class_view(k)
            s = sym('self', 'node', k)
            al_ = app('truthy', app('attr', s,
                                    const('allow_non_node_childs')))
            ps = c.vcall(view, s, '__setitem__', [KEY, VAL])

            def j(p):
                out = []
                for x, (al, cl, node) in p.cases(al_, ISCLASS, INODE):
                    if not al and (cl or not node):
                        if x.ok:
                            out.append('a %s is accepted' % (
                                'class' if cl else 'value which is no node'))
                        elif not x.raises('ValueError'):
                            out.append('raises %s' % show(x.val))
                        if effects(x):
                            e = effects(x)[0]
                            out.append('refused after an effect: %s %s %s' % (
                                e.kind, show(e.f), show(e.args)))
                return sorted(set(out))
            c.each('C03.' + name.split('.')[-1], ps, j, 'in ready-made node '
                   'classes no effect precedes the refusal of a value which '
                   'is no node')
    c.part(ready)
