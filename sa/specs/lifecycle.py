"""C20, C21: life cycle events."""
from ..interp import Ctx
from ..lib import (KEY, NEXT, NONE, VAL, Missing, State, Unknown, app, bi,
                   const, cval, is_app, is_const, mentions, mk, show, subterms,
                   sym, tup)
from .location import set_on

CTX = Ctx('node')
NOTIFY = bi('zope.component.event.objectEventNotify')
EVENTS = {
    'created': ('INodeCreatedEvent', 'ObjectCreatedEvent', ()),
    'added': ('INodeAddedEvent', 'ObjectAddedEvent',
              ('newParent', 'newName')),
    'modified': ('INodeModifiedEvent', 'ObjectModifiedEvent', ()),
    'removed': ('INodeRemovedEvent', 'ObjectRemovedEvent',
                ('oldParent', 'oldName')),
    'detached': ('INodeDetachedEvent', 'ObjectRemovedEvent',
                 ('oldParent', 'oldName')),
}
NAMES = [const(n) for n in EVENTS]


def notified(p):
    """Events sent, in order: [(position, event)]."""
    out = []
    for i, e in enumerate(p.trace):
        if getattr(e, 'kind', None) == 'call' and e.f is NOTIFY:
            out.append((i, e))
    inside = [e for e in p.calls(NOTIFY) if p.in_loop(e)]
    if inside:
        raise Unknown('events are sent in a loop')
    return out


def sent(p, ev, owner):
    """(name of the event, its node, its other arguments by name)."""
    v = ev.args[0] if ev.args else None
    if len(ev.args) != 1 or ev.kw:
        raise Unknown('sends %s' % show(tuple(ev.args)))
    if v.tag == 'ref':
        raise Unknown('sends an event of a fixed class')
    if not is_app(v, 'ret') or not is_app(v.a[1], 'item') or \
            not is_app(v.a[1].a[1], 'attr') or \
            v.a[1].a[1].a[2] is not const('events') or \
            not is_const(v.a[1].a[2]):
        raise Unknown('sends %s' % show(v))
    name = cval(v.a[1].a[2])
    if v.a[1].a[1].a[1] is not owner:
        if v.a[1].a[1].a[1].tag == 'sym':
            return name + ' of ' + show(v.a[1].a[1].a[1]), None, {}
        raise Unknown('sends %s' % show(v))
    if name not in EVENTS:
        raise Unknown('sends %s' % name)
    args = list(v.a[2].a)
    kw = {cval(x.a[0]): x.a[1] for x in v.a[3].a}
    names = EVENTS[name][2]
    node = args[0] if args else kw.pop('object', None)
    for n, x in zip(names, args[1:]):
        kw[n] = x
    return name, node, kw


def expect(p, owner, name, node, others, after, what):
    """Problems with the one event expected."""
    out = []
    evs = notified(p)
    if len(evs) != 1:
        return ['%s sends %d events' % (what, len(evs))] if evs or p.ok \
            else []
    i, e = evs[0]
    if i < after:
        out.append('%s is announced before it happened' % what)
    n, x, kw = sent(p, e, owner)
    if n != name:
        out.append('%s sends the event "%s"' % (what, n))
        return out
    if x is not node:
        out.append('the event of %s carries %s' % (what, show(x)))
    want = dict(zip(EVENTS[name][2], others))
    for k, v in want.items():
        if kw.get(k) is not v:
            out.append('the event of %s has %s %s' % (
                what, k, show(kw[k]) if k in kw else 'not set'))
    for k in kw:
        if k not in want:
            out.append('the event of %s gets %s' % (what, k))
    return out


def own_failure(p):
    """Creating or sending the event failed."""
    if p.ok:
        return False
    if p.val.tag == 'exc' and is_app(p.val.a[2], 'nokey'):
        return is_app(p.val.a[2].a[1], 'attr') and \
            p.val.a[2].a[1].a[2] is const('events')
    for e in p.events('raise'):
        if e.args[0] is p.val and e.f is not NEXT:
            if e.f is NOTIFY:
                return True
            f = e.f
            while f.tag == 'app' and f.a[0] in ('item', 'attr'):
                if is_app(f, 'attr') and f.a[2] is const('events'):
                    return True
                f = f.a[1]
            if mentions(e.f, const('events')):
                return True
    return False


def known(paths):
    """Paths on which there are classes for all events."""
    return [p for p in paths if not any(
        v is False and is_app(f, 'in') and f.a[1] in NAMES and
        is_app(f.a[2], 'attr') and f.a[2].a[2] is const('events')
        for f, v in p.st.facts.items())]


def passed_on(p, args, kw=None):
    calls = p.calls(NEXT)
    if len(calls) != 1:
        return None, ['is passed on %d times' % len(calls)]
    a = calls[0].args
    if list(a) != list(args) or (kw is not None and dict(
            calls[0].kw) != kw):
        return calls[0], ['is passed on with %s' % show(tuple(a[1:]))]
    return calls[0], []


def C20(c):
    q = c.q('node.behaviors.Lifecycle')
    me = c.me(q)
    flags = []
    c.part(classes, c, q)
    c.part(created, c, q, me)
    c.part(detach, c, q, me, flags)
    c.part(added, c, q, me, flags)
    c.part(removed, c, q, me, flags)
    c.part(composed, c)


def classes(c, q):
    """The classes the events are made of."""
    loaded = [r for r in c.A.load(State(), mk('cls', q), 'events', None, CTX)
              if r.ok]
    if len(loaded) != 1:
        raise Missing('events')
    m = c.A.inits.get((loaded[0].val, 'map'))
    if m is None:
        raise Unknown('events are %s' % show(loaded[0].val))
    got = {}
    for op in m:
        if op[0] == 'set' and is_const(op[1]):
            got[cval(op[1])] = op[2]

    def j(name):
        iface, base, names = EVENTS[name]
        v = got.get(name)
        if v is None:
            return 'there is no event class for "%s"' % name
        if v.tag != 'cls':
            raise Unknown('%s is %s' % (name, show(v)))
        view = c.A.class_view(v.a[0])
        want = c.cls('node.interfaces.' + iface)
        out = []
        if want not in view.provides:
            out.append('events "%s" do not provide %s' % (name, iface))
        if not any(x.split('.')[-1] == base for x in view.ext):
            out.append('events "%s" are no %s' % (name, base))
        return out
    def init(name):
        iface, base, names = EVENTS[name]
        v = got.get(name)
        if v is None or v.tag != 'cls':
            return
        m = c.A.class_view(v.a[0]).members.get('__init__')
        if m is None:
            return
        me = sym('event', 'plain')
        names = ('object',) + names
        args = [sym(n, 'any') for n in names]
        for p in c.call(m, [me] + args):
            if not p.ok:
                continue
            up = [e for e in p.events('call') if any(
                x is const('__init__') for x in subterms(e.f))]
            if len(up) != 1:
                raise Unknown('event is initialised otherwise')
            given = list(up[0].args)
            if not is_app(up[0].f, 'superattr') and given[:1] == [me]:
                del given[0]
            given = dict(zip(names, given))
            given.update((cval(x.a[0]), x.a[1]) if hasattr(x, 'a') else x
                         for x in up[0].kw)
            for n, x in zip(names, args):
                y = given.get(n)
                if y is not x:
                    if y is None or is_const(y) or y in args or y is me:
                        return 'an event "%s" has %s as %s' % (
                            name, 'nothing' if y is None else show(y), n)
                    raise Unknown('event is initialised with %s' % show(y))

    for n in sorted(EVENTS):
        c.judge('C20.classes', lambda: j(n), where=c.where_cls(q),
                text='the event class of each change provides the interface '
                     'of that change')
        c.judge('C20.classes', lambda: init(n), where=c.where_cls(q))


def created(c, q, me):
    ARGS, KW = sym('a', 'any'), sym('k', 'any')

    def j(p):
        call, out = passed_on(p, [me, ARGS], {'kw': KW})
        if call is None:
            return out
        if p.events('raise', NEXT):
            if p.calls(NOTIFY):
                out.append('failed creation is announced')
            if p.ok:
                out.append('an error of initialization is swallowed')
            elif not p.passes_on(NEXT):
                out.append('an error of initialization is replaced')
            return out
        if own_failure(p):
            return out
        if not p.ok:
            return out + ['fails with %s' % show(p.val)]
        return out + expect(p, me, 'created', me, (), p.index(call),
                            'creation')
    c.each('C20.created', known(c.plumb(q, '__init__', [me, ARGS], {'kw': KW})), j,
           '__init__: after _next returned one "created" event with the node')


def detach(c, q, me, flags):
    # only the layers below failing matters for what is left behind
    ps = known(c.failing(c.plumb, q, 'detach', [me, KEY]))

    def j(p):
        call, out = passed_on(p, [me, KEY])
        if call is None:
            if not p.ok and not notified(p):
                return
            return out
        for n in sorted(set(cval(e.args[0]) for e in set_on(p, me))):
            v = p.at(call, me, n)
            if v is app('attr', me, const(n)):
                continue
            if is_const(v) and not cval(v):
                out.append('notification is switched on while detaching')
            elif not is_const(v) and p.truth(v) is not True:
                raise Unknown('%s is %s' % (n, show(v)))
            elif n not in flags:
                flags.append(n)
            if not p.untouched(me, n):
                out.append('notification stays suppressed after detaching%s'
                           % ('' if p.ok else ' failed'))
            for i, e in notified(p):
                if p.at(e, me, n) is not app('attr', me, const(n)):
                    out.append('notification is still suppressed when '
                               'detaching is announced')
        if not any(p.at(call, me, n) is not app('attr', me, const(n))
                   for n in flags):
            out.append('removal is not suppressed while detaching')
        if p.events('raise', NEXT):
            if p.calls(NOTIFY):
                out.append('failed detaching is announced')
            if p.ok:
                out.append('an error of detaching is swallowed')
            elif not p.passes_on(NEXT):
                out.append('an error of detaching is replaced by %s' % show(
                    p.val))
            return out
        if own_failure(p):
            return out
        if not p.ok:
            return out + ['fails with %s' % show(p.val)]
        if p.val is not call.res:
            out.append('returns %s instead of the node detached' % show(
                p.val))
        return out + expect(p, me, 'detached', call.res, (me, KEY),
                            p.index(call), 'detaching')
    c.each('C20.detach', ps, j, 'detach: while _next runs the flag the '
           'other operations look at is set, it has its previous value again '
           'on every return and raise; then one "detached" event with node, '
           'parent and name', fatal=True)


def suppressed(p, owner, flags, out, what):
    """True if the path is known to be suppressed."""
    t = []
    for n in flags:
        f = app('attr', owner, const(n))
        t.append(p.truth(f))
        # the flag is one of the two truth values
        for o in ('is', 'eq'):
            for v in (True, False):
                h = p.st.facts.get(p.A.pred2(o, f, const(v)))
                if h is not None and t[-1] is None:
                    t[-1] = h == v
    if True in t:
        if notified(p):
            out.append('%s is announced though notification is suppressed' %
                       what)
        return True
    if not flags:
        raise Unknown('how notification is suppressed')
    if None in t:
        if notified(p):
            out.append('%s is announced without looking whether '
                       'notification is suppressed' % what)
            return None
    return False


def added(c, q, me, flags):
    def j(p):
        call, out = passed_on(p, [me, KEY, VAL])
        if call is None:
            return out
        if p.events('raise', NEXT):
            if p.calls(NOTIFY):
                out.append('failed setting of a child is announced')
            if p.ok:
                out.append('an error of setting is swallowed')
            elif not p.passes_on(NEXT):
                out.append('an error of setting is replaced')
            return out
        if own_failure(p) or suppressed(p, me, flags, out, 'adding'):
            return out
        if not p.ok:
            return out + ['fails with %s' % show(p.val)]
        return out + expect(p, me, 'added', VAL, (me, KEY), p.index(call),
                            'adding')
    c.each('C20.added', known(c.plumb(q, '__setitem__', [me, KEY, VAL])), j,
           '__setitem__: after _next returned one "added" event with the '
           'child, parent and name, none if suppressed or _next failed')


def removed(c, q, me, flags):
    item = app('item', me, KEY)

    def j(p):
        reads = [e for e in p.events('getitem', me)]
        if not p.calls(NEXT) and not p.ok and p.val.tag == 'exc':
            if p.calls(NOTIFY):
                return 'a failed removal is announced'
            return
        call, out = passed_on(p, [me, KEY])
        if call is None:
            return out
        if p.events('raise', NEXT):
            if p.calls(NOTIFY):
                out.append('failed removal is announced')
            if p.ok:
                out.append('an error of removal is swallowed')
            elif not p.passes_on(NEXT):
                out.append('an error of removal is replaced')
            return out
        if [e for e in reads if p.index(e) > p.index(call)]:
            out.append('the child is read after it was removed')
            return out
        if own_failure(p) or suppressed(p, me, flags, out, 'removal'):
            return out
        if not p.ok:
            return out + ['fails with %s' % show(p.val)]
        return out + expect(p, me, 'removed', item, (me, KEY), p.index(call),
                            'removal')
    c.each('C20.removed', known(c.plumb(q, '__delitem__', [me, KEY])), j,
           '__delitem__: after _next returned one "removed" event with the '
           'child read before, parent and name, none if suppressed or _next '
           'failed')


def composed(c):
    """The behaviors together with the mapping part of nodes."""
    B = 'node.behaviors.'
    view, me = c.composed('lifecycle', [B + n for n in (
        'Lifecycle', 'Nodify', 'OdictStorage')])

    def j(want):
        def f(p):
            n = [sent(p, e, me)[0] for i, e in notified(p)]
            if not p.ok:
                return
            if n == want:
                return
            # suppressed from outside
            if not n and want != ['detached'] and any(
                    g.tag == 'app' and g.a[0] in ('truthy', 'is', 'eq') and
                    is_app(g.a[1], 'attr') and g.a[1].a[1] is me and v
                    for g, v in p.st.facts.items()):
                return
            if n == want[:1] * len(n) and len(n) == 1:
                return
            for g in p.st.facts:
                if any(is_app(t, 'num') and any(
                        is_app(x, 'attr') and x.a[1] is me
                        for x in subterms(t)) for t in subterms(g)):
                    raise Unknown('depends on a number, %s' % show(g))
            return 'sends %s instead of %s' % (
                ', '.join(n) or 'nothing', ', '.join(want))
        return f
    for name, args, want in (
            ('detach', [KEY], ['detached']), ('__delitem__', [KEY],
                                              ['removed']),
            ('__setitem__', [KEY, VAL], ['added'])):
        c.each('C20.composed', known(c.vcall(view, me, name, args)), j(want),
               'plumbed on top of the storage: detach sends "detached" only, '
               'deletion "removed" only, setting "added" only')


# -- attributes -------------------------------------------------------------------

def C21(c):
    q = c.q('node.behaviors.AttributesLifecycle')
    lq = c.q('node.behaviors.Lifecycle')
    me = c.me(q)
    flags = []
    quiet = type(c)(c.A, c.pid)
    quiet.part(detach, quiet, lq, quiet.me(lq), flags)
    for name, args in (('__setitem__', [KEY, VAL]), ('__delitem__', [KEY])):
        c.part(modified, c, q, me, name, args, flags)


def modified(c, q, me, name, args, flags):
    PARENT = app('attr', me, const('__parent__'))
    what = 'setting an attribute' if name == '__setitem__' else \
        'deleting an attribute'

    def j(p):
        call, out = passed_on(p, [me] + args)
        if call is None:
            return out
        if p.events('raise', NEXT):
            if p.calls(NOTIFY):
                out.append('a failed change is announced')
            if p.ok:
                out.append('an error of the layers below is swallowed')
            elif not p.passes_on(NEXT):
                out.append('an error of the layers below is replaced')
            return out
        if own_failure(p) or suppressed(p, PARENT, flags, out, what):
            return out
        if not p.ok:
            return out + ['fails with %s' % show(p.val)]
        return out + expect(p, PARENT, 'modified', PARENT, (),
                            p.index(call), what)
    c.each('C21.%s' % name.strip('_'), known(c.plumb(q, name, [me] + args)), j,
           '%s: after _next returned one "modified" event for the parent, '
           'none if suppressed on the parent or _next failed' % name)
