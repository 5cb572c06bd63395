"""C22 - C25: event dispatching."""
import ast
import copy

from ..interp import Ctx
from ..lib import (NONE, VAL, Loop, Missing, State, Unknown, app, bi, const,
                   cval, is_app, is_const, mentions, mk, show, subterms, sym)

CTX = Ctx('node')
B = 'node.behaviors.'
EV, E2 = sym('event', 'str'), sym('event2', 'str')
SUB = sym('subscriber', 'callable')
A1, A2, K1 = sym('a1', 'any'), sym('a2', 'any'), sym('k1', 'any')
SUBS = const('__subscribers__')
WRITES = ('setattr', 'delattr', 'lop', 'mset', 'mdel', 'mupdate', 'mclear',
          'setitem', 'delitem', 'setglobal')
MODULES = ('node.behaviors.events', 'node.behaviors.fallback')


# -- state of a thread ------------------------------------------------------------

def root(v):
    while v.tag == 'app' and v.a[0] in ('attr', 'item'):
        v = v.a[1]
    return v


def globs(c):
    """Objects made when the modules are imported."""
    A = c.A
    out = []
    for m in MODULES:
        if m not in A.prog.modules:
            continue
        for n in sorted(A.prog.modules[m].bindings):
            v = A.glob_value(m, n)
            if v is None:
                continue
            if v.tag == 'glob':
                out.append(v)
            f = v.a[1] if is_app(v, 'cmfactory') else v
            if f.tag == 'fn':
                for x in A.prog.modules[m].tree.body:
                    if isinstance(x, ast.Assign) and \
                            isinstance(x.targets[0], ast.Attribute):
                        x = A.function_attr(f, x.targets[0].attr)
                        if x is not None and x.tag == 'glob':
                            out.append(x)
            if v.tag == 'cls' and v.a[0].startswith('node.'):
                view = A.mixin_view(v.a[0]) if A.is_behavior(v.a[0]) else \
                    A.class_view(v.a[0])
                for a in sorted(view.members):
                    x = view.members[a]
                    if x is not None and x.tag == 'glob':
                        out.append(x)
    return out


def locals_of(c):
    """Thread local objects: [(object, class or None)]"""
    out = []
    for g in globs(c):
        kind, view = c.A.globinfo.get(g, (None, None))
        if view is not None and c.A.is_tlocal(view):
            out.append((g, view))
        elif kind == 'tlocal':
            out.append((g, None))
    return out


def fresh(c):
    """State of a thread which did not use the library before."""
    st = State()
    for g, view in locals_of(c):
        ps = [] if view is None else [
            p for p in c.call(mk('cls', view.name), [], st=st) if p.ok]
        if view is None or not ps and c.A.inits.get(g):
            # as if it was the thread which imported the library: its
            # arguments are used for every thread
            for n, v in c.A.inits.get(g, {}).items():
                st.cells[(g, n)] = v
                if v.tag == 'ref' and len(v.a) > 1 and v.a[1] == 'list':
                    st.lists[v] = ()
                if v.tag == 'ref' and len(v.a) > 1 and v.a[1] == 'dict':
                    st.maps[v] = ()
            continue
        if len(ps) != 1:
            raise Unknown('state of a thread')
        st = ps[0].st.copy()
        for (o, n), v in list(st.cells.items()):
            if o is ps[0].val:
                st.cells[(g, n)] = v
                del st.cells[(o, n)]
        # values found on the class as long as there are no others
        for n, v in view.members.items():
            if v.tag == 'const' and not n.startswith('__'):
                st.cells.setdefault((g, n), v)
    clean = State()
    for n in ('cells', 'lists', 'maps', 'kinds', 'facts', 'frames'):
        setattr(clean, n, getattr(st, n))
    return clean.copy()


def since(p, st):
    return p.trace[len(st.trace):]


class Tail(object):
    """The part of a path after a state."""

    def __init__(self, p, st):
        self.p = p
        self.top = p.trace[len(st.trace):]

    def loops(self):
        return [e for e in self.top if isinstance(e, Loop)]

    def flat(self):
        from ..lib import flat
        return [e for e, d, l in flat(self.top)]

    def calls(self):
        return [e for e in self.flat() if e.kind == 'call']


# -- delivery ---------------------------------------------------------------------

def loops_calling(t, src):
    """Loops over src, or a single call of an unrolled one."""
    return [l for l in t.loops() if l.src is src]


def delivered(p, t, src, args, kw, there, what):
    """Problems of calling everything in src once with the arguments.

    ``there``: facts which, being false, mean that there is nothing to call.
    """
    out = []
    ls = loops_calling(t, src)
    el = app('elem', src)
    used = [l for l in ls if any(e.kind == 'call' and e.f is el
                                 for g, evs in l.alts for e in evs
                                 if not isinstance(e, Loop))]
    if not used:
        if any(p.holds(f) is False for f in there) or \
                p.holds(app('nonempty', src)) is False or \
                is_app(src, 'keys') and p.truth(src.a[1]) is False:
            return []
        fd = app('found', src)
        if any(e.kind == 'call' and e.f is fd for e in t.top
               if not isinstance(e, Loop)):
            pass
        elif p.ok:
            return ['%s are not called' % what]
        else:
            return []
    if len(used) > 1:
        out.append('%s are called %d times' % (what, len(used)))
    for l in used:
        if l.partial and p.ok:
            out.append('%s following some subscriber are not called' % what)
        if l.obj is not NONE:
            out.append('%s are called in reversed order' % what)
        for g, evs in l.alts:
            cs = [e for e in evs if not isinstance(e, Loop) and
                  e.kind == 'call' and e.f is el]
            if not cs:
                out.append('some %s are not called' % what)
            if len(cs) > 1:
                out.append('%s are called more than once' % what)
            for e in cs:
                if list(e.args) != list(args) or dict(e.kw) != kw:
                    out.append('%s are called with %s' % (
                        what, show(tuple(e.args) + tuple(e.kw))))
    return out


def live(t, src):
    for l in loops_calling(t, src):
        v = l.live
        if v is not None and app('keys', v) is src:
            return True
    return False


def raised_by(p, t):
    """Operation which failed, for raising paths."""
    for e in reversed(t.top):
        if not isinstance(e, Loop) and e.kind == 'raise' and \
                e.args and e.args[0] is p.val:
            return e
    return None


def calling(t, args, but):
    """Calls of anything else than the elements of the given sources."""
    ok = set(app(k, s) for s in but for k in ('elem', 'found'))
    return [e for e in t.calls() if e.f not in ok and e.f.tag in (
        'app', 'sym') and not is_app(e.f, 'superattr')]


# -- C22 --------------------------------------------------------------------------

def view_of(c):
    return c.composed('events', [B + 'Events'])


def C22(c):
    q = c.q(B + 'Events')
    c.part(dispatch, c)
    c.part(bind, c, q)
    c.part(unbind, c, q)
    c.part(register, c, q)
    c.part(instances, c)
    c.part(hook, c)


def subs_of(me, ev):
    return app('item', app('attr', me, SUBS), ev)


def dispatch(c):
    view, me = view_of(c)
    fn = view.members.get('dispatch')
    if fn is not None and fn.tag == 'fn':
        node = c.A.fns[fn.a[0]].node
        c.judge('C22.snapshot', lambda: looked_again(node) is not None and
                'a subscriber unbound while the event is dispatched is '
                'skipped, the subscriptions are asked again between the calls',
                where=c.where_of(fn),
                text='dispatch: the loop calling the subscribers does not ask '
                'the live subscriptions again')
    st = fresh(c)
    for args, kw in [((), {}), ((A1, A2), {'k': K1})] + [
            ((A1,), {x: K1}) for x in c.options(fn)]:
        ps = c.vcall(view, me, 'dispatch', [EV] + list(args), kw,
                     st=st.copy())
        src = app('keys', subs_of(me, EV))
        want = dict((k, v) for k, v in kw.items())

        def j(p):
            t = Tail(p, st)
            out = judge_dispatch(p, t, me, EV, args, want)
            if live(t, src):
                out.append('subscribers changing the subscriptions make '
                           'others be skipped')
            return out
        c.each('C22.dispatch', ps, j, 'dispatch: on every path one loop over '
               'the subscribers of that event on the object, a copy of the '
               'list being iterated, each element called exactly once with '
               'exactly the arguments; nothing else is called; their errors '
               'pass')


def looked_again(fn):
    """Loop calling subscribers which asks the subscriptions, between the
    calls, whether the subscriber is still there."""
    names = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(
                n.targets[0], ast.Name) and about_subs(n.value, ()):
            names.add(n.targets[0].id)
    for n in ast.walk(fn):
        if not isinstance(n, ast.For) or not isinstance(n.target, ast.Name):
            continue
        x = n.target.id
        inner = [m for b in n.body for m in ast.walk(b)]
        if not any(isinstance(m, ast.Call) and isinstance(m.func, ast.Name)
                   and m.func.id == x for m in inner):
            continue
        for m in inner:
            if isinstance(m, ast.Compare) and len(m.ops) == 1 and isinstance(
                    m.ops[0], (ast.In, ast.NotIn)) and isinstance(
                        m.left, ast.Name) and m.left.id == x and \
                    about_subs(m.comparators[0], names):
                return m


def about_subs(n, names):
    """The expression is the registered list itself, no copy of it."""
    while True:
        if isinstance(n, ast.Name):
            return n.id in names
        if isinstance(n, ast.Attribute):
            return n.attr == '__subscribers__'
        if isinstance(n, ast.Subscript) and not isinstance(
                n.slice, ast.Slice):
            n = n.value
        elif isinstance(n, ast.Call) and isinstance(
                n.func, ast.Attribute) and n.func.attr in (
                    'get', 'setdefault', '__getitem__'):
            n = n.func.value
        else:
            return False


def judge_dispatch(p, t, me, ev, args, kw, more=()):
    S = app('attr', me, SUBS)
    src = app('keys', subs_of(me, ev))
    out = []
    if not p.ok:
        r = raised_by(p, t)
        if r is None or not (is_app(r.f, 'found') or is_app(r.f, 'iter')):
            out.append('fails with %s' % show(p.val))
        elif is_app(r.f, 'found') and not p.passes_on(r.f):
            out.append('an error of a subscriber is replaced')
    else:
        if [e for e in t.flat() if e.kind == 'raise' and
                is_app(e.f, 'found') and mentions(e.f, SUBS)]:
            out.append('an error of a subscriber is swallowed')
    out += delivered(p, t, src, args, kw, [app('in', ev, S)], 'subscribers')
    other = calling(t, args, [src] + list(more))
    if other:
        e = other[0]
        if mentions(e.f, SUBS):
            if is_app(e.f, 'elem') or is_app(e.f, 'found'):
                if e.f.a[1] is not src and mentions(e.f.a[1], ev):
                    raise Unknown('calls %s' % show(e.f))
            out.append('calls %s' % show(e.f))
        elif any(a in e.args for a in args):
            out.append('calls %s as well' % show(e.f))
    ch = [e for e in t.flat() if e.kind in WRITES and root(e.f) is me]
    if ch:
        out.append('dispatching changes %s' % show(ch[0].f))
    return out


def list_ops(p, me, ev, start=0):
    """What happened to the list of subscribers of one event, in order:
    ('append'|'remove'|..., args), ('drop',), ('fresh', segments)."""
    S = app('attr', me, SUBS)
    L = app('item', S, ev)
    out = []
    for e in p.trace[start:]:
        if isinstance(e, Loop):
            if any(x.kind in WRITES or x.kind == 'mcall'
                   for g, evs in e.alts for x in evs
                   if not isinstance(x, Loop)):
                raise Unknown('subscriptions are changed in a loop')
            continue
        if e.kind == 'mcall' and e.f is L:
            out.append((cval(e.args[0]),) + tuple(e.args[1:]))
        elif e.kind == 'lop' and e.f is L:
            out.append((e.args[0] if isinstance(e.args[0], str) else
                        cval(e.args[0]),) + tuple(e.args[1:]))
        elif e.kind == 'mset' and e.f is S and e.args[0] is ev:
            done = left_over(p, dict(e.kw).get('now', e.args[1]), L)
            if done:
                out.append(done)
                continue
            segs = p.segs(e.args[1])
            if segs is None:
                raise Unknown('subscribers become %s' % show(e.args[1]))
            segs = tuple(segs)
            own = [s for s in segs if s[0] == 'many' and
                   s[1] is app('keys', L)]
            rest = [s for s in segs if s not in own]
            if own and segs[0] is own[0] and len(own) == 1 and \
                    all(s[0] == 'item' for s in rest):
                alts = list(own[0][3])
                if len(alts) == 1 and not alts[0][0]:
                    out += [('append', s[1]) for s in rest]
                    continue
                raise Unknown('subscribers are filtered')
            if own:
                raise Unknown('subscribers become %s' % show(segs))
            out.append(('fresh', segs))
        elif e.kind == 'mdel' and e.f is S and e.args[0] is ev:
            out.append(('drop',))
        elif e.kind in WRITES and root(e.f) is me:
            out.append(('other', e))
    return out


def left_over(p, v, L):
    """What the list v keeps of the list L: ('remove', subscriber) if it
    leaves out just that one, ('cut', …) if it keeps some part of it."""
    if is_app(v, 'slice') and v.a[1] is L:
        return ('cut', v)
    segs = p.segs(v)
    if segs is None or len(segs) != 1 or segs[0][0] != 'many' or \
            segs[0][1] is not app('keys', L):
        return None
    el = segs[0][2]
    ke, ki = p.A.pred2('eq', el, SUB), p.A.pred2('is', el, SUB)
    kind = set()
    for g, items in segs[0][3]:
        g = dict(g)
        if items not in ((), (('item', el), )) or set(g) - {ke, ki}:
            return None
        if not items and g.get(ke) is not True and g.get(ki) is not True:
            return ('cut', v)
        if items and (g.get(ke) is not False):
            kind.add('cut')
    return ('cut', v) if kind else ('remove', SUB)


EVENTS = const('__events__')


def bind(c, q):
    me = c.me(q)
    name = const('some_event')
    own = app('in', name, app('attr', me, EVENTS))
    S = app('attr', me, SUBS)
    L = app('item', S, name)

    def declared(p):
        """Whether the event is known, as far as tested."""
        ts = []
        for k, v in p.st.facts.items():
            if is_app(k, 'in') and k.a[1] is name and mentions(
                    k.a[2], EVENTS) and k.a[2] is not app('attr', me, EVENTS):
                if is_app(k.a[2], 'attr') and k.a[2].a[2] is EVENTS:
                    ts.append(v)
                else:
                    raise Unknown('looks for events in %s' % show(k.a[2]))
        o = p.holds(own)
        if o is True or True in ts:
            return True
        if o is False and ts and all(t is False for t in ts):
            return False
        return None if o is None or not ts else False

    def j(p):
        out = []
        d = declared(p)
        ops = list_ops(p, me, name)
        if not p.ok:
            if d is True:
                return 'a known event is refused with %s' % show(p.val)
            if p.exc_short != 'UnknownEvent':
                out.append('an unknown event is refused with %s' % show(
                    p.val))
            if ops:
                out.append('an event is bound before it is refused')
            return out
        if d is None:
            if p.holds(own) is False and not mentions(
                    tuple(k for k in p.st.facts), EVENTS):
                raise Unknown('how events are known')
            out.append('an event is bound which is not known to be %s' % (
                'declared or registered' if p.holds(own) is None else
                'declared'))
        if d is False:
            out.append('an unknown event is bound')
        oth = [o for o in ops if o[0] == 'other']
        if oth:
            if oth[0][1].kind == 'setattr' and \
                    oth[0][1].args[0] is not SUBS:
                return out
            out.append('binding changes %s' % show(oth[0][1].f))
        has = p.holds(app('in', name, S))
        if has is False:
            # the list made may be filled after it was stored
            fin = [o for o in ops if o[0] == 'fresh']
            segs = None
            for op in p.map_log(S):
                if op[0] == 'set' and op[1] is name:
                    segs = p.segs(op[2])
            if segs is None and len(fin) == 1:
                segs = fin[0][1]
            if segs is None:
                return out + ['the first subscriber of an event is lost']
            if [s for s in segs] != [('item', SUB)]:
                out.append('binding the first subscriber gives %s' % show(
                    tuple(segs)))
            return out
        known = p.holds(app('in', SUB, L))
        adds = [o for o in ops if o[0] != 'other']
        if any(o[0] == 'fresh' for o in adds) and has is None:
            raise Unknown('whether the event has subscribers')
        if known is True and not adds:
            return out
        # the list is seen after the change
        if len(adds) == 1 and adds[0] == ('append', SUB):
            if ('checked', name) in seen:
                return out
            if known is None and not any(
                    is_app(k, 'in') and k.a[1] is SUB
                    for k in p.st.facts):
                out.append('a subscriber bound twice is called twice')
            return out
        if not adds:
            if known is False or has is True:
                out.append('the subscriber is not bound')
                return out
            raise Unknown('binding')
        out.append('binding does %s to the subscribers' % ', '.join(
            o[0] + show(tuple(o[1:])) for o in adds))
        return out
    seen = set()
    ps = c.method(q, 'bind', [], {'some_event': SUB})
    c.each('C22.bind', ps, j, 'bind: an event neither registered on the '
           'object nor declared by its class raises UnknownEvent without '
           'any change; otherwise the subscriber is appended unless '
           'contained')
    # appended whether contained or not?
    def both(p):
        if not p.ok:
            return
        if [o for o in list_ops(p, me, name) if o[0] == 'append']:
            app_facts.append(p.holds(app('in', SUB, L)))
    app_facts = []
    ps = c.method(q, 'bind', [], {'some_event': SUB, 'other_event': SUB})

    def jb(p):
        if not p.ok:
            return
        out = []
        for n in (name, const('other_event')):
            ops = [o for o in list_ops(p, me, n) if o[0] != 'other']
            if len(ops) > 1:
                out.append('binding several events changes one twice')
            if not ops and p.holds(app('in', SUB, app('item', S, n))) \
                    is not True and p.holds(app('in', n, S)) is not None \
                    and not any(o[0] == 'set' and o[1] is n
                                for o in p.map_log(S)):
                out.append('only some of the events given are bound')
        return out
    c.each('C22.bind', ps, jb)

    # whatever the event is named
    for x in c.options(c.A.mixin_view(q).members.get('bind')):
        def jn(p, x=x):
            if p.ok and not any(o[0] != 'other' for o in list_ops(
                    p, me, const(x))) and not mentions(
                        tuple(p.st.facts), const(x)):
                return 'an event named "%s" cannot be bound' % x
        c.each('C22.bind', c.method(q, 'bind', [], {x: SUB}), jn)

    # events of any name
    KW = sym('kw', 'dict')

    def known(facts, k):
        ts = [v for f, v in facts if is_app(f, 'in') and f.a[1] is k and
              is_app(f.a[2], 'attr') and f.a[2].a[2] is EVENTS]
        if any(is_app(f, 'in') and f.a[1] is k and mentions(
                f.a[2], EVENTS) and not is_app(f.a[2], 'attr')
               for f, v in facts):
            raise Unknown('looks for events otherwise')
        return True if True in ts else False if len(ts) > 1 else None

    def ja(p):
        src = app('keys', KW)
        k = app('found', src)
        if not p.ok:
            if known(p.st.facts.items(), k) is True:
                return 'a known event is refused with %s' % show(p.val)
        for l in p.loops():
            if l.src is not src:
                continue
            for g, evs in l.alts:
                if known(g, app('elem', src)) is False and (
                        p.ok or evs):
                    return 'an unknown event is bound'
    c.each('C22.bind', c.method(q, 'bind', [], {'**': KW}), ja)


def unbind(c, q):
    me = c.me(q)
    S = app('attr', me, SUBS)
    L = app('item', S, EV)

    def wiped(p):
        f = p.final(me, '__subscribers__')
        return f.tag == 'ref' and p.map_log(f) == () or any(
            e.kind == 'mclear' and e.f is S for e in p.events())

    def everything(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        f = p.final(me, '__subscribers__')
        if f.tag == 'ref' and p.map_log(f) == ():
            return
        if f is S:
            if any(e.kind == 'mclear' and e.f is S for e in p.events()):
                return
            if not [e for e in p.events() if root(e.f) is me]:
                return 'nothing is unbound'
            raise Unknown('unbinds otherwise')
        if f.tag == 'ref':
            return 'subscribers are left: %s' % show(p.map_log(f))
        if is_const(f):
            return 'subscribers become %s' % show(f)
        raise Unknown('subscribers become %s' % show(f))
    c.each('C22.unbind-all', c.method(q, 'unbind', []), everything,
           'unbind(): no subscription is left')

    def event(p):
        if not p.ok:
            if p.holds(app('in', EV, S)) is False or p.may_raise('KeyError'):
                return 'unbinding an event without subscribers fails with ' \
                    '%s' % show(p.val)
            return 'fails with %s' % show(p.val)
        if not p.untouched(me, '__subscribers__'):
            if wiped(p):
                return 'all subscriptions are dropped though %s given' % 'an event or '\
                    'subscriber is'
            raise Unknown('unbinds otherwise')
        log = [o for o in p.map_log(S)]
        ops = list_ops(p, me, EV)
        if p.holds(app('in', EV, S)) is False and not log:
            return
        if [o[0] for o in log] == ['del'] and log[0][1] is EV:
            return
        if [o[0] for o in ops] == ['clear'] and not log:
            return
        if log and [o for o in log if o[0] == 'set' and o[1] is EV and
                    p.segs(o[2]) == ()]:
            return
        if not log and not ops:
            if any(e.kind in WRITES + ('mcall',) for e in p.events()):
                raise Unknown('unbinds otherwise')
            return 'the event stays bound'
        if any(o[0] == 'clear' for o in log):
            return 'all events are unbound'
        if any(o[0] in ('append', 'remove', 'pop') for o in ops):
            return 'only some subscribers are unbound'
        raise Unknown('unbinds otherwise')
    c.each('C22.unbind-event', c.method(q, 'unbind', [], {'event': EV}),
           event, 'unbind(event): the subscriptions of that event are '
           'dropped, those of others stay, none being there is no error')

    def one(p):
        """Exactly the subscriber is removed from the list."""
        if not p.ok:
            return 'fails with %s' % show(p.val)
        if not p.untouched(me, '__subscribers__'):
            if wiped(p):
                return 'all subscriptions are dropped though %s given' % 'an event or '\
                    'subscriber is'
            raise Unknown('unbinds otherwise')
        ops = list_ops(p, me, EV)
        if p.holds(app('in', EV, S)) is False:
            if [o for o in ops if o[0] == 'other']:
                raise Unknown('unbinds otherwise')
            return
        if ops == [('remove', SUB)]:
            return
        if not ops:
            if p.holds(app('in', SUB, L)) is False:
                return
            if any(e.kind in WRITES + ('mcall',) for e in p.events()):
                raise Unknown('unbinds otherwise')
            return 'the subscriber stays bound'
        if any(o[0] in ('drop', 'clear') for o in ops):
            return 'all subscribers of the event are unbound'
        for l in p.loops():
            for g, evs in l.alts:
                if any(not isinstance(e, Loop) and e.kind in ('lop', 'mcall')
                       and SUB in e.args and is_app(e.f, 'item') and
                       e.f.a[1] is S and e.f.a[2] is not EV for e in evs) \
                        and not any(EV in k.a for k, v in g
                                    if k.tag == 'app'):
                    return 'the subscriber is unbound from other events'
        if any(o[0] in ('fresh', 'other', 'pop') for o in ops):
            raise Unknown('unbinds otherwise')
        return 'unbinding does %s' % ', '.join(o[0] for o in ops)
    c.each('C22.unbind-one', c.method(q, 'unbind', [], {
        'event': EV, 'subscriber': SUB}), one, 'unbind(event, subscriber): '
        'that subscriber is removed from the list of that event if it is '
        'contained, nothing else, no error if not')

    def every(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        if not p.untouched(me, '__subscribers__'):
            if wiped(p):
                return 'all subscriptions are dropped though %s given' % 'an event or '\
                    'subscriber is'
            raise Unknown('unbinds otherwise')
        src = app('keys', S)
        lists = app('item', S, app('elem', src))
        ls = [l for l in p.loops() if l.src is src]
        if not ls:
            if p.holds(app('nonempty', src)) is False:
                return
            if p.loops() and all(l.src is app('keys', app('attr', me, EVENTS))
                                 for l in p.loops()) and not any(
                    is_app(f, 'nonempty') and mentions(f, S)
                    for f in p.st.facts):
                return 'the subscriber stays bound to events declared by ' \
                    'the class'
            if p.loops() or p.events('mcall'):
                raise Unknown('unbinds otherwise')
            return 'the subscriber stays bound'
        out = []
        for l in ls:
            if l.partial:
                out.append('the subscriber stays bound to some events')
            for g, evs in l.alts:
                new = [left_over(p, dict(e.kw).get('now', e.args[1]), lists)
                       for e in evs
                       if not isinstance(e, Loop) and e.kind == 'mset' and
                       e.f is S and e.args[0] is app('elem', src)]
                if len(new) == 1 and new[0]:
                    if new[0] != ('remove', SUB):
                        out.append('subscribers become %s' % show(new[0][1]))
                    continue
                ops = [e for e in evs if not isinstance(e, Loop) and
                       e.kind in ('mcall', 'lop') and e.f is lists]
                oth = [e for e in evs if isinstance(e, Loop) or
                       (e.kind in WRITES and e not in ops)]
                if oth:
                    raise Unknown('unbinds otherwise')
                names = [x.args[0] if isinstance(x.args[0], str) else
                         cval(x.args[0]) for x in ops]
                contained = dict(g).get(app('in', SUB, lists))
                if names == ['remove'] and ops[0].args[1:] == (SUB,):
                    continue
                if not names:
                    if contained is False:
                        continue
                    out.append('the subscriber stays bound to some events')
                else:
                    out.append('unbinding does %s' % ', '.join(names))
        return out
    c.each('C22.unbind-subscriber', c.method(q, 'unbind', [], {
        'subscriber': SUB}), every, 'unbind(subscriber): it is removed from '
        'the list of every event containing it')


def register(c, q):
    me = c.me(q)
    L = app('attr', me, EVENTS)

    def j(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        ops = [e for e in p.flat() if e[0].kind in WRITES]
        ev = [e for e, d, l in ops]
        mine = [e for e in ev if e.f is L]
        if [e for e in ev if e.f is not L]:
            e = [e for e in ev if e.f is not L][0]
            if e.kind == 'setattr' and e.f is me and e.args[0] is EVENTS:
                segs = p.segs(e.args[1])
                if segs and segs[-1] == ('item', EV) and len(segs) == 2 and \
                        segs[0][0] == 'many' and segs[0][1] is app(
                            'keys', L):
                    return
            if root(e.f) is not me:
                return 'registers at %s' % show(e.f)
            raise Unknown('registers otherwise')
        if len(mine) > 1 or mine and list(mine[0].args[1:]) != [EV]:
            raise Unknown('registers otherwise')
        if not mine and p.holds(app('in', EV, L)) is not True:
            if not any(mentions(k, L) for k in p.st.facts):
                return 'the event is not registered'
            raise Unknown('registers otherwise')
    c.each('C22.register', c.method(q, 'register_event', [EV]), j,
           'register_event: the event is contained in the list of the '
           'object afterwards, nothing of the class changes')


def instances(c):
    view, me = view_of(c)
    if '__new__' not in view.members:
        raise Unknown('instances are prepared otherwise')
    a, k = sym('arg', 'any'), sym('kwarg', 'any')
    cls = mk('cls', view.name)

    def j(p):
        made = [e for e in p.events('call') if is_app(e.f, 'superattr') or
                'object.__new__' in show(e.f)]
        out = []
        for e in made:
            if a in e.args or any(k in x for x in e.kw):
                out.append('arguments of the constructor are given to '
                           'object, which refuses them')
        if not p.ok:
            if not made:
                out.append('fails with %s' % show(p.val))
            return out
        if not made or p.val is not made[-1].res:
            raise Unknown('instances are made otherwise')
        for n, what in (('__events__', 'registered events'),
                        ('__subscribers__', 'subscribers')):
            f = p.st.cells.get((p.val, n))
            if f is None:
                out.append('an instance has no %s of its own' % what)
                continue
            if f.tag != 'ref':
                if f.tag == 'glob' or is_app(f, 'attr'):
                    out.append('%s are shared: %s' % (what, show(f)))
                    continue
                raise Unknown('%s are %s' % (what, show(f)))
            if p.st.lists.get(f) or p.st.maps.get(f):
                out.append('%s are not empty initially' % what)
        return out
    c.each('C22.instances', c.vcall(view, cls, '__new__', [a], {'kwarg': k}),
           j, 'each instance gets its own empty list of events and its own '
           'empty mapping of subscribers, constructor arguments do not reach '
           'object.__new__')


def hook(c, names=False):
    """The function run for each class using the behavior.

    With names, only how event attributes are found under their name.
    """
    fns = []
    for m in MODULES[:1]:
        for n in sorted(c.prog.modules[m].bindings):
            v = c.A.glob_value(m, n)
            if v is not None and v.tag == 'fn':
                fd = c.A.fns[v.a[0]]
                for d in getattr(fd.node, 'decorator_list', ()):
                    import ast
                    if 'metaclasshook' in ast.dump(d):
                        fns.append(v)
    fns = list(dict.fromkeys(fns))
    if not fns:
        raise Unknown('classes are prepared otherwise')
    cl, d = sym('cls', 'any'), sym('dct', 'dict')
    I = c.glob('node.interfaces.IEvents')
    is_ev = app('implementedBy', I, cl)
    EA = c.cls(B + 'EventAttribute')
    val = app('item', d, app('elem', app('keys', d)))
    key = app('elem', app('keys', d))
    at = app('attr', cl, EVENTS)
    own = app('in', EVENTS, app('instdict', cl))
    ea_key = key_of(c)
    hits = []

    def inherits(segs):
        return any(s[0] == 'many' and s[1] is app('keys', at) for s in segs)

    def given(p):
        # what distinguishes paths, except for the presence of the attribute
        return set((k, v) for k, v in p.st.facts.items()
                   if not is_app(k, 'hasattr'))

    def sibling(p):
        # the same, the attribute being present
        return any(x is not p and given(x) == given(p) and
                   inherits(x.segs(x.final(cl, '__events__')) or ())
                   for x in hits)

    def j(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        if p.holds(is_ev) is False:
            if [e for e in p.events() if e.kind in WRITES]:
                return 'other classes are changed'
            return
        if p.holds(is_ev) is None:
            if [e for e in p.events() if e.kind in WRITES] and not any(
                    mentions(k, 'cls') or mentions(k, cl) for k in p.st.facts
                    if k is not own and not is_app(k, 'hasattr')):
                return 'other classes are changed'
            raise Unknown('to which classes it applies')
        out = []
        f = p.final(cl, '__events__')
        if f is at:
            if p.holds(own) is not True:
                out.append('events declared by a subclass are added to '
                           'those of its base class')
            segs = None
        elif f.tag == 'ref' and f in p.st.lists:
            segs = p.segs(f)
            if p.holds(own) is not False:
                # own declarations must be kept
                if not any(s[0] == 'many' and s[1] is app('keys', at)
                           for s in segs) and not (
                        p.holds(own) is None and sibling(p)):
                    out.append('declared events are lost')
            else:
                if not inherits(segs) and not sibling(p):
                    out.append('events of the base class are not '
                               'inherited')
        else:
            raise Unknown('events of a class are %s' % show(f))
        ls = [l for l in p.loops() if l.src is app('keys', d)]
        if not ls:
            if p.holds(app('nonempty', app('keys', d))) is False:
                return out
            raise Unknown('attributes are found otherwise')
        other = [l for l in p.loops() if l not in ls and any(
            isinstance(e, Loop) or e.kind == 'setattr'
            for g, evs in l.alts for e in evs)]
        if other:
            raise Unknown('attributes are prepared in a loop over %s' %
                          show(other[0].src))
        # loops which just select attributes
        ls = [l for l in ls if any(evs for g, evs in l.alts)] or ls
        every = ls
        ls = [l for l in ls if any(
            not isinstance(e, Loop) and e.kind == 'setattr' and
            e.f is val for g, evs in l.alts for e in evs)] or ls
        for l in ls:
            if l.partial:
                out.append('attributes following some attribute are not '
                           'prepared')
            for g, evs in l.alts:
                isea = dict(g).get(app('isinstance', val, EA))
                named = [e for e in evs if not isinstance(e, Loop) and
                         e.kind == 'setattr' and e.f is val]
                if isea is False:
                    if named:
                        out.append('other attributes get a name')
                    continue
                if isea is None:
                    if not named:
                        out.append('event attributes may be left out')
                    continue
                if [(e.args[0], e.args[1]) for e in named] != [
                        (ea_key, key)]:
                    out.append('an event attribute gets %s' % (', '.join(
                        '%s = %s' % (show(e.args[0]), show(e.args[1]))
                        for e in named) or 'no name'))
        # every event attribute is an event
        if segs is None:
            reg = False
            for l in every:
                for g, evs in l.alts:
                    if dict(g).get(app('isinstance', val, EA)) and [
                            e for e in evs if not isinstance(e, Loop) and
                            e.kind == 'lop' and e.f is at and
                            e.args[1:] == (key,)]:
                        reg = True
        else:
            reg = any(s[0] in ('many', 'part') and any(
                ('item', key) in items for g, items in s[3])
                for s in segs if s[0] == 'many' and s[1] is app('keys', d))
        if not reg:
            out.append('event attributes are not among the events of the '
                       'class')
        return out

    def jn(p):
        r = j(p)
        return [x for x in ([r] if isinstance(r, str) else r or [])
                if 'event attribute' in x]
    for h in fns:
        ps = c.call(h, [cl, sym('name', 'str'), sym('bases', 'tuple'), d])
        hits[:] = [p for p in ps if p.ok and
                   p.final(cl, '__events__') in p.st.lists]
        if names:
            c.each('C23.named', ps, jn, 'class creation: every event '
                   'attribute of the class gets the name it is bound to and '
                   'that name is an event of the class')
            continue
        c.each('C22.classes', ps, j,
               'class creation: a class using the behavior has a list of '
               'events of its own, starting with those it inherits, and '
               'every event attribute of the class gets its name and is '
               'contained')


# -- C23 --------------------------------------------------------------------------

def key_of(c):
    """Attribute of event attributes holding the key of the value."""
    a = Attr(c)
    for p in c.call(a.member('__set__'), [a.ea, a.obj, VAL],
                    st=fresh(c)):
        for e in p.events('setitem'):
            if is_app(e.args[0], 'attr') and e.args[0].a[1] is a.ea:
                return e.args[0].a[2]
    raise Unknown('how values are stored')


class Attr(object):
    """An event attribute and an object having it."""

    def __init__(self, c):
        self.c = c
        self.q = c.q(B + 'EventAttribute')
        self.ea = c.me(self.q, 'inst', 'attribute')
        self.view, _ = view_of(c)
        self.obj = sym('obj', 'node', self.view.name)
        self.default = app('attr', self.ea, const('default'))
        self.kind = app('attr', self.ea, const('storage'))
        self.S = app('attr', self.obj, self.kind)
        self.subs = None

    def member(self, n):
        return self.c.member(self.q, n)


def C23(c):
    a = Attr(c)
    KEY = app('attr', a.ea, key_of(c))
    OWN = own_subscribers(c, a)
    c.part(constructor, c, a, OWN)
    c.part(setting, c, a, KEY, OWN)
    c.part(reading, c, a, KEY)
    c.part(deleting, c, a, KEY, OWN)
    c.part(only_once, c, a, KEY, OWN)
    c.part(hook, c, True)


def own_subscribers(c, a):
    """List the decorator adds to."""
    fns = []

    def j(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        if p.val is not SUB:
            return 'the decorator replaces the function by %s' % show(p.val)
        ops = [e for e, d, l in p.flat() if e.kind in WRITES]
        if not ops:
            return 'the subscriber is not registered'
        if len(ops) != 1 or ops[0].kind != 'lop' or \
                root(ops[0].f) is not a.ea:
            raise Unknown('registers otherwise')
        if ops[0].args[-1] is not SUB:
            return 'registers %s' % show(ops[0].args[-1])
        fns.append(ops[0].f)
    c.each('C23.subscriber', c.call(a.member('subscriber'), [a.ea, SUB]), j,
           'subscriber: appends the function to the list of the attribute '
           'and returns it')
    if not fns:
        raise Unknown('subscribers of an attribute')
    return fns[0]


def constructor(c, a, OWN):
    d, s, al = sym('d', 'any'), sym('s', 'str'), sym('always', 'any')

    def j(p, want):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        out = []
        for n, v in want:
            f = p.st.cells.get((p.val, n))
            if f is not v and not (f is not None and is_const(f) and
                                   is_const(v) and cval(f) == cval(v)):
                if f is None:
                    ld = [r.val for r in c.A.load(
                        p.st.copy(), mk('cls', a.q), n, None, CTX) if r.ok]
                    if ld == [v]:
                        continue
                out.append('%s is %s' % (n, show(f) if f else 'not kept'))
        own = p.st.cells.get((p.val, cval(OWN.a[2])))
        if own is None or own.tag != 'ref':
            out.append('subscribers are shared by all attributes')
        elif p.segs(own):
            out.append('there are subscribers initially')
        return out
    c.each('C23.constructor', c.call(mk('cls', a.q), [d, s, al]),
           lambda p: j(p, (('default', d), ('storage', s),
                           ('always_dispatch', al))),
           'constructor: default, storage and always_dispatch are kept, the '
           'list of subscribers is its own')
    unset = c.glob('node.utils.UNSET')
    c.each('C23.constructor', c.call(mk('cls', a.q), []),
           lambda p: j(p, (('default', unset), ('storage', const('__dict__')),
                           ('always_dispatch', const(False)))))


def olds(p, a, KEY, upto):
    """Values read from the storage before the given event."""
    out = []
    for e in p.trace[:upto]:
        if isinstance(e, Loop):
            continue
        if e.kind == 'mcall' and e.f is a.S and e.args[0] is const('get') \
                and e.args[1] is KEY:
            if len(e.args) == 3 and e.args[2] is a.default:
                out.append(e.res)
        if e.kind == 'getitem' and e.f is a.S and e.args[0] is KEY:
            out.append(e.res)
            if is_app(e.res, 'item'):
                continue
            out.append(a.default)
    if p.st.facts.get(app('in', KEY, a.S)) is False:
        out.append(a.default)
    return out


def announced(p, t, a, KEY, OWN, value):
    """Problems of announcing the value to the subscribers."""
    out = []
    own, bound = app('keys', OWN), app('keys', subs_of(a.obj, KEY))
    if not p.ok:
        r = raised_by(p, t)
        if r is None or not is_app(r.f, 'found'):
            if r is None or not is_app(r.f, 'iter'):
                out.append('fails with %s' % show(p.val))
            return out
        if not p.passes_on(r.f):
            out.append('an error of a subscriber is replaced')
    out += delivered(p, t, own, [a.obj, value], {}, [],
                     'subscribers of the attribute')
    if p.ok or not mentions(p.val, OWN):
        out += delivered(p, t, bound, [value], {}, [
            app('in', KEY, app('attr', a.obj, SUBS))], 'subscribers bound')
    pos = {}
    for i, e in enumerate(t.top):
        fs = [e.f] if not isinstance(e, Loop) else [
            x.f for g, evs in e.alts for x in evs if not isinstance(x, Loop)]
        for f in fs:
            for s in (own, bound):
                if f in (app('elem', s), app('found', s)):
                    pos.setdefault(s, i)
    if own in pos and bound in pos and pos[bound] < pos[own]:
        out.append('subscribers bound to the object are called before those '
                   'of the attribute')
    other = [e for e in calling(t, (), [own, bound])
             if value in e.args]
    if other:
        out.append('calls %s as well' % show(other[0].f))
    return out


def setting(c, a, KEY, OWN):
    st = fresh(c)
    ps = c.call(a.member('__set__'), [a.ea, a.obj, VAL], st=st.copy())
    always = app('attr', a.ea, const('always_dispatch'))

    def j(p):
        t = Tail(p, st)
        out = []
        stores = [e for e, d, l in p.flat() if e.kind in ('setitem', 'mset')
                  and not mentions(e.f, SUBS) and (
                      root(e.f) is a.obj or e.f is a.S)]
        calls = [i for i, e in enumerate(t.top) if any(
            mentions(x.f, OWN) or mentions(x.f, SUBS)
            for x in ([e] if not isinstance(e, Loop) else
                      [y for g, evs in e.alts for y in evs
                       if not isinstance(y, Loop)]) if x.kind == 'call')]
        good = [e for e in stores if e.f is a.S and
                list(e.args) == [KEY, VAL]]
        if not good:
            if stores:
                return 'stores %s' % show(tuple(stores[0].args))
            if calls:
                return 'the event is dispatched without storing the value'
            if p.ok:
                if [e for e in p.events('mcall') if e.f is a.S and
                        e.args[0] is not const('get')]:
                    raise Unknown('stores otherwise')
                if [e for e in p.events('setattr') if e.f is a.obj]:
                    return 'the storage configured is not used'
                return 'the value is not stored'
            return
        if len(stores) > 1:
            raise Unknown('stores several times')
        at = p.index(good[0])
        if calls and calls[0] + len(st.trace) < at:
            out.append('the event is dispatched before the value is stored')
        if not p.ok:
            r = raised_by(p, t)
            if r is not None and (r.f is a.S):
                if calls:
                    out.append('a failed change is announced')
                return out
        # whether it is a real change
        alw = p.truth(always)
        old = olds(p, a, KEY, at)
        ch = None
        for k, v in p.st.facts.items():
            if k.tag == 'app' and k.a[0] == 'eq' and VAL in k.a[1:]:
                o = k.a[1] if k.a[2] is VAL else k.a[2]
                if o not in old:
                    if mentions(o, a.S) or mentions(o, a.default):
                        out.append('the value is compared to %s' % show(o))
                    continue
                ch = not v
        if ch is None:
            for k, v in p.st.facts.items():
                if k.tag == 'app' and k.a[0] == 'is' and VAL in k.a[1:] and v:
                    ch = False
        if not calls:
            if not p.ok:
                return out
            if alw is True:
                pass
            elif alw is None and ch is None and not t.loops():
                out.append('a change may not be announced')
            elif ch is False:
                return out
            elif ch is None and alw is False:
                pass
            if p.holds(app('nonempty', app('keys', OWN))) is False:
                return out
        if calls or alw is True or ch is True:
            if alw is not True and ch is False:
                out.append('an event is dispatched though the value did not '
                           'change')
            elif alw is not True and ch is None:
                out.append('an event is dispatched without comparing the '
                           'values')
            out += announced(p, t, a, KEY, OWN, VAL)
        elif ch is None and alw is False and p.ok:
            out.append('a change is not announced')
        return out
    c.each('C23.set', ps, j, '__set__: the value is stored in the storage '
           'named, under the name of the attribute, before anything is '
           'dispatched; dispatched exactly if always_dispatch or not equal '
           'to the value read before; first the subscribers of the '
           'attribute with object and value, then those bound with the '
           'value')


def reading(c, a, KEY):
    def j(p):
        if not p.ok:
            if p.events('raise') and not p.may_raise('KeyError'):
                return
            r = p.events('raise')
            if r and r[-1].args[0] is p.val and r[-1].kind and \
                    r[-1].f is a.S and p.passes_on(a.S):
                return
            return 'fails with %s' % show(p.val)
        v = p.val
        if is_app(v, 'mret') and v.a[1] is a.S and v.a[2] is const('get'):
            if list(v.a[3].a) != [KEY, a.default]:
                return 'reads %s' % show(v.a[3])
            return
        if v is app('item', a.S, KEY):
            return
        if v is a.default:
            miss = [e for e in p.events('raise') if e.f is a.S]
            if p.holds(app('in', KEY, a.S)) is False or miss:
                return
            return 'the default is returned though there may be a value'
        if is_app(v, 'item') or is_app(v, 'attr') or is_const(v) or \
                is_app(v, 'mret'):
            return 'returns %s' % show(v)
        raise Unknown('returns %s' % show(v))
    typ = sym('type_', 'any')
    # the object may be anything, a false one for example
    a = copy.copy(a)
    a.obj = sym('obj', 'any')
    a.S = app('attr', a.obj, a.kind)
    c.each('C23.get', [p for p in c.call(
        a.member('__get__'), [a.ea, a.obj, typ])
        if p.holds(app('is', a.obj, NONE)) is not True], j,
        '__get__: the value stored or the default')

    def jc(p):
        if not p.ok:
            return 'reading from the class fails with %s' % show(p.val)
        if p.val not in (a.default, a.ea):
            raise Unknown('returns %s' % show(p.val))
    c.each('C23.get', c.call(a.member('__get__'), [a.ea, NONE, typ]), jc)


def deleting(c, a, KEY, OWN):
    st = fresh(c)
    unset = c.glob('node.utils.UNSET')

    def j(p):
        t = Tail(p, st)
        dels = [e for e in p.events() if e.kind in ('delitem', 'mdel') and
                e.f is a.S]
        if not dels:
            # taken out and thrown away
            dels = [e for e in p.events('mcall', a.S)
                    if e.args == (const('pop'), KEY)]
        calls = [i for i, e in enumerate(t.top) if any(
            mentions(x.f, OWN) or mentions(x.f, SUBS)
            for x in ([e] if not isinstance(e, Loop) else
                      [y for g, evs in e.alts for y in evs
                       if not isinstance(y, Loop)]) if x.kind == 'call')]
        if not dels:
            if any(e.args[:1] == (const('pop'),) and e.args[1:2] == (KEY,)
                   and len(e.args) > 2 for e in p.events('mcall', a.S)):
                return 'removing a missing value does not fail'
            if p.events('mcall', a.S):
                raise Unknown('removes otherwise')
            if p.ok or calls:
                return 'the value is not removed'
            return
        if dels[0].args[-1] is not KEY or len(dels[0].args) > (
                2 if dels[0].kind == 'mcall' else 1):
            return 'removes %s' % show(tuple(dels[0].args))
        out = []
        if calls and calls[0] + len(st.trace) < p.index(dels[0]):
            out.append('removal is announced before')
        if not p.ok:
            r = raised_by(p, t)
            if r is not None and r.f is a.S:
                if calls:
                    out.append('a failed removal is announced')
                return out
        out += announced(p, t, a, KEY, OWN, unset)
        return out
    c.each('C23.delete', c.call(a.member('__delete__'), [a.ea, a.obj],
                                st=st.copy()), j,
           '__delete__: the value is removed from the storage, then UNSET is '
           'announced to the subscribers of the attribute and those bound')


def only_once(c, a, KEY, OWN):
    """Subscribers of the attribute get its events only."""
    st = fresh(c)
    own = app('keys', OWN)
    other = sym('other_obj', 'node', a.view.name)
    X = sym('other_value', 'any')
    taken = []

    def hook(s):
        taken.append(s.copy())
        return []
    for f in (app('elem', own), app('found', own)):
        c.A.hooks[f] = hook
    try:
        after = []
        for name, args in (('__set__', [a.ea, a.obj, VAL]),
                           ('__delete__', [a.ea, a.obj])):
            after += [p.st for p in c.call(a.member(name), args,
                                           st=st.copy())]
    finally:
        c.A.hooks.clear()

    def leak(what, s):
        def j(p):
            t = Tail(p, s)
            if any(mentions(e.f, OWN) for e in t.calls()):
                return 'subscribers of the attribute get %s' % what
        return j
    for what, states in (('a later event', after),
                         ('an event dispatched by one of them', taken)):
        for s in states[:24]:
            ps = c.vcall(a.view, other, 'dispatch', [E2, X], st=s.copy())
            c.each('C23.only', ps, leak(what, s), 'whatever way setting or '
                   'deleting ends, and while its subscribers run, '
                   'dispatching another event calls no subscriber of the '
                   'attribute')


# -- C24 --------------------------------------------------------------------------

def C24(c):
    c.part(creation, c)
    c.part(balance, c)
    c.part(depth, c)
    c.part(scenarios, c)
    c.part(attribute_events, c)


def sup(c):
    q = c.q(B + 'suppress_events')
    v = c.A.class_view(q)
    for n in ('__enter__', '__exit__'):
        if n not in v.members:
            raise Unknown('suppression is no context manager class')
    return q, v


def depth(c):
    """Entering returns how many suppressions are entered."""
    q, v = sup(c)
    st = fresh(c)
    for n in (1, 2, 3):
        a = single(c, c.call(mk('cls', q), [], st=st), 'suppress_events()')
        ps = c.call(v.members['__enter__'], [a.val], st=a.st)

        def j(p):
            if not p.ok:
                return 'entering fails with %s' % show(p.val)
            if is_const(p.val) and cval(p.val) is not None:
                return cval(p.val) != n and \
                    'entering suppression %d returns %s' % (n, show(p.val))
            if is_const(p.val):
                return 'entering returns None'
            raise Unknown('entering returns %s' % show(p.val))
        c.each('C24.depth', ps, j, 'entering returns the nesting depth')
        st = single(c, ps, 'entering').st


def single(c, ps, what):
    ps = [p for p in ps]
    if len(ps) != 1 or not ps[0].ok:
        bad = [p for p in ps if not p.ok]
        if bad and not bad[0].doubt():
            c.violate('C24.scenario', '%s fails with %s' % (
                what, show(bad[0].val)), path=bad[0])
            return None
        raise Unknown('%s has %d outcomes' % (what, len(ps)))
    return ps[0]


def creation(c):
    q, v = sup(c)
    for args in ([], [EV], [sym('events', 'list')], [sym('events', 'tuple')]):
        def j(p):
            if not p.ok:
                return 'fails with %s' % show(p.val)
            for e, d, l in p.flat():
                if e.kind in WRITES and root(e.f) is not p.val and \
                        root(e.f).tag != 'ref':
                    return 'creating a suppression changes %s' % show(e.f)
        c.each('C24.create', c.call(mk('cls', q), args), j, 'creating a '
               'suppression changes nothing but the new object')


def net_ops(p, start):
    """Net effect on lists: {list: [(loop source or None, op, value)]}"""
    net = {}

    def one(e, src):
        op = e.args[0] if isinstance(e.args[0], str) else cval(e.args[0])
        l = net.setdefault(e.f, [])
        x = e.args[1] if len(e.args) > 1 else None
        if op in ('append', 'remove'):
            inv = (src, 'append' if op == 'remove' else 'remove', x)
            if inv in l:
                l.remove(inv)
            else:
                l.append((src, op, x))
        else:
            raise Unknown('list operation %s' % op)
    for e in p.trace[start:]:
        if isinstance(e, Loop):
            for g, evs in e.alts:
                for x in evs:
                    if isinstance(x, Loop):
                        raise Unknown('nested loops')
                    if x.kind == 'lop':
                        if g and any(not is_app(k, 'in') for k, t in g):
                            raise Unknown('conditional loops')
                        one(x, e.src)
        elif e.kind == 'lop':
            one(e, None)
        elif e.kind == 'delitem' and is_app(e.args[0], 'sliceobj'):
            raise Unknown('part of a list is taken out')
    return dict((k, v) for k, v in net.items() if v)


def added(p, ent):
    """Is removing something impossible to fail as it was added?"""
    o = p.val.a[2] if p.val.tag == 'exc' and len(p.val.a) > 2 else None
    if o is None or not is_app(o, 'noitem') or not is_app(o.a[2], 'found'):
        return False
    src = o.a[2].a[1]
    if is_app(src, 'reversed'):
        src = src.a[1]
    for e in ent.trace:
        if isinstance(e, Loop) and e.src is src and not e.partial and e.alts:
            if all(any(not isinstance(x, Loop) and x.kind == 'lop' and
                       x.f is o.a[1] and x.args == (
                           const('append'), app('elem', src)) for x in evs)
                   for g, evs in e.alts):
                # taken back once for each
                return sum(1 for x in p.trace[len(ent.trace):]
                           if isinstance(x, Loop) and x.src is src) == 1
    return False


def balance(c):
    """Leaving takes back what entering added, whatever the state."""
    q, v = sup(c)
    exc = [sym('type_', 'any'), sym('value', 'any'), sym('tb', 'any')]
    tl = [g for g, w in locals_of(c)]
    for args in ([], [EV], [sym('events', 'list')], [sym('events', 'tuple')]):
        for made in c.call(mk('cls', q), args):
            if not made.ok:
                continue
            n = len(made.trace)
            for ent in c.call(v.members['__enter__'], [made.val],
                              st=made.st.copy()):
                if not ent.ok:
                    c.judge('C24.balance', lambda: 'entering fails with %s' %
                            show(ent.val), ent)
                    continue
                for ex in ([NONE] * 3, exc):
                    def j(p):
                        if not p.ok:
                            if added(p, ent):
                                return
                            return 'leaving fails with %s' % show(p.val)
                        out = []
                        if p.truth(p.val) is not False:
                            out.append('leaving returns %s, which may '
                                       'swallow errors' % show(p.val))
                        for (o, name), val in p.st.cells.items():
                            if o in tl and isinstance(name, str):
                                was = app('attr', o, const(name))
                                if val is was:
                                    continue
                                if is_const(val) or is_app(val, 'num'):
                                    out.append('%s is not restored: %s' % (
                                        name, show(val)))
                                    continue
                                segs = p.segs(val)
                                if segs is not None:
                                    if len(segs) == 1 and \
                                            segs[0][0] == 'many' and \
                                            segs[0][1] is app('keys', was):
                                        continue
                                raise Unknown('%s becomes %s' % (
                                    name, show(val)))
                        for l, ops in net_ops(p, n).items():
                            if root(l) in tl or root(l).tag != 'ref':
                                out.append('%s keeps %s' % (show(l), show(
                                    tuple((o, x) for s, o, x in ops))))
                        return out
                    c.each('C24.balance', c.call(
                        v.members['__exit__'], [made.val] + ex,
                        st=ent.st.copy()), j, 'leaving a suppression '
                        'restores exactly the state of the thread before '
                        'entering, for every state and whatever the error, '
                        'and returns a false value')


def scenarios(c):
    q, v = sup(c)
    view, me = view_of(c)
    one, two, three = const('one'), const('two'), const('three')
    from ..lib import tup
    KINDS = (
        ('all', [], None),
        ('one', [one], {one}),
        ('two', [two], {two}),
        ('(one, two)', [tup(one, two)], {one, two}),
        ('()', [tup()], set()),
    )
    text = 'in a fresh thread, for all nestings of suppressions of all, no, one ' \
        'or two events up to depth 3: dispatching an event named by an ' \
        'entered one calls no subscriber, any other event is delivered'

    def check(st, active, word):
        for ev in (one, two, three):
            quiet = any(names is None or ev in names
                        for label, obj, names in active)
            ps = c.vcall(view, me, 'dispatch', [ev, A1], st=st.copy())

            def j(p):
                t = Tail(p, st)
                if quiet:
                    if t.calls() or t.loops():
                        return 'event "%s" is delivered %s' % (
                            cval(ev), word)
                    if not p.ok:
                        return 'dispatching fails with %s' % show(p.val)
                    return
                r = judge_dispatch(p, t, me, ev, (A1,), {})
                return ['%s %s (event "%s")' % (x, word, cval(ev))
                        for x in r]
            c.each('C24.scenario', ps, j, text)

    def word_of(active):
        return 'within ' + ' and '.join(
            'suppress_events(%s)' % l for l, o, n in active) if active else \
            'without suppression'

    def walk(st, active, depth):
        check(st, active, word_of(active))
        if depth == 3:
            return
        for label, args, names in KINDS if depth < 2 else KINDS[:2]:
            p = single(c, c.call(mk('cls', q), args, st=st.copy()),
                       'creating')
            if p is None:
                return
            check(p.st, active, word_of(active) + ' after creating one')
            objs = [(p.val, p.st)]
            if active and active[-1][0] == label:
                # the very same object once more
                objs.append((active[-1][1], st))
            for o, s in objs:
                e = single(c, c.call(v.members['__enter__'], [o],
                                     st=s.copy()), 'entering')
                if e is None:
                    return
                walk(e.st, active + [(label, o, names)], depth + 1)
                x = single(c, c.call(v.members['__exit__'], [
                    o, NONE, NONE, NONE], st=leave_inner(
                        c, v, e.st)), 'leaving')
                if x is None:
                    return
                check(x.st, active, word_of(active) + ' after leaving one')

    def leave_inner(c, v, st):
        return st.copy()
    walk(fresh(c), [], 0)
    # inner ones are entered and left while outer ones are active
    def inner(st, active, todo):
        if not todo:
            return st
        label, args, names = todo[0]
        p = single(c, c.call(mk('cls', q), args, st=st.copy()), 'creating')
        e = p and single(c, c.call(v.members['__enter__'], [p.val],
                                   st=p.st.copy()), 'entering')
        if not e:
            return None
        s = inner(e.st, active + [(label, p.val, names)], todo[1:])
        if s is None:
            return None
        check(s, active + [(label, p.val, names)], word_of(
            active + [(label, p.val, names)]) + ' after leaving inner ones')
        x = single(c, c.call(v.members['__exit__'], [
            p.val, NONE, NONE, NONE], st=s.copy()), 'leaving')
        return x and x.st
    for a in KINDS:
        for b in KINDS:
            s = inner(fresh(c), [], [a, b])
            if s is not None:
                check(s, [], 'after leaving suppress_events(%s) within '
                      'suppress_events(%s)' % (b[0], a[0]))


def attribute_events(c):
    """Suppressed events of attributes are not delivered later."""
    q, v = sup(c)
    a = Attr(c)
    OWN = None
    for p in c.call(a.member('subscriber'), [a.ea, SUB]):
        for e in p.events('lop'):
            OWN = e.f
    if OWN is None:
        raise Unknown('subscribers of an attribute')
    other = sym('other_obj', 'node', a.view.name)
    made = single(c, c.call(mk('cls', q), [], st=fresh(c)), 'creating')
    ent = made and single(c, c.call(v.members['__enter__'], [made.val],
                                    st=made.st.copy()), 'entering')
    if not ent:
        return
    for name, args in (('__set__', [a.ea, a.obj, VAL]),
                       ('__delete__', [a.ea, a.obj])):
        ps = c.call(a.member(name), args, st=ent.st.copy())

        def j(p):
            t = Tail(p, ent.st)
            if any(mentions(e.f, OWN) or mentions(e.f, SUBS)
                   for e in t.calls()):
                return 'events of an attribute are delivered though all ' \
                    'are suppressed'
        c.each('C24.attribute', ps, j, 'while all events are suppressed '
               'setting an event attribute calls no subscriber, and none of '
               'them afterwards for another event')
        for p in ps:
            if not p.ok:
                continue
            x = single(c, c.call(v.members['__exit__'], [
                made.val, NONE, NONE, NONE], st=p.st.copy()), 'leaving')
            if not x:
                continue

            def later(z):
                t = Tail(z, x.st)
                if any(mentions(e.f, OWN) for e in t.calls()):
                    return 'a suppressed event of an attribute is ' \
                        'delivered later'
            c.each('C24.attribute', c.vcall(a.view, other, 'dispatch', [
                E2, A1], st=x.st.copy()), later)


# -- C25 --------------------------------------------------------------------------

def C25(c):
    a = Attr(c)
    view = a.view
    q, v = sup(c)
    st = fresh(c)
    shared = globs(c)
    tl = dict(locals_of(c))
    runs = []
    for s in (State(), st):
        runs.append(('dispatch', s, lambda s=s: c.vcall(
            view, a.obj, 'dispatch', [EV, A1], st=s.copy())))
        for args in ([], [EV], [sym('events', 'list')]):
            runs.append(('suppress_events', s, lambda s=s, args=args: around(
                c, q, v, args, s)))
        runs.append(('__set__', s, lambda s=s: c.call(
            a.member('__set__'), [a.ea, a.obj, VAL], st=s.copy())))
        runs.append(('__delete__', s, lambda s=s: c.call(
            a.member('__delete__'), [a.ea, a.obj], st=s.copy())))
        fq = c.q(B + 'Fallback')
        runs.append(('fallback lookup', s, lambda s=s: c.plumb(
            fq, '__getitem__', [c.me(fq), sym('key', 'any')], st=s.copy())))
    for what, s, run in runs:
        is_fresh = s is st

        def j(p):
            out = []
            for e, d, l in p.flat():
                if e.kind == 'tlmiss':
                    out.append('%s: "%s" does not exist in threads other '
                               'than the one importing the library' % (
                                   what, cval(e.args[0])))
                if e.kind not in WRITES:
                    continue
                r = root(e.f)
                if e.kind == 'setglobal' or r.tag in ('mod', 'cls'):
                    out.append('%s changes %s of all threads' % (
                        what, show(e.args[0]) if e.kind in (
                            'setglobal', 'setattr') else show(e.f)))
                elif r.tag == 'glob' and r not in tl:
                    if c.A.globinfo.get(r, (None, None)) == (None, None):
                        raise Unknown('changes %s' % show(r))
                    out.append('%s changes %s, which all threads share' % (
                        what, show(e.f)))
                elif r.tag == 'glob' and e.f is not r and is_fresh:
                    # a value the thread did not get an own one of
                    x = e.f
                    while x.a[1] is not r:
                        x = x.a[1]
                    if tl[r] is not None:
                        out.append('%s changes %s, which all threads '
                                   'share' % (what, show(x)))
            return sorted(set(out))

        def part():
            c.each('C25.threads', run(), j, 'state read by dispatching, '
                   'suppressing and fallback lookup exists in every thread; '
                   'all changes go to objects of the caller or to thread '
                   'local ones, whose values are made per thread')
        part.__name__ = what
        c.part(part)


def around(c, q, v, args, st):
    out = []
    for p in c.call(mk('cls', q), args, st=st.copy()):
        if not p.ok:
            continue
        for e in c.call(v.members['__enter__'], [p.val], st=p.st.copy()):
            if not e.ok:
                out.append(e)
                continue
            out += c.call(v.members['__exit__'], [p.val, NONE, NONE, NONE],
                          st=e.st.copy())
    return out
