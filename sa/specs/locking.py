"""C27: the lock of a tree."""
from ..interp import Ctx
from ..lib import (NONE, Loop, State, Unknown, app, bi, const, cval, is_app,
                   is_const, mentions, mk, show, subterms, sym)

CTX = Ctx('node')
N = sym('n', 'node')
OTHER = sym('moved', 'node')
ROOT = app('attr', N, const('root'))
FN = sym('fn', 'callable')
RLOCK = bi('threading.RLock')
LOCKS = ('threading.RLock', 'threading.Lock', '_thread.allocate_lock')
TAKE = ('acquire', '__enter__')
GIVE = ('release', '__exit__')


def C27(c):
    q = c.q('node.locking.TreeLock')
    v = c.A.class_view(q)
    made = [p for p in c.call(mk('cls', q), [N])]
    names = c.part(same_lock, c, q, made)
    if names:
        c.part(creation, c, q, names)
    c.part(manual, c, q, v, made)
    c.part(decorator, c, q)


def is_lock(v):
    """A lock made on the path."""
    return is_app(v, 'ret') and v.a[1].tag == 'bi' and v.a[1].a[0] in LOCKS


def guard_of(c, v):
    """Is v a lock shared by everything, made at import time?"""
    if v.tag != 'glob':
        return False
    k = c.A.globcls.get(v)
    return k is not None and getattr(k, 'tag', None) == 'bi' and \
        k.a[0] in LOCKS


def lock_of(c, q, p):
    """Lock taken by an instance made on path p: [(path, lock)]"""
    v = c.A.class_view(q)
    out = []
    for name in ('acquire', '__enter__'):
        if name not in v.members:
            continue
        for r in c.call(v.members[name], [p.val], st=p.st.copy()):
            new = r.trace[len(p.trace):]
            took = [e for e in new if not isinstance(e, Loop) and
                    e.kind == 'mcall' and e.args[0] in map(const, TAKE) and
                    not guard_of(c, e.f)]
            out.append((name, r, took))
    return out


def same_lock(c, q, made):
    """Every instance for any node takes the lock kept by its root."""
    read, stored = set(), set()
    seen = []

    def j(p):
        out = []
        if not p.ok:
            return 'fails with %s' % show(p.val)
        for name, r, took in lock_of(c, q, p):
            if not r.ok:
                out.append('%s fails with %s' % (name, show(r.val)))
                continue
            if len(took) != 1:
                out.append('%s takes %d locks' % (name, len(took)))
                continue
            e = took[0]
            if not all(a is const(True) for a in e.args[1:]) or any(
                    x is not const(True) and k == 'blocking'
                    for k, x in e.kw) or any(k == 'timeout'
                                             for k, x in e.kw):
                out.append('the lock is taken only if it is free')
            L = e.f
            seen.append(L)
            kept = [s for s in r.events('setattr') if s.args[1] is L and
                    s.f.tag != 'ref']
            if is_lock(L):
                if L.a[1] is not RLOCK:
                    out.append('the lock is not reentrant: %s' % show(L.a[1]))
                if not kept:
                    out.append('the lock made is not kept, others make '
                               'another one')
                for s in kept:
                    if s.f is not ROOT:
                        out.append('the lock is kept by %s instead of the '
                                   'root' % show(s.f))
                    else:
                        stored.add(s.args[0])
                continue
            if is_app(L, 'attr') and L.a[1] is ROOT:
                read.add(L.a[2])
                if r.holds(app('is', L, NONE)) is None and r.holds(
                        app('truthy', L)) is None and r.st.facts.get(app(
                            'hasattr', ROOT, L.a[2])) is None:
                    out.append('whether there is a lock is not tested')
                continue
            if is_app(L, 'attr') and L.a[1] is N:
                out.append('the lock of the node is taken instead of the '
                           'one of its root')
                continue
            if L.tag == 'glob':
                out.append('one lock is used for all trees')
                continue
            raise Unknown('the lock is %s' % show(L))
        return out
    c.each('C27.lock', made, j, 'the lock taken is the one kept by the root '
           'of the node, or a new RLock kept there, waiting for it')
    if not seen:
        raise Unknown('the lock is found otherwise')

    def names():
        if not stored:
            return 'no lock is ever kept by the root'
        if not read:
            return 'the lock kept by the root is never used'
        if stored != read:
            return 'the lock is kept as %s but looked up as %s' % (
                ', '.join(map(show, sorted(stored, key=repr))),
                ', '.join(map(show, sorted(read, key=repr))))
    c.judge('C27.lock', names, made[0])
    return read | stored


def creation(c, q, names):
    """Looking for the lock and making it happens at once."""
    if len(names) != 1:
        return
    name = cval(next(iter(names)))
    held = sym('held', 'any')
    probe = c.call(mk('cls', q), [N])
    guards = set()
    for p in probe:
        for e in p.events('mcall'):
            if e.args[0] in map(const, TAKE) and guard_of(c, e.f):
                guards.add(e.f)

    def other(st):
        # meanwhile another thread may have stored a lock
        st.cells[(ROOT, name)] = held
        st.facts[app('hasattr', ROOT, const(name))] = True
    for g in guards:
        for t in TAKE:
            c.A.mhooks[(g, t)] = other
    try:
        ps = c.call(mk('cls', q), [N])
    finally:
        c.A.mhooks.clear()

    def j(p):
        out = []
        if not p.ok:
            return 'fails with %s' % show(p.val)
        new = [e for e in p.events('setattr', ROOT) if e.args[0] is const(
            name)]
        if not new:
            return
        if [e for e in p.events('atomic', ROOT)]:
            return
        tr = list(p.trace)
        for e in new:
            i = p.index(e)
            take = [x for x in tr[:i] if not isinstance(x, Loop) and
                    x.kind == 'mcall' and x.f in guards and
                    x.args[0] in map(const, TAKE)]
            give = [x for x in tr[:i] if not isinstance(x, Loop) and
                    x.kind == 'mcall' and x.f in guards and
                    x.args[0] in map(const, GIVE)]
            if len(take) <= len(give):
                out.append('two threads locking the tree first at the same '
                           'time get different locks')
                continue
            if not (p.holds(app('is', held, NONE)) is True or
                    p.truth(held) is False):
                out.append('the lock made by another thread meanwhile is '
                           'replaced')
            if is_lock(e.args[1]):
                made = [x for x in p.events('call') if x.res is e.args[1]]
                del made
        # the lock protecting the creation is given back
        for g in guards:
            t = [x for x in p.events('mcall', g) if x.args[0] in map(
                const, TAKE)]
            r = [x for x in p.events('mcall', g) if x.args[0] in map(
                const, GIVE)]
            if len(t) != len(r):
                out.append('the lock protecting creation is not given back')
        # what is used afterwards
        for n_, r, took in lock_of(c, q, p):
            if r.ok and len(took) == 1:
                L = took[0].f
                if L is not e.args[1]:
                    out.append('the lock taken is not the one kept')
        return out
    c.each('C27.creation', ps, j, 'a lock is only made while holding a lock '
           'shared by all threads, after having found, while holding it, '
           'that there is none')

    def found(p):
        if not p.ok or [e for e in p.events('setattr', ROOT)]:
            return
        out = []
        for n_, r, took in lock_of(c, q, p):
            if r.ok and len(took) == 1 and took[0].f is not held and not (
                    is_app(took[0].f, 'attr') and took[0].f.a[1] is ROOT):
                out.append('a lock existing is not taken')
        return out
    c.each('C27.creation', ps, found)


def manual(c, q, v, made):
    """acquire / release and the context manager."""
    for names in (('acquire', 'release'), ('__enter__', '__exit__')):
        if names[0] not in v.members or names[1] not in v.members:
            continue
        for m in made:
            if not m.ok:
                continue
            for a in c.call(v.members[names[0]], [m.val], st=m.st.copy()):
                if not a.ok:
                    continue
                took = [e for e in a.trace[len(m.trace):]
                        if not isinstance(e, Loop) and e.kind == 'mcall' and
                        e.args[0] in map(const, TAKE) and
                        not guard_of(c, e.f)]
                st = a.st.copy()
                # the node may be elsewhere by now
                st.cells[(N, 'root')] = OTHER
                for exc in ([NONE] * 3, [sym('type', 'any'), sym(
                        'value', 'any'), sym('tb', 'any')]):
                    args = exc if names[1] == '__exit__' else []

                    def j(p):
                        out = []
                        if not p.ok:
                            return 'leaving fails with %s' % show(p.val)
                        gave = [e for e in p.trace[len(a.trace):]
                                if not isinstance(e, Loop) and
                                e.kind == 'mcall' and
                                e.args[0] in map(const, GIVE)
                                and not guard_of(c, e.f)]
                        if len(gave) != len(took):
                            out.append('the lock is released %d times' %
                                       len(gave))
                        elif gave and gave[0].f is not took[0].f:
                            out.append('another lock is released than the '
                                       'one taken: %s' % show(gave[0].f))
                        if names[1] == '__exit__' and \
                                p.truth(p.val) is not False:
                            out.append('errors of the locked code may be '
                                       'swallowed')
                        return out
                    c.each('C27.release', c.call(
                        v.members[names[1]], [a.val if False else m.val] +
                        args, st=st.copy()), j, 'release: the lock taken is '
                        'released once, errors are not swallowed')


def decorator(c, q):
    f = c.glob('node.locking.locktree')
    A1, K1 = sym('a1', 'any'), sym('k1', 'any')
    for d in c.call(f, [FN]):
        if not d.ok:
            c.judge('C27.locktree', lambda: 'fails with %s' % show(d.val), d)
            continue
        if [e for e in d.events('mcall')]:
            c.judge('C27.locktree', lambda: 'the lock is taken when '
                    'decorating', d)

        def moved(st):
            st = st.copy()
            st.cells[(N, 'root')] = OTHER
            return [st]
        c.A.hooks[FN] = moved
        try:
            runs = [((A1,), {'k': K1}), ((), {})] + [
                ((A1,), {x: K1}) for x in c.options(d.val)]
            for args, kw in runs:
                for fail in (False, True):
                    run = c.failing if fail else (lambda g, *a, **k: g(
                        *a, **k))
                    ps = run(c.call, d.val, [N] + list(args), kw,
                             st=d.st.copy())

                    def j(p):
                        return locked(c, p, d, args, kw)
                    c.each('C27.locktree', ps, j, 'locktree: the lock of '
                           'the tree is taken, the method called once with '
                           'its arguments, the lock released on every '
                           'path, the result or error passed on', fatal=True)
        finally:
            c.A.hooks.pop(FN, None)


def locked(c, p, d, args, kw):
    out = []
    tr = p.trace[len(d.trace):]
    if any(isinstance(e, Loop) for e in tr):
        raise Unknown('locks otherwise')
    depth, lock, called = 0, None, 0
    failed = set(e.f for e in tr if e.kind == 'raise')
    fail_at = {}
    for i, e in enumerate(tr):
        if e.kind == 'raise' and i and tr[i - 1].kind == 'mcall' and \
                tr[i - 1].f is e.f:
            fail_at[i - 1] = e
    for i, e in enumerate(tr):
        if e.kind == 'mcall' and not guard_of(c, e.f):
            if e.args[0] in map(const, TAKE):
                if i in fail_at:
                    continue
                depth += 1
                lock = e.f
                if called:
                    out.append('the lock is taken after the method was '
                               'called')
                if not all(a is const(True) for a in e.args[1:]) or e.kw:
                    out.append('the lock is taken only if it is free')
                bad = wrong(c, lock)
                if bad:
                    out.append(bad)
            elif e.args[0] in map(const, GIVE):
                depth -= 1
                if e.f is not lock and lock is not None:
                    out.append('another lock is released than the one taken')
                if depth < 0:
                    out.append('a lock not taken is released')
                if not called and not [x for x in fail_at.values()]:
                    out.append('the lock is released before the method is '
                               'called')
        elif e.kind == 'call' and e.f is FN:
            called += 1
            if depth < 1:
                out.append('the method is called without lock')
            if list(e.args) != [N] + list(args) or dict(e.kw) != kw:
                out.append('the method is called with %s' % show(
                    tuple(e.args) + tuple(e.kw)))
    if depth > 0:
        if not (tr and fail_at and any(
                tr[i].args[0] in map(const, GIVE) for i in fail_at)):
            out.append('the lock is kept %s' % (
                'after the method returned' if p.ok else
                'if the method fails'))
    if called > 1:
        out.append('the method is called %d times' % called)
    res = [e.res for e in tr if e.kind == 'call' and e.f is FN]
    err = [e.args[0] for e in tr if e.kind == 'raise' and e.f is FN]
    if p.ok:
        if err:
            out.append('an error of the method is swallowed')
        elif not called:
            out.append('the method is not called')
        elif p.val is not res[0]:
            out.append('%s is returned instead of the result' % show(p.val))
    else:
        others = [e.args[0] for e in tr if e.kind == 'raise' and
                  e.f is not FN]
        if err and p.val not in err and p.val not in others:
            out.append('an error of the method is replaced by %s' % show(
                p.val))
        if not err and p.val not in others:
            out.append('fails with %s' % show(p.val))
    return out


def wrong(c, L):
    if is_lock(L):
        return None if L.a[1] is RLOCK else 'the lock is not reentrant'
    if is_app(L, 'attr') and L.a[1] is ROOT:
        return None
    if is_app(L, 'attr') and L.a[1] is N:
        return 'the lock of the node is taken instead of the one of its root'
    if L.tag == 'glob':
        return 'one lock is used for all trees'
    if L.tag == 'fn' or L is FN:
        return 'the lock is not the one of the tree'
    raise Unknown('the lock is %s' % show(L))
