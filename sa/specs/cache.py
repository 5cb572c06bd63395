"""C14, C15: caching and invalidation of children."""
from ..interp import Ctx
from ..lib import (KEY, NEXT, NONE, VAL, State, Unknown, app, bi, const,
                   is_app, show, sym)
from .location import set_on
from .reference import all_of, net, show_net

CTX = Ctx('node')
CHANGES = ('mset', 'mdel', 'mupdate', 'mclear', 'setitem', 'delitem')


def changing(e):
    """Does it change an object the caller may know?"""
    return e.kind in CHANGES and e.f.tag != 'ref'


def value_of(c, p, me, name):
    """The object property ``name`` of me yields at the end of the path."""
    vals = set(r.val for r in c.A.load(p.st.copy(), me, name, None, CTX)
               if r.ok)
    if len(vals) != 1:
        raise Unknown('%s differs' % name)
    return vals.pop()


def content(c, p, d, k):
    """'in', 'out' or None."""
    r = set('out' if s == 'miss' else 'in' for x, s, v in
            c.A.map_find(p.st.copy(), d, k, CTX, None))
    return r.pop() if len(r) == 1 else None


def own_object(c, key, q, me, name, what):
    m = c.member(q, name)
    if m.tag != 'prop':
        c.judge(key, lambda: '%s is one object shared by all nodes' % what
                if m.tag == 'glob' else None)
        return

    def j(p):
        if not p.ok:
            return '%s fails with %s' % (what, show(p.val))
        if p.val.tag == 'glob':
            return '%s is an object shared by all nodes' % what
        if p.val.tag == 'ref':
            if value_of(c, p, me, name) is not p.val:
                return '%s is created again on next access' % what
            if p.map_log(p.val):
                return '%s is not empty at first' % what
        elif is_app(p.val, 'attr') and p.val.a[1] is me:
            if set_on(p, me):
                return '%s is replaced by reading it' % what
        else:
            raise Unknown('%s is %s' % (what, show(p.val)))
    c.each(key, c.call(m.a[0], [me]), j, '%s: allocated per node on first '
           'access, found again afterwards' % what)


def C14(c):
    q = c.q('node.behaviors.Cache')
    me = c.me(q)
    c.part(own_object, c, 'C14.own', q, me, 'cache', 'the cache')
    c.part(read, c, q, me)
    c.part(write, c, q, me)
    c.part(invalidate, c, q, me)
    c.part(iterate, c, q, me)
    # a cache supplied by the class
    view, own = c.protocol(q, ['cache'])
    for f in (read, write, invalidate):
        c.part(f, c, q, own)


def read(c, q, me):
    def j(p):
        calls = p.calls(NEXT)
        D = value_of(c, p, me, 'cache')
        log = p.map_log(D)
        out = []
        if [e for e in p.events() if changing(e) and e.f is not D]:
            out.append('reading changes something else')
        if not calls:
            if not p.ok:
                return 'a child is missing without asking the layers below'
            if p.val is not app('item', D, KEY) or log:
                return 'returns %s without asking the layers below' % show(
                    p.val)
            return out
        if len(calls) != 1 or calls[0].args != (me, KEY):
            return 'layers below are asked %d times' % len(calls)
        was = p.st.facts.get(app('in', KEY, D))
        item = app('item', D, KEY)
        if was is True and p.holds(p.A.pred2('is', item, NONE)) is not True:
            out.append('a cached child is read again')
        if p.events('raise', NEXT):
            if p.ok:
                out.append('error of the layers below is swallowed')
            elif not p.passes_on(NEXT):
                out.append('error of the layers below is replaced by %s' %
                           show(p.val))
            if log:
                out.append('something is cached although reading failed')
            return out
        if not p.ok:
            out.append('reading fails with %s' % show(p.val))
            return out
        if p.val is not calls[0].res:
            out.append('returns %s instead of the child read' % show(p.val))
        if [tuple(o) for o in log] != [('set', KEY, calls[0].res)]:
            out.append('the child read is not cached under its key' if not
                       log else 'caches something else than the child '
                       'under its key')
        return out
    c.each('C14.read', c.plumb(q, '__getitem__', [me, KEY]), j,
           '__getitem__: returns the entry of the cache, or asks _next once, '
           'stores the result under the key and returns it; nothing is '
           'stored if _next raises')


def fill(c, me, k):
    """Layers below may read the child meanwhile, which caches it."""
    def hook(st):
        out = []
        for r in c.A.load(st.copy(), me, 'cache', None, CTX):
            if r.ok:
                for x in c.A.map_set(r.st, r.val, k, sym('stale', 'any'),
                                     None, CTX):
                    x.st.trace = st.trace
                    out.append(x.st)
        return out
    return hook


def write(c, q, me):
    for name, args in (('__setitem__', [KEY, VAL]), ('__delitem__', [KEY])):
        c.A.hooks[NEXT] = fill(c, me, KEY)
        try:
            ps = c.plumb(q, name, [me] + args)
        finally:
            del c.A.hooks[NEXT]

        def j(p):
            calls = p.calls(NEXT)
            out = []
            if len(calls) != 1 or calls[0].args != tuple([me] + args) or \
                    calls[0].kw:
                return 'is not passed on exactly once with the same arguments'
            if p.events('raise', NEXT):
                if p.ok:
                    out.append('error of the layers below is swallowed')
                elif not p.passes_on(NEXT):
                    out.append('error of the layers below is replaced by %s'
                               % show(p.val))
            elif not p.ok:
                out.append('fails with %s' % show(p.val))
            D = value_of(c, p, me, 'cache')
            if content(c, p, D, KEY) != 'out':
                out.append('the child may be left in the cache%s' % (
                    '' if p.ok else ' if layers below fail'))
            if [e for e in p.events() if changing(e) and
                    e.f is not D]:
                out.append('something else is changed')
            return out
        c.each('C14.%s' % name.strip('_'), ps, j, '%s: passed on exactly '
               'once with the same arguments; on every return or raise the '
               'cache has no entry for the key, also if layers below cached '
               'it meanwhile' % name)


def invalidate(c, q, me):
    def judge(k):
        def j(p0):
            out = []
            for p, (null,) in p0.cases(p0.A.pred2('is', k, NONE)):
                calls = p.calls(NEXT)
                if len(calls) != 1:
                    out.append('is passed on %d times' % len(calls))
                    continue
                a = list(calls[0].args[1:]) + [
                    v for n, v in calls[0].kw if n == 'key']
                if (a or [NONE]) != [k if not null else NONE] and a != [k]:
                    out.append('is passed on with %s' % show(tuple(a)))
                if p.events('raise', NEXT):
                    if p.ok:
                        out.append('error of the layers below is swallowed')
                    elif not p.passes_on(NEXT):
                        out.append('error of the layers below is replaced '
                                   'by %s' % show(p.val))
                elif not p.ok:
                    out.append('fails with %s' % show(p.val))
                D = value_of(c, p, me, 'cache')
                out += iterated(p, D)
                if null:
                    if D.tag == 'ref' and not p.map_log(D):
                        continue
                    n = net(p, D)
                    if n and n[-1] in (('drop', all_of(D)), ('clear',)):
                        continue
                    out.append('invalidating all children %s' % (
                        show_net(n) or 'leaves the cache as it is'))
                elif content(c, p, D, k) != 'out':
                    # everything dropped is fine as well
                    n = net(p, D)
                    if not (n and n[-1] in (('drop', all_of(D)),
                                            ('clear',))):
                        out.append('the child invalidated stays in the '
                                   'cache')
                elif [o for o in net(p, D) if o != ('del', k)]:
                    out.append('invalidating one child %s' % show_net(
                        net(p, D)))
            return out
        return j
    for a in ([KEY], []):
        k = a[0] if a else NONE
        c.each('C14.invalidate', c.plumb(q, 'invalidate', [me] + a),
               judge(k), 'invalidate: drops the entry of the key given, all '
               'entries if no key (None) is given, and is passed on exactly '
               'once with that key')


def iterated(p, D):
    """Problem with deleting while iterating live."""
    out = []
    for l in p.loops():
        if l.live is None:
            continue
        if l.live is D or l.live is all_of(D):
            for g, evs in l.alts:
                if any(e.kind in ('mdel', 'delitem', 'mclear') and e.f is D
                       for e in evs):
                    out.append('entries are dropped while iterating them '
                               'live')
    return out


def iterate(c, q, me):
    if c.A.plumb_fn(q, '__iter__') is None:
        return

    def j(p):
        calls = p.calls(NEXT)
        if len(calls) != 1 or calls[0].args != (me,):
            return 'is not passed on exactly once'
        if p.ok and p.val is not calls[0].res:
            segs = p.segs()
            if segs and len(segs) == 1 and segs[0][0] == 'many' and \
                    segs[0][1] is all_of(calls[0].res):
                return
            raise Unknown('iterates otherwise')
        if not p.ok and not p.passes_on(NEXT):
            return 'error of the layers below is replaced'
    c.each('C14.iter', c.plumb(q, '__iter__', [me]), j, 'iteration is that '
           'of the layers below')


# -- invalidation ----------------------------------------------------------------------

def C15(c):
    c.part(by_deletion, c)
    c.part(volatile, c)


def by_deletion(c):
    q = c.q('node.behaviors.Invalidate')
    view, me = c.protocol(q, ['clear'])

    def judge(k):
        def j(p0):
            out = []
            for p, (null,) in p0.cases(p0.A.pred2('is', k, NONE)):
                out += iterated(p, me)
                dels = [e for e in p.events('delitem', me)]
                clear = [e for e in p.events('mcall', me) if
                         e.args == (const('clear'),)]
                fails = p.events('raise')
                if not p.ok and not (fails and fails[-1].args[0] is p.val):
                    out.append('fails with %s' % show(p.val))
                    continue
                if p.ok and fails:
                    out.append('an error of deletion is swallowed')
                if null:
                    if clear and not dels:
                        continue
                    ls = [l for l in p.loops() if any(
                        e.kind == 'delitem' and e.f is me
                        for g, evs in l.alts for e in evs)]
                    if not ls:
                        if dels:
                            if p.ok:
                                out.append('without a key only %s is '
                                           'deleted' % show(
                                               dels[0].args))
                        elif p.ok:
                            out.append('without a key nothing is dropped')
                        continue
                    for l in ls:
                        if l.src is not app('keys', me):
                            raise Unknown('iterates %s' % show(l.src))
                        for g, evs in l.alts:
                            d = [e.args for e in evs if e.kind == 'delitem']
                            if d != [(app('elem', l.src),)]:
                                out.append('without a key some children '
                                           'are not dropped')
                        if p.ok and l.partial:
                            out.append('without a key only some children '
                                       'are dropped')
                else:
                    if [e.args for e in dels] != [(k,)] or clear:
                        out.append('with a key %s is deleted' % (
                            ', '.join(show(e.args) for e in dels) or
                            'everything' if dels or clear else 'nothing'))
            return out
        return j
    for a in ([KEY], []):
        m = view.members.get('invalidate')
        c.each('C15.invalidate', c.call(m, [me] + a), judge(
            a[0] if a else NONE), 'Invalidate: with a key (anything but '
            'None) exactly that child is deleted, without all of them, and '
            'never while iterating live')


def volatile(c):
    q = c.q('node.behaviors.VolatileStorageInvalidate')
    view, me = c.protocol(q, ['__iter__'])
    S = app('attr', me, const('storage'))

    def judge(k):
        def j(p0):
            out = []
            for p, (null,) in p0.cases(p0.A.pred2('is', k, NONE)):
                out += iterated(p, S)
                if [e for e in p.events() if e.kind in (
                        'delitem', 'setitem') and e.f is me]:
                    out.append('the deletion of the node itself is used')
                if set_on(p, me):
                    out.append('attributes of the node are set')
                n = net(p, S)
                if null:
                    if not p.ok:
                        out.append('without a key fails with %s' % show(
                            p.val))
                    elif not n or n[-1] not in (('drop', all_of(S)),
                                                ('clear',)):
                        out.append('without a key %s' % (
                            show_net(n) or 'nothing is dropped'))
                    continue
                valid = p.holds(app('in', k, me))
                loaded = p.st.facts.get(app('in', k, S))
                if loaded is None and content(c, p, S, k) == 'out' and \
                        n == [('del', k)]:
                    loaded = True
                if not p.ok:
                    if n:
                        out.append('a failing invalidation drops children')
                    if not p.raises('KeyError'):
                        out.append('fails with %s' % show(p.val))
                    elif valid is True:
                        out.append('a valid key is refused')
                    elif valid is None:
                        out.append('a key is refused without looking '
                                   'whether it is valid')
                    continue
                if valid is False:
                    out.append('a key which is not valid is accepted')
                elif valid is None and loaded is not True:
                    out.append('a key is accepted without looking whether '
                               'it is valid')
                if n != ([('del', k)] if loaded else []):
                    if loaded is None and not n:
                        out.append('a loaded child is not dropped')
                    else:
                        out.append('with a key %s' % (
                            show_net(n) or 'a loaded child is not dropped'))
            return out
        return j
    for a in ([KEY], []):
        m = view.members.get('invalidate')
        c.each('C15.volatile', c.call(m, [me] + a), judge(
            a[0] if a else NONE), 'VolatileStorageInvalidate: with a key the '
            'entry is dropped from the storage if it is loaded, KeyError '
            'exactly if the node has no such child; without key the storage '
            'gets empty; item deletion of the node is never used')
