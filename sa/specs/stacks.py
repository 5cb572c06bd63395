"""Deeper bound of some properties: stacks of behaviors plumbed together.

Only looked at in the thorough tier.  The properties hold for every behavior
on its own with opaque layers below; here they are decided once more for every
ordered choice of up to three behaviors on top of the storing part of a node,
with the pipelines of all layers inlined as plumber composes them.
"""
import itertools

from ..lib import KEY, VAL, Unknown, app, const, mentions, show
from .cache import content, value_of
from .lifecycle import notified, sent
from .location import final_located, is_node, located, writes
from .storage import storage_of

B = 'node.behaviors.'
# in the order they are usually given; all permutations are looked at
LAYERS = ['Lifecycle', 'Cache', 'ChildFactory', 'Fallback', 'Events',
          'UUIDAware', 'Reference', 'Order', 'Attributes', 'Nodespaces',
          'AsAttrAccess', 'GetattrChildren', 'Invalidate',
          'VolatileStorageInvalidate', 'UnicodeAware']
BASES = [['NodeChildValidate', 'Adopt', 'DefaultInit', 'Nodify',
          'OdictStorage'],
         ['Adopt', 'NodeChildValidate', 'DefaultInit', 'Nodify',
          'DictStorage']]


def stacks(c, depth, having=(), bases=BASES, without=()):
    """(title, view, self) of every stack of up to depth layers."""
    for base in bases:
        for n in range(depth + 1):
            for top in itertools.permutations(
                    [x for x in LAYERS if x not in without], n):
                if any(h not in top for h in having):
                    continue
                names = list(top) + base
                view, me = c.composed('+'.join(names), [B + x for x in names])
                yield '+'.join(names), view, me


CHANGES = ('mset', 'mdel', 'mclear', 'mupdate')


def changes(c, p, view, me):
    """Events changing the storage, outside of loops."""
    vals = set(v for _, v in storage_of(c, p.st, me, view))
    return [e for e in p.events() if e.kind in CHANGES and e.f in vals]


def stored(p, v):
    """Events storing v among the children."""
    return [e for e in writes(p, v) if e.kind == 'mset']


def nodespace(p, v=None):
    """Whether a nodespace was set or deleted instead of a child."""
    return any(e.kind in CHANGES and (v is None or any(
        mentions(x, v) for x in e.args[1:])) for e in p.events())


def location(c, title, view, me):
    """C01 and C02: stored nodes are located, refused ones are not touched."""
    INODE = is_node(c)
    only = c.pid
    ps = c.vcall(view, me, '__setitem__', [KEY, VAL])

    def j(p):
        out = []
        for x, (node,) in p.cases(INODE):
            if not node:
                continue
            w = stored(x, VAL)
            if only == 'C01':
                for e in w:
                    out += located(x, e, VAL, e.args[0], me)
                    if x.ok:
                        out += final_located(x, VAL, e.args[0], me)
            elif not x.ok and not w:
                out += ['%s of the refused node stays changed' % n
                        for n in ('__name__', '__parent__')
                        if not x.untouched(VAL, n)]
        return sorted(set(out))
    c.each('%s.stacks' % only, ps, j, 'stacks of behaviors on top of the '
           'storing part: a node is located at its key and the node when '
           'it gets stored and on return, and keeps its location if it '
           'is not stored')


def validation(c, title, view, me):
    INODE = is_node(c)
    ISCLASS = app('isclass', VAL)
    allow = app('truthy', app('attr', me,
                              const('allow_non_node_childs')))
    ps = c.vcall(view, me, '__setitem__', [KEY, VAL])

    def j(p):
        out = []
        for x, (al, cl, node) in p.cases(allow, ISCLASS, INODE):
            if al or node and not cl:
                continue
            if [e for e in changes(c, x, view, me) if e.args[1:]]:
                out.append('a value which is no node is stored')
            elif x.ok and 'Nodespaces' not in title:
                out.append('a value which is no node is accepted')
        return sorted(set(out))
    c.each('C03.stacks', ps, j, 'stacks of behaviors on top of the '
           'storing part store nothing but nodes unless allowed')


def storing(c, title, view, me):
    def put(p):
        w = changes(c, p, view, me)
        if p.ok and not w and nodespace(p, VAL):
            return
        if p.ok and ([e.kind for e in w] != ['mset'] or
                     not mentions(w[0].args[1], VAL)):
            return 'storing performs %s' % ', '.join(
                '%s %s' % (e.kind, show(e.args)) for e in w)

    def rem(p):
        w = changes(c, p, view, me)
        if p.ok and not w and nodespace(p):
            return
        if p.ok and [e.kind for e in w if e.kind != 'mset'] != ['mdel']:
            return 'deleting performs %s' % ', '.join(
                '%s %s' % (e.kind, show(e.args)) for e in w)
    c.each('C07.stacks', c.vcall(view, me, '__setitem__', [KEY, VAL]),
           put, 'stacks of behaviors on top of the storing part write a '
           'child exactly once')
    c.each('C07.stacks', c.vcall(view, me, '__delitem__', [KEY]), rem,
           'stacks of behaviors on top of the storing part delete a '
           'child exactly once')


def caching(c, title, view, me):
    def j(p):
        if not p.ok or not changes(c, p, view, me):
            return
        D = value_of(c, p, me, 'cache')
        for e in p.events():
            if e.kind not in ('mset', 'mdel') or \
                    e not in changes(c, p, view, me):
                continue
            k = e.args[0]
            if content(c, p, D, k) != 'out':
                for op in reversed(p.map_log(D)):
                    if op[0] == 'set' and op[1] is k:
                        if e.kind == 'mset' and op[2] is VAL:
                            return
                        return 'the cache keeps %s' % show(op[2])
                return 'the cache keeps a child which got %s' % (
                    'replaced' if e.kind == 'mset' else 'deleted')
    for name, args in (('__setitem__', [KEY, VAL]),
                       ('__delitem__', [KEY])):
        c.each('C14.stacks', c.vcall(view, me, name, args), j,
               'stacks of behaviors below and on top of Cache: after '
               'storing or deleting a child the cache has no other '
               'child for its key')


def announcing(c, title, view, me):
    def j(want, kind):
        def f(p):
            n = [sent(p, e, me)[0] for i, e in notified(p)]
            w = [e for e in changes(c, p, view, me) if e.kind == kind]
            if not w and nodespace(p):
                return
            if not w and n:
                return 'announces %s although nothing changed' % n
            if want == 'removed' and 'ChildFactory' in title:
                # created for being deleted
                n = n[n[:1] == ['added']:]
            if p.ok and n not in ([], [want]):
                return 'sends %s instead of %s' % (', '.join(n), want)
            if p.ok and not n and not any(
                    g.tag == 'app' and g.a[0] in ('truthy', 'is', 'eq')
                    and '_notify_suppress' in show(g)
                    for g, v in p.st.facts.items() if v):
                raise Unknown('suppressed otherwise')
        return f
    c.each('C20.stacks', c.vcall(view, me, '__setitem__', [KEY, VAL]),
           j('added', 'mset'), 'stacks with Lifecycle announce a stored '
           'child once and nothing if it was not stored')
    c.each('C20.stacks', c.vcall(view, me, '__delitem__', [KEY]),
           j('removed', 'mdel'), 'stacks with Lifecycle announce a '
           'deleted child once and nothing if it was not deleted')




def deep(f, depth, **kw):
    def run(c):
        for title, view, me in stacks(c, depth, **kw):
            c.part(f, c, title, view, me)
    return run


DEEP = {
    'C01': deep(location, 3),
    'C02': deep(location, 3),
    'C03': deep(validation, 3),
    'C07': deep(storing, 3),
    'C14': deep(caching, 3, having=['Cache'], without=['UnicodeAware']),
    'C20': deep(announcing, 3, having=['Lifecycle']),
}
