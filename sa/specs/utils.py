"""C10, C31, C32, C34, C35: paths, views, filters, helpers."""
from ..lib import (DELETED, FALSE, KEY, NONE, TRUE, VAL, Ctx, Loop, Missing,
                   State, Unknown, app, bi, const, cval, is_app, is_const, mentions,
                   mk, show, subst, subterms, sym, tup)
from .mapping import CHANGES, changing, failed

PARENT = const('__parent__')
NAME = const('__name__')


def chain_ok(v, start):
    """Is v the chain of parents beginning with start?"""
    if not is_app(v, 'chain') or v.a[1] is not start:
        return False
    steps = v.a[2]
    steps = set(steps) if not hasattr(steps, 'tag') else None
    if steps is None:
        return False
    ps = [x for x in steps if is_app(x, 'attr') and
          x.a[1].tag == 'hole' and x.a[2] is PARENT]
    return len(ps) == 1 and all(x is NONE or x in ps for x in steps)


def cut(p, v):
    """A chain which ends at an element being there."""
    if is_app(v, 'chain') and not hasattr(v.a[2], 'tag') and any(
            is_app(x, 'falseend') for x in v.a[2]):
        return True
    for f, t in p.st.facts.items():
        for x in subterms(f):
            if is_app(x, 'end') and x.a[1] is v:
                # false is no reason to end, nodes may define their truth
                if p.holds(p.A.pred2('is', x, NONE)) is True:
                    return False
                up = app('attr', x, PARENT)
                if p.holds(p.A.pred2('is', up, NONE)) is True or \
                        p.holds(app('hasattr', x, PARENT)) is False:
                    return False
                return True
    return False


def remembered(v, s):
    """Value of some attribute of the node kept from earlier."""
    return is_app(v, 'attr') and v.a[1] is s and is_const(v.a[2]) and \
        v.a[2].a[1] not in ('__parent__', 'parent', '__name__', 'name',
                            'root', 'path')


def C10(c):
    for n in ('node.behaviors.Nodify', 'node.base.BaseNode',
              'node.base.OrderedNode', 'node.base.Node',
              'node.base.AttributedNode'):
        c.part(location, c, c.q(n))
        c.part(acquire, c, c.q(n))
    c.part(by_path, c)


def location(c, q):
    view, s = c.protocol(q, ())

    def chains(p, v):
        return [x for x in subterms(v) if is_app(x, 'chain')]

    up = app('attr', s, PARENT)

    def attr(name, want):
        def j(p):
            if not p.ok:
                return 'fails with %s' % show(p.val)
            if p.val is not app('attr', s, const(want)):
                return 'is %s' % show(p.val)
        c.each('C10.' + name, c.vcall(view, s, name, []), j,
               '%s reads the current %s' % (name, want))
    c.part(attr, 'name', '__name__')
    c.part(attr, 'parent', '__parent__')

    def path(p):
        if not p.ok:
            return 'path fails with %s' % show(p.val)
        segs = p.segs()
        UP = app('keys', app('attr', up, const('path')))
        if is_app(p.val, 'slice') and p.val.a[1].tag == 'seq' and \
                p.val.a[1].a[1] and any(
                    x[0] == 'many' and x[1] is UP for x in p.val.a[1].a[1]):
            return 'names are left out: path is %s' % show(p.val)
        if segs is None:
            if remembered(p.val, s):
                return 'path is %s, which is remembered while names and ' \
                    'parents may change' % show(p.val)
            raise Unknown('path is %s' % show(p.val))
        if any(cut(p, l.src) for l in p.loops()):
            return 'path ends at some ancestor before the root'
        if any(is_app(x, 'attr') and x.a[2] is NAME and
               is_app(x.a[1], 'found') and is_app(x.a[1].a[1], 'chain')
               for f in p.st.facts for x in subterms(f)) and any(
                   l.partial and is_app(l.src, 'chain') for l in p.loops()):
            return 'path ends at some ancestor because of its name'

        def many_of(seg):
            """(reversed, source, element value) of a simple segment."""
            r = False
            while seg[0] == 'rev':
                r = not r
                seg = seg[1]
                if len(seg) == 1 and isinstance(seg[0], tuple):
                    seg = seg[0]
            if seg[0] != 'many':
                return None
            alts = list(seg[3])
            if len(alts) != 1 or alts[0][0] or len(alts[0][1]) != 1 or \
                    alts[0][1][0][0] != 'item':
                return 'cond', seg[1], None
            return r, seg[1], alts[0][1][0][1], seg[2]
        out = []
        total = []
        for sg in segs:
            if sg[0] == 'item':
                total.append(sg[1])
                continue
            m = many_of(sg)
            if m is None:
                raise Unknown('path is built by %s' % show(sg))
            if m[0] == 'cond':
                return 'some ancestors are left out of the path'
            total.append(m)
        own = app('attr', s, NAME)

        def good(m, start):
            return isinstance(m, tuple) and m[0] is True and \
                chain_ok(m[1], start) and m[2] is app('attr', m[3], NAME)
        if len(total) == 1 and good(total[0], s):
            return
        if len(total) == 2 and total[1] is own and \
                isinstance(total[0], tuple) and total[0][1] is UP:
            # built from the path of the parent
            if total[0][0] or total[0][2] is not total[0][3]:
                return 'path lists %s' % show(segs)
            if p.holds(p.A.pred2('is', up, NONE)) is not False and \
                    p.truth(up) is not True:
                return 'path of the parent is taken although there may be none'
            return
        if len(total) == 2 and total[1] is own and good(total[0], up):
            return
        if len(total) == 1 and total[0] is own and p.holds(
                p.A.pred2('is', up, NONE)) is True:
            return
        if any(isinstance(m, tuple) and not is_app(m[1], 'chain')
               for m in total):
            raise Unknown('path is built over %s' % show(segs))
        return 'path lists %s' % show(segs)
    c.each('C10.path', c.vcall(view, s, 'path', []), path, 'path is the '
           'reversed list of the names along the whole parent chain, '
           'beginning with the node itself')

    def root(p):
        if not p.ok:
            return 'root fails with %s' % show(p.val)
        v = p.val
        if any(cut(p, l.src) for l in p.loops()):
            return 'root is some ancestor before the root'
        if is_app(v, 'last') and chain_ok(v.a[1], s):
            return
        if is_app(v, 'end') and chain_ok(v.a[1], s) and (p.holds(
                p.A.pred2('is', app('attr', v, PARENT), NONE)) is True or
                p.holds(app('hasattr', v, PARENT)) is False):
            return
        if v is s and p.holds(p.A.pred2('is', up, NONE)) is True:
            return
        if v is app('attr', up, const('root')) and (p.holds(p.A.pred2(
                'is', up, NONE)) is False or p.truth(up) is True):
            return
        if is_app(v, 'last') and chain_ok(v.a[1], up):
            return
        if is_app(v, 'lastor') and chain_ok(v.a[1], up) and \
                v.a[2] is app('last', v.a[1]) and v.a[3] is s:
            return
        if is_app(v) and v.a[0] in ('last', 'end', 'first', 'found') or \
                v in (s, NONE, up):
            return 'root is %s' % show(v)
        if remembered(v, s):
            return 'root is %s, which is remembered while the parents may ' \
                'change' % show(v)
        raise Unknown('root is %s' % show(v))
    c.each('C10.root', c.vcall(view, s, 'root', []), root, 'root is the last '
           'element of the parent chain of the node')


def acquire(c, q):
    view, s = c.protocol(q, ())
    up = app('attr', s, PARENT)
    I = sym('interface', 'any')
    II = app('providedBy', c.A.ext_value('zope.interface.interfaces',
                                         'IInterface'), I) \
        if hasattr(c.A, 'ext_value') else None

    def iface_fact(facts):
        """Whether interface is an interface, as far as tested."""
        for k, v in facts:
            if is_app(k, 'providedBy') and k.a[2] is I and \
                    'IInterface' in show(k.a[1]):
                return v
        return None

    def no_match(guard, e, p):
        """None or the missing condition for skipping e."""
        d = dict(guard)
        if d.get(app('is', e, s)) or d.get(app('is', s, e)):
            return None
        ii = iface_fact(list(guard) + list(p.st.facts.items()))
        pb = d.get(app('providedBy', I, e))
        isi = d.get(app('isinstance', e, I))
        if pb is True or isi is True:
            return 'an ancestor matching is passed over'
        if isi is None:
            if pb is False and ii is True:
                return None
            return 'ancestors which are instances are passed over'
        if pb is None and ii is not False:
            return 'ancestors providing the interface are passed over'
        return None

    def j(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        v = p.val
        if is_app(v, 'end') and p.holds(p.A.pred2('is', v, NONE)) is True:
            v = NONE
        if is_app(v, 'end') and is_app(v.a[1], 'chain') and \
                p.holds(p.A.pred2('is', v, NONE)) is False and (
                p.holds(app('providedBy', I, v)) is True or
                p.holds(app('isinstance', v, I)) is True):
            v = app('found', v.a[1])
        return found(p, v)

    def found(p, val):
        some = p.holds(p.A.pred2('is', up, NONE)) is False or \
            p.truth(up) is True
        if some and is_app(val, 'mret') and val.a[1] is up and \
                val.a[2] is const('acquire') and not p.loops():
            # asks the parent to go on
            if val.a[3] is not tup(I):
                return 'the parent is asked for %s' % show(val.a[3])
            return no_match(p.st.facts.items(), up, p)
        if val is up and some and not p.loops() and any(
                p.holds(app(op, *a)) is True for op, a in (
                    ('providedBy', (I, up)), ('isinstance', (up, I)))):
            return
        if val is NONE or is_app(val, 'found'):
            ls = [l for l in p.loops() if is_app(l.src, 'chain')]
            ls = ls[-1:]
            if not ls:
                if val is NONE and p.holds(
                        p.A.pred2('is', up, NONE)) is True:
                    return
                raise Unknown('ancestors are searched otherwise')
            l = ls[-1]
            if not chain_ok(l.src, up):
                if not chain_ok(l.src, s):
                    raise Unknown('searches %s' % show(l.src))
                # starts with the node itself, which must be left out
                if val is not NONE and not (
                        p.holds(p.A.pred2('is', val, s)) is False):
                    return 'the node itself may be returned'
            e = app('elem', l.src)
            never = p.never(l.src) + [
                dict(g) for x in p.events('found') if x.f is l.src
                for seg in x.args[1].a[1] if seg[0] == 'many' and
                seg[1] is l.src for g, items in seg[3] if items]
            for g, evs in l.alts:
                # a generator leaving out others yields the first it does not
                if any(n.items() <= dict(g).items() for n in never if n):
                    continue
                r = no_match(g, e, p)
                if r:
                    return r
        if val is NONE:
            if any(l.partial for l in p.loops() if is_app(l.src, 'chain')):
                return 'search ends early'
            if any(cut(p, l.src) for l in p.loops()):
                return 'search ends at some ancestor before the root'
            return
        if is_app(val, 'found') and val is not p.val:
            return              # matches, as seen
        if is_app(val, 'found') and is_app(val.a[1], 'chain'):
            pb = p.holds(app('providedBy', I, val))
            isi = p.holds(app('isinstance', val, I))
            if pb is not True and isi is not True:
                return 'an ancestor which matches neither way is returned'
            return
        if val in (s, up) or is_app(val) and val.a[0] in (
                'end', 'last', 'first') or remembered(val, s):
            return 'returns %s' % show(val)
        raise Unknown('returns %s' % show(val))
    c.each('C10.acquire', c.vcall(view, s, 'acquire', [I]), j, 'acquire '
           'returns the first element of the parent chain, from the parent '
           'on, which provides the interface or is an instance, all elements '
           'passed over match neither way, None after all of them')


def by_path(c):
    fn = c.glob('node.utils.node_by_path')
    root = sym('root', 'node')
    for kind in ('str', 'list', 'tuple'):
        path = sym('path', kind)
        ps = c.call(fn, [root, path])

        def strips(v):
            """Sides a slash is stripped from."""
            out = set()
            while is_app(v, 'strm') and v.a[1] in (
                    const('strip'), const('lstrip'), const('rstrip'),
                    'strip', 'lstrip', 'rstrip'):
                name = v.a[1] if isinstance(v.a[1], str) else v.a[1].a[1]
                if v.a[3:] != (const('/'),):
                    return None, v
                out |= {'strip': {'l', 'r'}, 'lstrip': {'l'},
                        'rstrip': {'r'}}[name]
                v = v.a[2]
            return out, v

        def keys_of(v):
            """Problem with the list of keys descended."""
            if kind != 'str':
                if v is path:
                    return None
                raise Unknown('descends %s' % show(v))
            if not is_app(v, 'strm') or show(v.a[1]).strip("'") not in (
                    'split',):
                raise Unknown('descends %s' % show(v))
            if v.a[3:] != (const('/'),):
                return 'path is split by %s' % show(v.a[3:])
            sides, base = strips(v.a[2])
            if sides is None:
                return 'path is stripped by %s' % show(base)
            if base is not path:
                raise Unknown('descends %s' % show(v))
            if sides != {'l', 'r'}:
                return 'leading or trailing slash counts as key'
            return None

        def skipped(l):
            """Keys left out, other than empty ones."""
            e = app('elem', l.src)
            for g, evs in l.alts:
                if any(x.kind == 'getitem' for x in evs
                       if not isinstance(x, Loop)):
                    continue
                d = [k for k, v in g if kind != 'str' or
                     k is not app('truthy', e) and not (
                         is_app(k, 'eq') and const('') in k.a[1:])]
                if len(d) == len(g) and d:
                    return 'keys of the path are left out when %s' % ', '\
                        .join(sorted(show(x) for x in d))
            return None

        def j(p):
            if not p.ok:
                f = [e for e in p.events('raise')]
                if f and f[-1].args and f[-1].args[0] is p.val:
                    return
                return 'fails with %s' % show(p.val)
            if p.val is root:
                empty = [k for k, v in p.st.facts.items() if v is False and (
                    is_app(k, 'truthy') or is_app(k, 'nonempty'))]
                if not empty and kind != 'str':
                    return 'start node is returned for a path'
                if not empty:
                    return 'start node is returned for a path'
                return
            if is_app(p.val, 'fold'):
                src, init, step = p.val.a[1:4]
                if init is not root:
                    return 'descends from %s' % show(init)
                if not is_app(src, 'keys'):
                    raise Unknown('descends %s' % show(src))
                r = keys_of(src.a[1])
                if r:
                    return r
                if not (is_app(step, 'item') and step.a[1].tag == 'hole' and
                        step.a[2] is app('elem', src)):
                    return 'descends by %s' % show(step)
                return
            if is_app(p.val, 'item') or p.val in (path, NONE):
                return 'returns %s' % show(p.val)
            if is_app(p.val, 'loopend'):
                for l in p.loops():
                    r = skipped(l)
                    if r:
                        return r
            raise Unknown('returns %s' % show(p.val))
        c.each('C10.by_path', ps, j, 'node_by_path folds item access over the '
               'keys of the path, beginning at the start node, which is '
               'returned for the empty path')


# -- attribute style access ------------------------------------------------------

def C31(c):
    q = c.q('node.utils.AttributeAccess')
    ctxsym = sym('context', 'any')
    rs = [p for p in c.call(mk('cls', q), [ctxsym])]
    c.part(wrapped, c, q, rs, ctxsym)
    c.part(getattr_children, c)
    c.part(as_attribute_access, c)


def wrapped(c, q, made, ctx):
    NAMES = ['__getattr__', '__setattr__', '__getitem__', '__setitem__']
    view = c.A.class_view(q)
    for m in NAMES:
        if m not in view.members:
            raise Missing('%s.%s' % (q, m))

    def init(p):
        if not p.ok:
            return 'wrapping fails with %s' % show(p.val)
        if [e for e in p.events() if e.kind in ('setitem', 'delitem') or
                e.kind in ('setattr', 'delattr') and e.f is ctx]:
            return 'wrapping changes the wrapped object'
    c.each('C31.wrap', made, init, 'wrapping changes nothing of the wrapped '
           'object')

    def run(me, st, name, args):
        return c.vcall(view, me, name, args, st=st.copy())

    for p0 in made:
        if not p0.ok:
            continue
        me, st = p0.val, p0.st
        n = len(st.trace)
        ITEM = app('item', ctx, KEY)

        def tail(p):
            return p.trace[n:]

        def on_self(p):
            return [e for e in tail(p) if not isinstance(e, Loop) and
                    e.kind in ('setattr', 'delattr', 'setitem', 'delitem') and
                    e.f is me]

        def reader(attr):
            def j(p):
                if on_self(p):
                    return 'reading changes the view'
                f = failed(p, 'getitem', ctx)
                if f is not None:
                    if f[0].args[:1] != (KEY,):
                        return 'reads %s' % show(f[0].args)
                    if p.ok:
                        return 'a missing key yields %s' % show(p.val)
                    isk = p.A.exc_isa(p.st, f[1], bi('KeyError'))
                    if not attr:
                        if p.val is not f[1] and not (
                                isk is True and p.raises('KeyError')):
                            return 'error is replaced by %s' % show(p.val)
                        return
                    if isk is True:
                        if not p.raises('AttributeError'):
                            return 'a missing key raises %s for an '\
                                'attribute' % show(p.val)
                    elif p.val is not f[1]:
                        return 'an error which is no missing key is ' \
                            'replaced by %s' % show(p.val)
                    return
                if not p.ok:
                    if p.holds(app('in', KEY, ctx)) is False and p.raises(
                            'AttributeError' if attr else 'KeyError'):
                        return
                    return 'fails with %s' % show(p.val)
                if p.val is not ITEM:
                    return 'returns %s' % show(p.val)
            return j

        def writer(kind, args):
            def j(p):
                if on_self(p):
                    return 'changes the view itself'
                ev = [e for e in tail(p) if not isinstance(e, Loop) and
                      changing(e)]
                if [(e.kind, e.f, e.args) for e in ev] != [(kind, ctx, args)]:
                    if not p.ok and not ev:
                        return 'fails with %s' % show(p.val)
                    return 'performs %s' % [(e.kind, show(e.f), show(e.args))
                                            for e in ev]
                f = failed(p, kind, ctx)
                if f is None and not p.ok:
                    return 'fails with %s' % show(p.val)
                if f is not None and (p.ok or p.val is not f[1]):
                    return 'error of the wrapped object is replaced'
            return j
        c.each('C31.getattr', run(me, st, '__getattr__', [KEY]), reader(True),
               'attribute access is item access of the wrapped object, '
               'KeyError becomes AttributeError, other errors pass')
        c.each('C31.getitem', run(me, st, '__getitem__', [KEY]),
               reader(False), 'item access is item access of the wrapped '
               'object')
        c.each('C31.setattr', run(me, st, '__setattr__', [KEY, VAL]),
               writer('setitem', (KEY, VAL)), 'setting an attribute sets '
               'exactly that item of the wrapped object')
        c.each('C31.setitem', run(me, st, '__setitem__', [KEY, VAL]),
               writer('setitem', (KEY, VAL)), 'setting an item sets exactly '
               'that item of the wrapped object')
        # the name under which the view keeps the wrapped object
        odd = const('context')
        for p in run(me, st, '__setattr__', [odd, VAL]):
            c.judge('C31.setattr', lambda: 'an attribute of the name the '
                    'view uses itself changes the view' if on_self(p)
                    else None, p)
        if '__delitem__' in view.members:
            c.each('C31.delitem', run(me, st, '__delitem__', [KEY]),
                   writer('delitem', (KEY,)), 'deleting an item deletes '
                   'exactly that item of the wrapped object')

        def shadow():
            own = [k for (o, k), v in st.cells.items() if o is me]
            own = [k for k in own if not (isinstance(k, str) and
                                          k.startswith('_'))]
            if own and '__getattribute__' not in view.members:
                return 'reading the attribute %s does not read the item of '\
                    'that name' % ', '.join(map(str, own))
        w = c.where_of(view.members['__init__'])[:2] + (q + '.__init__',)
        c.judge('C31.shadow', shadow, where=w, text='the view has no '
                'attribute of its own hiding a key')


def getattr_children(c):
    q = c.q('node.behaviors.GetattrChildren')
    me = c.me(q)
    ps = c.failing(c.method, q, '__getattr__', [KEY])

    def j(p):
        if [e for e in p.events() if changing(e)]:
            return 'reading changes something'
        f = failed(p, 'getitem', me)
        if f is None:
            if p.ok and p.val is app('item', me, KEY):
                return
            if not p.ok and p.raises('AttributeError') and \
                    p.holds(app('in', KEY, me)) is False:
                return
            return 'gives %s' % show(p.val)
        if f[0].args[:1] != (KEY,):
            return 'reads %s' % show(f[0].args)
        if p.ok:
            return 'a missing child yields %s' % show(p.val)
        isk = p.A.exc_isa(p.st, f[1], bi('KeyError'))
        if isk is True:
            if not p.raises('AttributeError'):
                return 'a missing child raises %s for an attribute' % show(
                    p.val)
        elif isk is None and p.val is f[1]:
            return 'a missing child raises KeyError for an attribute'
        elif p.val is not f[1]:
            return 'an error which is no missing child is replaced by %s' % \
                show(p.val)
    c.each('C31.children', ps, j, 'GetattrChildren: unused attributes read '
           'the child of that name, KeyError becomes AttributeError, other '
           'errors pass')


def as_attribute_access(c):
    q = c.q('node.behaviors.AsAttrAccess')
    me = c.me(q)
    vq = c.q('node.utils.AttributeAccess')

    def j(p):
        if not p.ok or p.val.tag != 'ref' or p.val.a[1] != vq:
            return 'returns %s' % show(p.val)
        if [v for (o, k), v in p.st.cells.items() if o is p.val] != [me]:
            return 'wraps another object'
    c.each('C31.as', c.method(q, 'as_attribute_access', []), j,
           'as_attribute_access wraps the node itself')


# -- reversed mapping ---------------------------------------------------------------

def C32(c):
    q = c.q('node.utils.ReverseMapping')
    for kind in ('dict', 'any'):
        c.part(reverse, c, q, sym('context', kind))


def reverse(c, q, ctx):
    made = c.call(mk('cls', q), [ctx])
    view = c.A.class_view(q)
    src = app('keys', ctx)
    e = app('elem', src)
    V = sym('value', 'any')
    D = sym('default', 'any')

    def run(name, args):
        out = []
        for p in made:
            if p.ok:
                out += c.vcall(view, p.val, name, args, st=p.st.copy())
        if not made or not any(p.ok for p in made):
            raise Unknown('not created')
        return out

    def eq(a, b, facts):
        for op in ('eq', 'is'):
            for k in (app(op, a, b), app(op, b, a)):
                if facts.get(k) is not None:
                    return facts.get(k)
        return None

    def eq_any(a, facts):
        vs = [facts.get(k) for op in ('eq', 'is')
              for k in (app(op, a, V), app(op, V, a))]
        if True in vs:
            return True
        # identity alone does not rule out equality
        vs = [facts.get(k) for k in (app('eq', a, V), app('eq', V, a))]
        return False if False in vs else None

    def pure(p):
        if [x for x in p.events() if changing(x) and
                not (x.kind == 'setattr' and x.f.tag == 'ref')]:
            return 'changes something'

    def searched_all(p):
        ls = [l for l in p.loops() if l.src is src]
        if not ls:
            if p.holds(app('nonempty', src)) is False:
                return None
            raise Unknown('searches otherwise')
        l = ls[-1]
        if l.partial:
            return 'search ends early'
        none = p.never(src)
        for g, evs in l.alts:
            if dict(g) in none:
                continue
            if eq_any(app('item', ctx, e), dict(g)) is not False:
                if any(is_app(k, 'is') and v and any(
                        is_app(x, 'found') for x in k.a[1:])
                        for k, v in p.st.facts.items()):
                    raise Unknown('a key found is taken for a marker')
                return 'a key with that value may be passed over'

    def get(p):
        r = pure(p)
        if r:
            return r
        if not p.ok:
            x = [ev for ev in p.events('raise')]
            if x and x[-1].args and x[-1].args[0] is p.val:
                return
            if not p.raises('KeyError'):
                return 'a missing value raises %s' % show(p.val)
            return searched_all(p)
        if is_app(p.val, 'found') and p.val.a[1] is src:
            if eq_any(app('item', ctx, p.val), p.st.facts) is not True:
                return 'returns a key which is not that of the value'
            return
        if is_app(p.val, 'found') and is_app(p.val.a[1]) and \
                p.val.a[1].a[0] in ('reversed', 'unordered', 'sorted') and \
                p.val.a[1].a[1] is src:
            return 'returns another key than the first one of that value'
        if p.val in (V, NONE) or is_app(p.val) and p.val.a[0] in (
                'item', 'elem', 'first', 'last'):
            return 'returns %s' % show(p.val)
        raise Unknown('returns %s' % show(p.val))
    c.part(lambda: c.each(
        'C32.getitem', run('__getitem__', [V]), get, 'item access returns a '
        'key whose value equals the value asked for, KeyError only after all '
        'keys have been compared'))

    def defaulted(d):
        def j(p):
            r = pure(p)
            if r:
                return r
            if not p.ok:
                x = [ev for ev in p.events('raise')]
                if x and x[-1].args and x[-1].args[0] is p.val and \
                        p.A.exc_isa(p.st, p.val, bi('KeyError')) is not True:
                    return
                return 'a missing value raises %s' % show(p.val)
            if is_app(p.val, 'found') and p.val.a[1] is src:
                return get(p)
            if p.val is d:
                x = [ev for ev in p.events('raise') if ev.args]
                if x:
                    if p.A.exc_isa(p.st, x[-1].args[0],
                                   bi('KeyError')) is not True:
                        return 'an error which is no missing value is '\
                            'swallowed'
                    return
                return searched_all(p)
            return 'returns %s' % show(p.val)
        return j
    c.part(lambda: c.each(
        'C32.get', run('get', [V, D]), defaulted(D), 'get is item access with '
        'the default exactly for a missing value'))
    c.part(lambda: c.each(
        'C32.get', run('get', [V]), defaulted(NONE)))

    def contains(p):
        r = pure(p)
        if r:
            return r
        if not p.ok:
            x = [ev for ev in p.events('raise')]
            if x and x[-1].args and x[-1].args[0] is p.val:
                return
            return 'raises %s' % show(p.val)
        if p.val is TRUE:
            for k, v in p.st.facts.items():
                if v is True and is_app(k) and k.a[0] in ('eq', 'is') and \
                        V in k.a[1:]:
                    o = [x for x in k.a[1:] if x is not V]
                    if o and is_app(o[0], 'item') and o[0].a[1] is ctx and \
                            is_app(o[0].a[2], 'found') and \
                            o[0].a[2].a[1] in [src] + [
                                app(x, src) for x in (
                                    'reversed', 'unordered', 'sorted')]:
                        return
            return 'a value is reported without being found'
        if p.val in (FALSE, NONE):
            return searched_all(p)
        raise Unknown('returns %s' % show(p.val))
    c.part(lambda: c.each(
        'C32.contains', run('__contains__', [V]), contains, 'containment is '
        'true exactly if some value compared equal'))

    def listing(want):
        def j(p):
            r = pure(p)
            if r:
                return r
            if not p.ok:
                return 'raises %s' % show(p.val)
            segs = p.segs()
            if segs is None:
                raise Unknown('returns %s' % show(p.val))
            if segs != (c.A.many(src, want),):
                if not segs and p.holds(app('nonempty', src)) is False:
                    return
                return 'lists %s' % show(segs)
        return j
    v = app('item', ctx, e)
    for name, want in (('keys', v), ('__iter__', v), ('values', e),
                       ('items', mk('tup', v, e))):
        c.part(lambda: c.each(
            'C32.' + name.strip('_'), run(name, []), listing(want), '%s lists '
            'one element per key of the mapping, in its order, key and value '
            'exchanged' % name))

    def length(p):
        if not p.ok or p.val not in (app('len', ctx), app('len', src)):
            if is_const(p.val) and p.holds(app('nonempty', src)) is False:
                return
            return 'length is %s' % show(p.val)
    c.part(lambda: c.each('C32.len', run('__len__', []), length, 'length is '
                          'that of the mapping'))


# -- filtering and printing ------------------------------------------------------

def C34(c):
    for n in ('node.behaviors.Nodify', 'node.base.BaseNode',
              'node.base.OrderedNode', 'node.base.Node'):
        c.part(filters, c, c.q(n))
        c.part(tree, c, c.q(n))


PROTO = ('__getitem__', '__setitem__', '__delitem__', '__iter__')


def filters(c, q):
    view, s = c.protocol(q, PROTO)
    I = sym('interface', 'any')
    src = app('keys', s)
    child = app('item', s, app('elem', src))
    pb = app('providedBy', I, child)

    def j(p):
        if [e for e in p.events() if changing(e)]:
            return 'filtering changes something'
        if not p.ok:
            return 'fails with %s' % show(p.val)
        segs = p.segs()
        if segs is None:
            raise Unknown('returns %s' % show(p.val))
        if len(segs) != 1 or segs[0][0] != 'many':
            if not segs and p.holds(app('nonempty', src)) is False:
                return
            return 'yields %s' % show(segs)
        if segs[0][1] is not src:
            return 'yields children of %s' % show(segs[0][1])
        for g, items in segs[0][3]:
            t = dict(g).get(pb)
            want = (('item', child),) if t else ()
            if t is None:
                return 'children are not tested by the interface'
            if items != want:
                return 'for a child which does%s provide the interface '\
                    'yields %s' % ('' if t else ' not', show(items))
    for name in ('filtereditervalues', 'filteredvalues', 'filtereditems'):
        if name in view.members:
            c.each('C34.' + name, c.vcall(view, s, name, [I]), j, 'filtering '
                   'yields per key, in order, the child exactly if it '
                   'provides the interface')


def tree(c, q):
    view, s = c.protocol(q, PROTO + ('noderepr',))
    indent, prefix = sym('indent', 'int'), sym('prefix', 'str')
    NREPR = app('attr', s, const('noderepr'))
    INODE = c.cls('node.interfaces.INode')
    IORD = app('providedBy', c.cls('node.interfaces.IOrdered'), s)
    src = app('keys', s)
    e = app('elem', src)
    child = app('item', s, e)
    isnode = app('providedBy', INODE, child)
    ps = c.vcall(view, s, 'treerepr', [indent, prefix])

    def parts(v):
        if is_app(v, 'cat'):
            out = []
            for x in v.a[1:]:
                out += parts(x)
            return out
        if is_app(v, 'str') and len(v.a) == 2:
            y = v.a[1]
            if is_app(y) and y.a[0] in ('mult', 'repr', 'cat', 'join'):
                return parts(y)
        return [v]

    def deeper(v):
        """Indentation constant added, or None."""
        if is_app(v, 'num'):
            terms, k = v.a[1], v.a[2]
            if terms == ((indent, 1),):
                return k
        if v is indent:
            return 0
        return None

    def level(v):
        """Depth of an indentation prefix."""
        if is_app(v, 'mult'):
            a, b = v.a[1:]
            if b is not prefix and a is prefix:
                a, b = b, a
            if b is prefix:
                k = deeper(a)
                return k if not hasattr(k, 'tag') else k.a[1]
        return None

    def num(k):
        return k.a[1] if hasattr(k, 'tag') else k

    def j(p):
        if not p.ok:
            return 'fails with %s' % show(p.val)
        ordered = p.holds(IORD)
        if ordered is None:
            ordered = c.cls('node.interfaces.IOrdered') in view.provides or \
                None
        ts = parts(p.val)
        if any(is_app(x, 'rec') for x in ts):
            raise Unknown('recursive')
        joins = [x for x in ts if is_app(x, 'join')]
        if any(not (is_app(x) or is_const(x)) for x in ts):
            raise Unknown('text is %s' % show(p.val))
        out = []
        if level(ts[0]) != 0:
            out.append('line of the node is indented by %s' % show(ts[0]))
        if NREPR not in [x.a[1] if is_app(x, 'str') else x for x in ts]:
            out.append('node is not represented by noderepr')
        if len(joins) != 1:
            if not joins and p.holds(app('nonempty', src)) is False:
                return out
            out.append('children are represented %d times' % len(joins))
            return out
        i = ts.index(joins[0])
        if not (is_const(ts[i - 1]) and str(ts[i - 1].a[1]).endswith('\n')):
            out.append('line of the node does not end before the children')
        seq = joins[0].a[2]
        segs = p.A.segs_of(p.st, seq)
        if segs is None or len(segs) != 1 or segs[0][0] != 'many':
            raise Unknown('children are represented by %s' % show(seq))
        _, msrc, me_, alts = segs[0]
        if msrc is src:
            if ordered is not True:
                out.append('children of an unordered node are not sorted')
        elif is_app(msrc, 'sorted') and msrc.a[1] is src:
            if ordered is True:
                out.append('children of an ordered node are sorted')
            if msrc.a[3] not in (False, FALSE):
                out.append('children are sorted backwards')
            ok = False
            for arg in (e, mk('tup', e, child)):
                if msrc.a[2] in (None, NONE):
                    continue
                rs = c.A.call(State(), msrc.a[2], [arg], {}, None,
                              Ctx('node'))
                if rs and all(r.ok and r.val is app('str', e) for r in rs):
                    ok = True
            if not ok:
                out.append('children are not sorted by the text of their key')
        else:
            raise Unknown('children come from %s' % show(msrc))
        for g, items in alts:
            t = dict(g).get(isnode)
            if t is None:
                raise Unknown('children are told apart otherwise')
            if len(items) != 1 or items[0][0] != 'item':
                out.append('a child is represented %d times' % len(items))
                continue
            v = items[0][1]
            if t:
                if not is_app(v, 'mret') or v.a[1] is not child or \
                        show(v.a[2]).strip("'") != 'treerepr':
                    out.append('a child node is represented by %s' % show(v))
                    continue
                args = [x for x in (v.a[3].a if hasattr(v.a[3], 'a')
                                    else v.a[3])]
                kw = {}
                for x in (v.a[4].a if hasattr(v.a[4], 'a') else v.a[4]):
                    k, y = x if isinstance(x, tuple) else x.a
                    kw[k if isinstance(k, str) else k.a[1]] = y
                a = args[0] if args else kw.get('indent')
                b = args[1] if len(args) > 1 else kw.get('prefix')
                k = deeper(a) if a is not None else None
                if k is None or num(k) <= 0:
                    out.append('a child node is indented by %s' % (
                        show(a) if a is not None else 'default'))
                if b is not prefix:
                    out.append('prefix is not handed on')
            else:
                x = parts(v)
                k = level(x[0])
                if k is None or num(k) <= 0:
                    out.append('a child is indented by %s' % show(x[0]))
                if app('str', e) not in x and e not in x:
                    out.append('line of a child does not show its key')
                if not (is_const(x[-1]) and str(x[-1].a[1]).endswith('\n')):
                    out.append('line of a child does not end')
        return out
    c.each('C34.treerepr', ps, j, 'treerepr: line of the node, then one entry '
           'per key, in order for ordered nodes, else sorted by the text of '
           'the key; nodes by their treerepr with deeper indentation and the '
           'same prefix, other values by one line each')
    printed(c, q)


def printed(c, q):
    view, s = c.protocol(q, PROTO + ('noderepr', 'treerepr'))

    def j(p):
        if not p.ok:
            return None
        text = [e for e in p.events('mcall', name='treerepr')
                if e.f is s or (e.args and e.args[0] is s)]
        out = [e for e in p.events('call')
               if e.f is bi('print')] + p.events('mcall', name='write')
        if not out:
            if any(e.kind in ('call', 'mcall') and e not in text
                   for e in p.events()):
                raise Unknown('printed in an unknown way')
            return 'nothing is printed'
        if not text:
            return 'what is printed is not the representation of the tree'
    c.each('C34.printtree', c.vcall(view, s, 'printtree', []), j,
           'printtree prints the representation of the tree')


# -- helpers ----------------------------------------------------------------------

def C35(c):
    c.part(instance_property, c)
    c.part(debug, c)
    c.part(unset, c)


def instance_property(c):
    f = sym('func', 'callable')
    ip = c.glob('node.utils.instance_property')
    made = c.call(ip, [f])
    # an object with an attribute hook of its own
    hq = c.q('node.behaviors.GetattrChildren')
    hv = c.A.compose('spec:hooked', [hq])
    c.A.views.setdefault('spec:hooked', hv)
    for p in made:
        if p.ok and p.val.tag == 'ref':
            # an object of a class with __get__
            view = c.A.view_of(p.st, p.val)
            get = view.members.get('__get__') if view else None
            if get is not None and get.tag in ('fn', 'pipe'):
                for o in (sym('obj', 'any'),
                          sym('obj', 'any', 'spec:hooked')):
                    own_part(c, p, app('dget', get, p.val), f, o)
                continue
        if not p.ok or p.val.tag != 'prop':
            c.judge('C35.property', lambda: 'decorator returns %s' % show(
                p.val), p)
            continue
        for o in (sym('obj', 'any'), sym('obj', 'any', 'spec:hooked')):
            own_part(c, p, p.val.a[0], f, o)


def own_part(c, made, getter, f, o):
    n = len(made.st.trace)
    hooked = o.a[2] is not None

    def j(p):
        tail = p.trace[n:]
        calls = [e for e in tail if not isinstance(e, Loop) and
                 e.kind == 'call' and e.f is f]
        sets = [e for e in tail if not isinstance(e, Loop) and
                e.kind == 'setattr']
        if hooked and [e for e in tail if not isinstance(e, Loop) and
                       e.kind == 'getitem']:
            return 'looks for the value by the attribute hook of the object'
        glob = [e for e in sets if e.f is not o] + [
            e for e in tail if not isinstance(e, Loop) and e.kind in (
                'mset', 'setitem')]
        if glob:
            return 'keeps the value at %s' % show(glob[0].f)
        if not p.ok:
            if calls and p.passes_on(f) and not sets:
                return
            return 'fails with %s' % show(p.val)
        if not calls:
            if sets:
                return 'changes a value computed already'
            v = p.val
            if not is_app(v, 'attr') or v.a[1] is not o:
                return 'returns %s instead of the value kept' % show(v)
            if not mentions(v.a[2], app('attr', f, NAME)) and not mentions(
                    v.a[2], f):
                return 'all properties share the attribute %s' % show(v.a[2])
            return
        if len(calls) != 1:
            return 'computes the value %d times' % len(calls)
        if calls[0].args != (o,) or calls[0].kw:
            return 'calls the function with %s' % show(calls[0].args)
        if p.val is not calls[0].res:
            return 'returns %s instead of the value computed' % show(p.val)
        if len(sets) != 1 or sets[0].args[1] is not calls[0].res:
            return 'does not keep the value computed'
        for x in subterms(sets[0].args[0]):
            if is_app(x) and x.a[0] in ('strm', 'mret', 'slice') and \
                    mentions(x, f) and any(is_const(y) and cval(y) in (
                        'strip', 'lstrip', 'rstrip', 'lower', 'upper',
                        'replace', 'casefold', 'title', 'capitalize',
                        'removeprefix', 'removesuffix', 'swapcase')
                        for y in subterms(x)):
                return 'properties of different names share the attribute ' \
                    '%s' % show(sets[0].args[0])
        if not mentions(sets[0].args[0], f):
            return 'all properties share the attribute %s' % show(
                sets[0].args[0])
        key = sets[0].args[0]
        had = app('attr', o, key)
        if any(mentions(k, had) for k in p.st.facts
               if not is_app(k, 'hasattr')):
            return 'computes a value again which is kept already'
        # presence was tested under the very same name
        tested = [k for k, v in p.st.facts.items() if is_app(k, 'hasattr') and
                  k.a[1] is o]
        if tested and all(k.a[2] is not key for k in tested):
            return 'looks for %s but keeps %s' % (
                show(tested[0].a[2]), show(key))
    rs = [p for p in c.call(getter, [o], st=made.st.copy())
          if not p.holds(c.A.pred2('is', o, NONE))]
    # values which are kept must be found again
    names = set()
    for p in rs:
        for e in p.trace[n:]:
            if not isinstance(e, Loop) and e.kind == 'setattr':
                names.add(e.args[0])
    reads = set(p.val.a[2] for p in rs if p.ok and is_app(p.val, 'attr') and
                p.val.a[1] is o)
    c.judge('C35.property', lambda: 'keeps the value as %s but reads %s' % (
        show(tuple(names)), show(tuple(reads))) if names and reads and
        names != reads else None)
    if not names:
        c.judge('C35.property', lambda: 'the value computed is not kept',
                rs[0] if rs else None)
    c.each('C35.property', rs, j, 'instance_property: function called only '
           'if the instance has no value yet, once, its value kept on the '
           'instance under a name derived from the name of the function and '
           'returned; presence is tested without attribute hooks')


def debug(c):
    f = sym('func', 'callable')
    made = c.call(c.glob('node.utils.debug'), [f])
    for p in made:
        if not p.ok or p.val.tag not in ('fn', 'clos', 'lam'):
            raise Unknown('decorator returns %s' % show(p.val))
        n = len(p.st.trace)
        a1, kv = sym('a1', 'any'), sym('kv', 'any')
        rest, kw = sym('args', 'tuple'), sym('kw', 'dict')
        for args, kws in [
                ([a1], {'k': kv}),
                ([a1], {'*': (c.A.many(rest),), '**': kw})] + [
                    ([a1], {x: kv}) for x in c.options(p.val)]:
            def j(x, kws=kws):
                calls = x.calls(f)
                if len(calls) != 1:
                    return 'the function is called %d times' % len(calls)
                e = calls[0]
                if '*' not in kws:
                    if e.args != (a1,) or dict(e.kw) != kws:
                        return 'the function is called with %s %s' % (
                            show(e.args), show(e.kw))
                else:
                    d = dict(e.kw)
                    if (e.args and e.args[0] is not a1) or not mentions(
                            d.get('*', NONE), rest) or not mentions(
                                d.get('**', NONE), kw):
                        return 'the function is called with %s %s' % (
                            show(e.args), show(e.kw))
                if x.ok:
                    if x.val is not e.res:
                        return 'returns %s instead of the result' % show(
                            x.val)
                elif not x.passes_on(f):
                    return 'error is replaced by %s' % show(x.val)
            c.each('C35.debug', c.call(p.val, args, kws, st=p.st.copy()), j,
                   'debug: exactly one call with the arguments given, its '
                   'result returned, its error passed')


def unset(c):
    q = c.q('node.utils.Unset')
    v = c.glob('node.utils.UNSET')
    view = c.A.class_view(q)
    for name, ok, what in (
            ('__bool__', lambda x: x is FALSE, 'the unset marker is true'),
            ('__len__', lambda x: is_const(x, 'int') and x.a[1] == 0,
             'the unset marker is not empty'),
            ('__str__', lambda x: is_const(x, 'str') and x.a[1] == '',
             'the unset marker has a text')):
        if name not in view.members:
            c.judge('C35.unset', lambda: 'the unset marker has no %s' % name,
                    where=(c.prog.modules['node.utils'].path, 0, q))
            continue
        for p in c.vcall(view, v, name, []):
            c.judge('C35.unset', lambda: None if p.ok and ok(p.val) else
                    what, p, text='UNSET is false, empty, with empty text, '
                    'and no class overrides equality')
    c.judge('C35.unset', lambda: 'the unset marker equals other values'
            if '__eq__' in view.members else None)
