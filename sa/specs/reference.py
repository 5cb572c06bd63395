"""C04, C05: the uuid index shared by the nodes of a tree."""
from ..interp import Ctx
from ..lib import (KEY, NEXT, NONE, VAL, Loop, State, Unknown, app, bi, const,
                   is_app, mentions, mk, show, subst, subterms, sym)
from .location import is_node, set_on

EFFECTS = ('mset', 'mdel', 'mupdate', 'mclear', 'setitem', 'delitem',
           'setattr', 'delattr')


def idx(o):
    return app('attr', o, const('_index'))


class Index(object):
    """How the tree keeps its index: the form of keys, names of helpers."""

    def __init__(self, c):
        self.c = c
        self.q = c.q('node.behaviors.Reference')
        self.me = c.me(self.q)
        self.SI = idx(self.me)
        self.form = None
        U = sym('uuid', 'obj')
        m = c.member(self.q, 'uuid')
        if m.tag != 'prop' or m.a[1] is None:
            raise Unknown('uuid is no settable property')
        self.U = U
        self.setter = c.call(m.a[1], [self.me, U])
        for p in self.setter:
            if p.ok:
                for op in p.map_log(self.SI):
                    if op[0] == 'set' and op[2] is self.me and \
                            mentions(op[1], U):
                        self.form = op[1]
        if self.form is None:
            raise Unknown('index is not kept in _index')

    def key(self, uuid):
        return subst(self.form, {self.U: uuid})

    def keys_of(self, n):
        """Accepted forms of the key of a node."""
        return [self.key(app('attr', n, const(x))) for x in ('uuid', '_uuid')]


# -- net effect on a mapping -----------------------------------------------------------

def all_of(x):
    return app('keys', x) if not is_app(x, 'keys') else x


def net(p, d):
    """Simplified operations on mapping d; raises Unknown otherwise."""
    out = []

    def push(op):
        if out:
            last = out[-1]
            # additions taken back
            if last[0] == 'put' and op[0] == 'drop' and last[1] is op[1]:
                out.pop()
                return
            # removals put back
            if last[0] == 'drop' and op == ('put', last[1], d):
                out.pop()
                return
            if last[0] == 'set' and op[0] == 'del' and last[1] is op[1] and \
                    p.holds(app('in', op[1], d)) is False:
                out.pop()
                return
        if op == ('put', all_of(d), d) and 'clear' in [o[0] for o in out]:
            # everything dropped and a copy put back
            del out[:]
            return
        out.append(op)

    def update(x):
        if x.tag == 'ref':
            log = p.map_log(x)
            if not log:
                return
            for op in log:
                one(op, x)
            return
        push(('put', all_of(x), x))

    def one(op, x):
        k = op[0]
        if k == 'set':
            push(('set', op[1], op[2]))
        elif k == 'del':
            push(('del', op[1]))
        elif k == 'clear':
            push(('clear', ))
        elif k == 'update':
            update(op[1])
        elif k == 'loop' and len(op[3]) == 1:
            src, elem = op[1], op[2]
            g, ops = next(iter(op[3]))
            if not g and len(ops) == 1 and ops[0][1] is elem:
                o = ops[0]
                if o[0] == 'del':
                    push(('drop', src))
                    return
                if o[0] == 'set' and is_app(o[2], 'item') and \
                        o[2].a[2] is elem:
                    push(('put', src, o[2].a[1]))
                    return
            push(('loop', src, elem, op[3]))
        elif k in ('loop', 'looppart'):
            push(op)
        else:
            raise Unknown('index is changed by %s' % k)
    for op in p.map_log(d):
        one(op, d)
    return out


def show_net(ops):
    t = {'put': 'adds all of %s', 'drop': 'drops all of %s',
         'set': 'sets %s', 'del': 'drops %s', 'clear': 'empties it',
         'loop': 'changes some of %s', 'looppart': 'changes part of %s'}
    return ', '.join(t[o[0]] % show(o[1]) if '%s' in t[o[0]] else t[o[0]]
                     for o in ops)


def indexes(p):
    """Final index of nodes known as entries of an index, by their source."""
    out = {}
    for (o, n), v in p.st.cells.items():
        if n == '_index' and is_app(o, 'item') and is_app(o.a[2], 'elem'):
            out[(o.a[2].a[1], o.a[1])] = v
    return out


def disjoint(p, a, b):
    """Whether two indexes share no key; None if that was not tested."""
    ka, kb = all_of(a), all_of(b)
    for x, y in ((ka, kb), (kb, ka)):
        f = p.st.facts.get(app('intersects', x, y))
        if f is not None:
            return not f
    for x, other in ((ka, b), (kb, a)):
        e, f = app('elem', x), app('found', x)
        pe = app('in', e, other)
        for l in p.loops():
            if l.src is not x:
                continue
            gs = [dict(g) for g, evs in l.alts]
            if not l.partial and gs and all(g == {pe: False} for g in gs):
                return True
            if l.partial and p.st.facts.get(app('in', f, other)) is True:
                return False
        want = frozenset([frozenset([(pe, True)])])
        for k, v in p.st.facts.items():
            if not is_app(k, 'truthy'):
                continue
            segs = p.st.lists.get(k.a[1]) if k.a[1].tag == 'ref' else \
                k.a[1].a[1] if k.a[1].tag == 'seq' else None
            if segs and len(segs) == 1 and segs[0][0] == 'many' and \
                    segs[0][1] is x:
                hit = [dict(g) for g, items in segs[0][3] if items]
                if hit == [{pe: True}]:
                    return not v
        for k, v in p.st.facts.items():
            if is_app(k, 'exists') and k.a[1] is x and k.a[3] == want:
                return not v
    return None


def tested_otherwise(p, a, b):
    """Some other test involving both or one of the indexes."""
    return [k for k in p.st.facts if
            (mentions(k, a) or mentions(k, b)) and
            not is_app(k, 'providedBy') and
            # which one is larger tells nothing
            not (is_app(k) and k.a[0] in ('le', 'lt') and
                 all(is_app(x, 'len') for x in k.a[1:]))]


def only_points(p, a, b):
    """Every test made is for one uuid named by the node itself."""
    ks = tested_otherwise(p, a, b)
    for k in ks:
        if not (is_app(k, 'in') and k.a[2] is a) or any(
                is_app(x) and x.a[0] in ('elem', 'found', 'fold', 'loopvar',
                                         'loopend', 'mret', 'ret', 'rec')
                or x is b for x in subterms(k.a[1])):
            return False
    calls = p.calls(NEXT)
    before = p.trace[:p.index(calls[0])] if calls else p.trace
    return bool(ks) and not any(
        not isinstance(e, Loop) and e.kind in ('call', 'mcall')
        for e in before)


# -- adding ---------------------------------------------------------------------------

def C04(c):
    c.part(adding, c)
    c.part(finding, c)
    c.part(init, c)
    c.part(ready_add, c)


def index_effects(p, val, me):
    return [e for e in p.events() if e.kind in EFFECTS and (
        e.kind.startswith('m') or e.args and e.args[0] is const('_index'))
        and not (e.f.tag == 'ref')]


def moved_unless_same(p, VI, SI):
    """Every node of the index VI is given that index, except when told that
    it uses it."""
    same = A2(p, VI, SI)
    for l in reversed(p.loops()):
        if l.src is not all_of(VI):
            continue
        node = app('item', VI, app('elem', l.src))
        last = [(dict(g), [e.args[1] for e in evs if not isinstance(e, Loop)
                           and e.kind == 'setattr' and e.f is node and
                           e.args[0] is const('_index')][-1:])
                for g, evs in l.alts]
        if any(v for g, v in last):
            return not l.partial and all(
                v and v[0] is VI or not v and g.get(same) is True
                for g, v in last)
    return False


def A2(p, a, b):
    return p.A.pred2('is', a, b)


def shared(p, VI, SI, val, want):
    """Problem if not all nodes of index VI (val included) use index want."""
    got = indexes(p)
    src = all_of(VI)
    out = []
    c = [v for (s, m), v in got.items() if s is src or s is all_of(SI)]
    if want is VI:
        # initial state is fine as well
        c = [v for v in c if v is not VI]
        if c and not moved_unless_same(p, VI, SI):
            out.append('nodes of the refused subtree stay in the index of '
                       'the tree')
        if p.final(val, '_index') is not VI:
            out.append('the refused node stays in the index of the tree')
        return out
    if not c:
        if p.events('mcall'):
            raise Unknown('nodes share the index otherwise')
        out.append('nodes below the subtree keep an index of their own')
    elif any(v is not want for v in c):
        out.append('nodes of the subtree use %s as index' % show(c[0]))
    f = p.final(val, '_index')
    if f is not want and not (c and f is VI):
        out.append('the subtree uses %s as index' % show(f))
    return out


def adding(c):
    x = Index(c)
    me, SI, VI = x.me, x.SI, idx(VAL)
    ps = c.plumb(x.q, '__setitem__', [me, KEY, VAL])

    def j(p0):
        out = []
        for p, (node,) in p0.cases(is_node(c)):
            calls = p.calls(NEXT)
            eff = index_effects(p, VAL, me)
            if not node:
                if eff:
                    out.append('index is changed for a value which is no '
                               'node')
                if len(calls) != 1 or calls[0].args != (me, KEY, VAL):
                    out.append('a value which is no node is not handed on')
                elif not p.ok and not p.passes_on(NEXT):
                    out.append('error of the layers below is replaced')
                continue
            dis = disjoint(p, SI, VI)
            if dis and p.st.facts.get(A2(p, SI, VI)):
                continue    # a node is in its own index
            if dis is False:
                if p.ok or not p.raises('ValueError'):
                    out.append('a uuid already contained is %s' % (
                        'accepted' if p.ok else 'refused by %s' %
                        show(p.val)))
                if calls:
                    out.append('a subtree with a uuid already contained is '
                               'handed on')
                if net(p, SI) or net(p, VI) or shared(p, VI, SI, VAL, VI):
                    out.append('refusing a uuid already contained changes '
                               'an index')
                continue
            if dis is None:
                if not calls and not p.ok:
                    if eff and (net(p, SI) or shared(p, VI, SI, VAL, VI)):
                        out.append('failure changes an index')
                    if tested_otherwise(p, SI, VI):
                        raise Unknown('uuids are tested otherwise')
                    out.append('subtree is refused with %s without looking '
                               'for its uuids' % show(p.val))
                    continue
                if only_points(p, SI, VI):
                    out.append('only the uuid of the node itself is looked '
                               'for in the index of the tree, not those of '
                               'the nodes below')
                    continue
                if tested_otherwise(p, SI, VI):
                    raise Unknown('uuids are tested otherwise')
                out.append('a subtree is added without testing that none of '
                           'its uuids is contained already')
                continue
            if len(calls) != 1:
                out.append('a subtree of new uuids is handed on %d times' %
                           len(calls))
                continue
            if calls[0].args != (me, KEY, VAL):
                out.append('layers below get %s' % show(calls[0].args))
            n = net(p, SI)
            if p.ok and p.events('raise', NEXT):
                out.append('error of the layers below is swallowed')
                continue
            if p.ok:
                if p.final(me, '_index') is not SI:
                    out.append('index of the tree is replaced: other nodes '
                               'of the tree keep the old one')
                    continue
                if n != [('put', all_of(VI), VI)]:
                    out.append('adding a subtree %s instead of adding all '
                               'of its uuids' % (
                                   show_net(n) or 'leaves the index'))
                out += shared(p, VI, SI, VAL, SI)
            else:
                if not p.passes_on(NEXT):
                    out.append('error of the layers below is replaced by %s'
                               % show(p.val))
                if n:
                    out.append('after storing failed the index of the tree '
                               'is changed: %s' % show_net(n))
                if net(p, VI):
                    out.append('after storing failed the index of the '
                               'subtree is changed: %s' % show_net(
                                   net(p, VI)))
                if p.final(me, '_index') is not SI:
                    out.append('after storing failed the tree has another '
                               'index')
                out += shared(p, VI, SI, VAL, VI)
        return out
    c.each('C04.add', ps, j, 'Reference.__setitem__: on every path handing a '
           'node on, the uuids of tree and subtree were tested to be '
           'disjoint; on success the index of the tree has all uuids of the '
           'subtree and all of its nodes use that index; on refusal and on '
           'every failure the net effect on both indexes is nothing')


def finding(c):
    x = Index(c)
    me, SI = x.me, x.SI
    u = sym('uuid', 'obj')
    k = x.key(u)

    def j(p):
        if not p.ok:
            return 'looking up a uuid fails with %s' % show(p.val)
        if p.events() and [e for e in p.events() if e.kind in EFFECTS and
                           e.f.tag != 'ref']:
            return 'looking up a uuid changes something'
        i = p.holds(app('in', k, SI))
        if i is None:
            if mentions(p.val, SI):
                raise Unknown('looked up otherwise')
            return 'a uuid is not looked up in the index of the tree'
        if i and p.val is not app('item', SI, k):
            return 'returns %s for a uuid contained' % show(p.val)
        if not i and p.val is not NONE:
            return 'returns %s for a missing uuid' % show(p.val)
    c.each(c.pid + '.node', c.method(x.q, 'node', [u]), j,
           'node(uuid) looks up that uuid in the index of the tree, as the '
           'key form the uuid setter stores')
    m = c.member(x.q, 'index')
    if m.tag != 'prop':
        raise Unknown('index is no property')
    for p in c.call(m.a[0], [me]):
        if not p.ok:
            c.judge(c.pid + '.index', lambda: 'index fails', p)
            continue
        o = p.val
        for name in ('__getitem__', 'get', 'get*', '__contains__'):
            D = sym('default', 'any')
            args = [u, D] if name == 'get' else [u]
            if name == 'get*':
                name, D = 'get', NONE
            view = c.A.view_of(p.st, o)
            if view is None or name not in view.members:
                raise Unknown('index is %s' % show(o))
            ps = c.call(view.members[name], [o] + args, st=p.st.copy())

            def jj(y, name=name, D=D):
                i = y.holds(app('in', k, SI))
                if name == '__contains__':
                    for z, (t,) in y.cases(app('in', k, SI)):
                        r = z.truth(z.val) if z.ok else None
                        if not z.ok:
                            return 'containment fails with %s' % show(z.val)
                        if r is None:
                            raise Unknown('returns %s' % show(z.val))
                        if r is not t:
                            return 'containment is wrong'
                    return
                if i is None or any(is_app(g, 'is') and NONE in g.a[1:] and
                                    app('item', SI, k) in g.a[1:]
                                    for g in y.st.facts):
                    raise Unknown('looked up otherwise')
                if i:
                    if not y.ok or y.val is not app('item', SI, k):
                        return '%s yields %s for a uuid contained' % (
                            name, show(y.val))
                elif name == 'get':
                    if not y.ok or y.val is not D:
                        return 'get yields %s for a missing uuid' % show(
                            y.val)
                elif y.ok or not y.raises('KeyError'):
                    return 'a missing uuid yields %s' % show(y.val)
            c.each(c.pid + '.index', ps, jj, 'index reads the index of the tree '
                   'by the same form of key')


def init(c):
    x = Index(c)
    me = x.me
    a, b = sym('arg', 'any'), sym('kwarg', 'any')

    def j(p):
        calls = p.calls(NEXT)
        if len(calls) != 1:
            return 'further initialization is called %d times' % len(calls)
        if calls[0].args != (me, a) or dict(calls[0].kw) != {'kw': b}:
            return 'layers below are initialized with %s' % show(
                tuple(calls[0].args) + tuple(calls[0].kw))
        d = p.at(calls[0], me, '_index')
        if d.tag == 'glob':
            return 'all nodes share one index'
        if d.tag != 'ref':
            return 'node has no index of its own when the layers below ' \
                'initialize'
        log = [o for o in p.map_log(d)]
        if len(log) != 1 or log[0][0] != 'set' or log[0][2] is not me:
            return 'index of a new node does not consist of the node itself'
        if p.ok and p.final(me, '_index') is not d:
            return 'index is replaced after initialization of the layers ' \
                'below'
        u = p.final(me, '_uuid')
        if u is NONE or is_app(u, 'attr'):
            return 'a new node has no uuid'
        if log[0][1] is not x.key(u):
            return 'a new node is indexed as %s' % show(log[0][1])
    ps = c.plumb(x.q, '__init__', [me, a], {'kw': b})
    c.each('C04.init', ps, j, 'every new node gets an index of its own which '
           'contains the node under its uuid, before layers below '
           'initialize')


def ready_add(c):
    """All layers of the ready-made classes together."""
    Index(c)
    for n in ('node.base.Node', 'node.base.AttributedNode'):
        q = c.q(n)
        view = c.A.class_view(q)
        s = sym('self', 'node', q)
        SI, VI = idx(s), idx(VAL)
        k = sym('key', 'int')
        ps = c.vcall(view, s, '__setitem__', [k, VAL])

        def j(p0):
            out = []
            for p, (node,) in p0.cases(is_node(c)):
                if not node:
                    continue
                stored = [e for e in p.events('mset') if e.args[1] is VAL
                          and e.args[0] is k]
                if p.ok:
                    if stored and net(p, SI) != [('put', all_of(VI), VI)]:
                        out.append('a node is stored without adding its '
                                   'uuids')
                elif net(p, SI):
                    out.append('failing %s the index is changed' % show(
                        p.val))
            return out
        c.each('C04.ready', ps, j, 'item assignment of the ready-made '
               'referencing classes, all layers included: uuids are added '
               'exactly if the node gets stored')


# -- removing -------------------------------------------------------------------------

def C05(c):
    c.part(finding, c)
    c.part(setting, c)
    c.part(deleting, c)
    c.part(replacing, c)
    c.part(detaching, c)
    c.part(ready_del, c)


def replacing(c):
    """A node stored under a key in use takes the place of another one."""
    x = Index(c)
    me = x.me
    ps = c.plumb(x.q, '__setitem__', [me, KEY, VAL])
    fn = c.A.plumb_fn(x.q, '__setitem__')

    def j():
        for p0 in ps:
            if not p0.ok:
                continue
            for p, (node,) in p0.cases(is_node(c)):
                if not node:
                    continue
                if p.doubt():
                    raise Unknown(p.doubt())
                # anything done about what is there already
                if any(mentions(y, me) and mentions(y, KEY)
                       for e in p.events() if e.f is not NEXT
                       for y in (e.f, e.args)) or any(
                           mentions(k, KEY) for k in p.st.facts):
                    raise Unknown('child replaced')
                return 'uuids of a replaced child and its descendants stay ' \
                    'in the index'
        return None
    c.judge('C05.replaced', j, where=c.where_of(fn)[:2] + (
        x.q + '.__setitem__',), text='storing under a '
            'key in use removes the uuids of the child replaced')


def setting(c):
    x = Index(c)
    me, SI, U = x.me, x.SI, x.U
    k = x.form
    OLD = app('attr', me, const('_uuid'))
    old = x.key(OLD)

    def j(p0):
        out = []
        for p, (has, null, onull) in p0.cases(
                app('in', k, SI), p0.A.pred2('is', U, NONE),
                p0.A.pred2('is', OLD, NONE)):
            if null:
                continue
            ent = app('item', SI, k)
            if has and (p.holds(p.A.pred2('is', ent, NONE)) is True or
                        p.truth(ent) is False):
                continue        # entries of the index are nodes
            mine = p.holds(p.A.pred2('is', me, app('item', SI, k)))
            log = p.map_log(SI)
            if has and mine is None:
                for y, (t,) in p.cases(p.A.pred2('eq', me, app(
                        'item', SI, k))):
                    mine = t if mine is None or mine is t else '?'
                if mine == '?':
                    mine = None
            if has and not mine:
                if p.ok:
                    if mine is None and p0.holds(app(
                            'in', k, SI)) is None:
                        out.append('a uuid is assigned without looking '
                                   'whether another node uses it')
                    elif mine is None:
                        out.append('a uuid is assigned without looking '
                                   'which node uses it')
                    else:
                        out.append('a uuid used by another node is accepted')
                    continue
                if mine is None:
                    out.append('assigning its own uuid again is refused')
                if not p.raises('ValueError'):
                    out.append('a uuid used by another node raises %s' %
                               show(p.val))
                if log or not p.untouched(me, '_uuid'):
                    out.append('a refused uuid changes something')
                continue
            if not p.ok:
                out.append('assigning a uuid fails with %s' % show(p.val))
                continue
            if p.final(me, '_uuid') is not U:
                out.append('uuid of the node is %s' % show(
                    p.final(me, '_uuid')))
            # effects of the log
            same = p.holds(p.A.pred2('eq', k, old))
            cur = dropped = None
            for op in log:
                if op[0] == 'set' and op[1] is k:
                    cur = op[2]
                elif op[0] == 'del' and op[1] is k:
                    cur = None
                elif op[0] == 'del' and op[1] is old:
                    dropped = True
                    if same is not False and cur is not None:
                        cur = 'lost'
                elif op[0] == 'set' and op[1] is old:
                    dropped = None
                elif op[0] == 'del' and op[1] is NONE and onull:
                    pass
                else:
                    raise Unknown('index is changed by %s' % op[0])
            if cur == 'lost':
                out.append('assigning the uuid a node has already makes it '
                           'unfindable')
            elif cur is not me and not (has and mine and not log):
                out.append('node is not found by its new uuid')
            if not onull and not dropped and same is not True and \
                    p.holds(app('in', old, SI)) is not False:
                out.append('node is still found by its old uuid')
        return out
    c.each('C05.uuid', x.setter, j, 'uuid setter: a uuid in the index of '
           'another node raises ValueError without effect; otherwise the '
           'index maps the new key to the node and has the old key no more')

    def none(p):
        if not p.ok or p.holds(p.A.pred2('is', OLD, NONE)) is not False or \
                p.holds(app('in', old, SI)) is False:
            return
        gone = None
        for op in p.map_log(SI):
            if op[0] not in ('set', 'del') or op[1] not in (old, NONE):
                raise Unknown('index is changed by %s' % op[0])
            if op[1] is old:
                gone = op[0] == 'del'
        if not gone:
            return 'a node is still found by the uuid taken from it'
    m = c.member(x.q, 'uuid')
    c.each('C05.uuid-none', c.call(m.a[1], [me, NONE]), none, 'uuid setter: '
           'taking the uuid from a node removes the old key from the index')


def child_of(me, e=None):
    return app('item', me, KEY if e is None else e)


def collects(c, x, name):
    """Problems of the helper collecting the keys of a subtree."""
    me = x.me
    out = []

    def j(p):
        if not p.ok:
            if p.val.a[2].tag == 'app' and p.val.a[2].a[0] == 'raised':
                return
            return 'collecting uuids of a subtree fails with %s' % show(
                p.val)
        own, kids, rest = [], [], []
        for s in p.segs():
            if s[0] == 'item':
                own.append(s[1])
            elif s[0] == 'many' and s[1] is app('keys', me):
                kids.append(s)
            else:
                rest.append(s)
        if rest and all(s[0] == 'part' and s[1][0] == 'many' and
                        s[1][1] is app('keys', me) for s in rest):
            return 'uuids of children following some child are not collected'
        if rest:
            raise Unknown('uuids are collected otherwise')
        r = []
        if not [k for k in own if k in x.keys_of(me)]:
            r.append('uuid of the node itself is not collected')
        if [k for k in own if k not in x.keys_of(me)]:
            r.append('collects %s' % show(own[-1]))
        if not kids:
            r.append('uuids of children are not collected')
            return r
        child = child_of(me, app('elem', app('keys', me)))
        for s in kids:
            for g, items in s[3]:
                sub = [i for i in items if i[0] == 'many' and
                       is_app(i[1], 'keys') and
                       is_app(i[1].a[1], 'mret') and
                       i[1].a[1].a[1] is child and
                       i[1].a[1].a[2] is const(name)]
                it = [i for i in items if i not in sub]
                if not sub and not items:
                    t = [pr for pr, v in g if not acceptable(c, pr, child)]
                    if not g or t:
                        bad = t and t[0]
                        if bad and bad.a[0] not in ('nonempty', 'truthy',
                                                    'in', 'eq', 'is'):
                            raise Unknown('children are skipped if %s' %
                                          show(bad))
                        r.append('uuids below some children are not '
                                 'collected')
                elif not sub:
                    if any(i[0] == 'item' and i[1] in x.keys_of(child)
                           for i in it):
                        r.append('only uuids of direct children are '
                                 'collected')
                    else:
                        raise Unknown('collected otherwise')
        return r
    c.each('C05.collect', c.method(x.q, name, []), j, 'the uuids of a '
           'subtree are those of the node and of all referencing nodes '
           'below, recursively')


def acceptable(c, pr, child):
    """A test telling whether the child takes part in the index."""
    if is_app(pr, 'hasattr') and pr.a[1] is child:
        return True
    if is_app(pr, 'providedBy') and pr.a[2] is child:
        return True
    if is_app(pr, 'isinstance'):
        return True
    if is_app(pr, 'is') and child in pr.a[1:] and NONE in pr.a[1:]:
        return True
    return False


def registers(c, x, name):
    """The helper registering all nodes below in the index of the node."""
    me, SI = x.me, x.SI
    child = child_of(me, app('elem', app('keys', me)))

    def j(p):
        if not p.ok:
            return
        ls = [l for l in p.loops() if l.src is app('keys', me)]
        if not ls:
            if p.loops() or p.events('mcall'):
                raise Unknown('registered otherwise')
            return 'nodes below are not registered'
        out = []
        for l in ls:
            if l.partial and any(e.kind in ('mset', 'setattr', 'mcall')
                                 for g, evs in l.alts for e in evs
                                 if not isinstance(e, Loop)):
                out.append('children following some child are not '
                           'registered')
            for g, evs in l.alts:
                own = [e for e in evs if e.kind == 'mset' and e.f is SI and
                       e.args[1] is child and
                       e.args[0] in x.keys_of(child)]
                ix = [e for e in evs if e.kind == 'setattr' and
                      e.f is child and e.args[0] is const('_index')]
                rec = [e for e in evs if e.kind == 'mcall' and
                       e.f is child and e.args[0] is const(name)]
                if not own and not ix and not rec:
                    if not g or [pr for pr, v in g
                                 if not acceptable(c, pr, child)]:
                        out.append('some children are not registered')
                    continue
                if not own:
                    out.append('child is not registered under its uuid')
                if [e.args[1] for e in ix][-1:] != [SI] and (
                        ix or dict(g).get(p.A.pred2('is', app(
                            'attr', child, const('_index')), SI))
                        is not True):
                    out.append('child does not share the index')
                if not rec:
                    out.append('nodes below children are not registered')
                elif ix and evs.index(rec[0]) < evs.index(ix[-1]):
                    out.append('nodes below are registered before the child '
                               'shares the index')
        return out
    c.each('C05.register', c.method(x.q, name, []), j, 'registering the '
           'nodes below a node in its index covers every referencing child, '
           'recursively')


def takes_part(p, n):
    return any(v for k, v in p.st.facts.items() if
               (is_app(k, 'hasattr') or is_app(k, 'providedBy') or
                is_app(k, 'isinstance')) and mentions(k, n))


def own_tree(p, x, child, K, SI, helpers):
    """Problem unless the removed child has an index of its own."""
    f = p.final(child, '_index')
    got = [v for (s, m), v in indexes(p).items() if s is K and m is SI]
    if got:
        d = got[0]
        if d.tag != 'ref':
            return 'removed nodes use %s as index' % show(d)
        if net_fresh(p, d) != [('put', K, SI)]:
            return 'index of the removed subtree is not that of its nodes'
        return
    if f.tag == 'ref':
        log = p.map_log(f)
        if not any(o[0] == 'set' and o[2] is child and
                   o[1] in x.keys_of(child) for o in log):
            return 'index of the removed subtree does not have its root'
        reg = [e for e in p.events('mcall', child)
               if p.index(e) > max([p.index(y) for y in set_on(p, child)]
                                   or [-1])]
        if not reg:
            return 'nodes below the removed child keep the index of the tree'
        helpers.add(reg[-1].args[0])
        return
    if f is idx(child):
        if p.events('mcall', child) and len(p.events('mcall', child)) > 1:
            raise Unknown('index is made otherwise')
        return 'removed nodes keep the index of the tree'
    return 'removed child uses %s as index' % show(f)


def net_fresh(p, d):
    out = []
    for op in p.map_log(d):
        if op[0] == 'loop' and len(op[3]) == 1:
            g, ops = next(iter(op[3]))
            if not g and len(ops) == 1 and ops[0][0] == 'set' and \
                    ops[0][1] is op[2] and is_app(ops[0][2], 'item'):
                out.append(('put', op[1], ops[0][2].a[1]))
                continue
        out.append(op)
    return out


def deleting(c):
    x = Index(c)
    me, SI = x.me, x.SI
    child = child_of(me)
    ps = c.plumb(x.q, '__delitem__', [me, KEY])
    helpers, regs = set(), set()

    def collected(p):
        ks = [e.res for e in p.events('mcall', child)]
        return [app('keys', k) for k in ks]

    def j(p):
        out = []
        calls = p.calls(NEXT)
        Ks = collected(p)
        # uuids of nodes of the tree are in its index
        for k in Ks:
            if p.holds(app('in', app('found', k), SI)) is False:
                return
        n = net(p, SI)
        if not p.ok:
            if n:
                out.append('failing deletion changes the index: %s' %
                           show_net(n))
            if calls and not p.passes_on(NEXT):
                out.append('error of the layers below is replaced by %s' %
                           show(p.val))
            g = [e for e in p.events('raise')]
            if not calls and not (g and g[-1].args[0] is p.val):
                out.append('deletion fails on its own with %s' % show(
                    p.val))
            if set_on(p, child) and p.final(child, '_index') is not idx(
                    child) or indexes(p):
                if any(v is not SI for v in indexes(p).values()):
                    out.append('failing deletion leaves nodes with another '
                               'index')
            return out
        if p.events('raise', NEXT):
            out.append('error of the layers below is swallowed')
            return out
        if len(calls) != 1 or calls[0].args != (me, KEY):
            out.append('deletion is handed on %d times' % len(calls))
        if Ks and not takes_part(p, child):
            out.append('uuids are removed for a child which may take no '
                       'part in the index')
        if not Ks:
            if n:
                raise Unknown('uuids are removed otherwise')
            no = [k for k, v in p.st.facts.items() if
                  (is_app(k, 'hasattr') or is_app(k, 'providedBy')) and
                  not v and mentions(k, child)]
            if not no:
                out.append('uuids of the deleted child stay in the index')
            return out
        if len(n) != 1 or n[0][0] != 'drop' or n[0][1] not in Ks:
            out.append('deleting a child %s instead of dropping the uuids '
                       'of the subtree' % (
                           show_net(n) or 'leaves the index as it is'))
            return out
        for e in p.events('mcall', child):
            if app('keys', e.res) is n[0][1]:
                helpers.add(e.args[0])
        w = own_tree(p, x, child, n[0][1], SI, regs)
        if w:
            out.append(w)
        return out
    c.each('C05.delete', ps, j, 'Reference.__delitem__: the net effect on '
           'the index is dropping exactly the uuids collected from the '
           'child if deletion succeeds, and nothing if it fails; removed '
           'nodes get an index consisting of them')
    for h in sorted(helpers, key=repr):
        collects(c, x, h.a[1] if h.tag == 'const' else show(h))
    for h in sorted(regs, key=repr):
        registers(c, x, h.a[1] if h.tag == 'const' else show(h))


def detaching(c):
    x = Index(c)
    me = x.me
    if c.A.plumb_fn(x.q, 'detach') is None:
        return
    ps = c.plumb(x.q, 'detach', [me, KEY])
    regs = set()

    def j(p):
        out = []
        calls = p.calls(NEXT)
        if len(calls) != 1 or calls[0].args != (me, KEY):
            return 'detaching is handed on %d times' % len(calls)
        n = calls[0].res
        if p.map_log(x.SI):
            out.append('detaching changes the index of the tree itself')
        if not p.ok:
            if not p.passes_on(NEXT):
                return 'error of the layers below is replaced by %s' % show(
                    p.val)
            return out
        if p.val is not n:
            out.append('returns %s instead of the detached child' % show(
                p.val))
        no = [k for k, v in p.st.facts.items() if
              (is_app(k, 'hasattr') or is_app(k, 'providedBy')) and
              not v and mentions(k, n)]
        f = p.final(n, '_index')
        if no or f is idx(n):
            # deletion made it a tree of its own already
            if set_on(p, n):
                out.append('a child which takes no part in the index is '
                           'changed')
            return out
        if f.tag != 'ref':
            out.append('detached child uses %s as index' % show(f))
            return out
        if not takes_part(p, n):
            out.append('a detached child which may take no part in the '
                       'index is changed')
        log = p.map_log(f)
        if [o[:1] + (o[2],) for o in log if o[0] == 'set'] != [
                ('set', n)] or log[0][1] not in x.keys_of(n):
            out.append('index of the detached child does not consist of the '
                       'child')
        s = [p.index(e) for e in set_on(p, n) if
             e.args[0] is const('_index')]
        reg = [e for e in p.events('mcall', n) if p.index(e) > max(s)]
        if not reg:
            out.append('nodes below the detached child do not share its '
                       'index')
        for e in reg:
            regs.add(e.args[0])
        return out
    c.each('C05.detach', ps, j, 'Reference.detach: hands on once and returns '
           'the child; a referencing child gets an index of its own with '
           'everything below registered; other values are left alone')
    for h in sorted(regs, key=repr):
        registers(c, x, h.a[1] if h.tag == 'const' else show(h))


def ready_del(c):
    Index(c)
    for n in ('node.base.Node', 'node.base.AttributedNode'):
        q = c.q(n)
        view = c.A.class_view(q)
        s = sym('self', 'node', q)
        SI = idx(s)
        k = sym('key', 'int')
        for name in ('__delitem__', 'detach'):
            ps = c.vcall(view, s, name, [k])

            def j(p):
                gone = [e for e in p.events('mdel') if e.args[0] is k]
                if not p.ok and not gone and net(p, SI):
                    lost = [f for f, v in p.st.facts.items() if not v and
                            is_app(f, 'in') and f.a[2] is SI]
                    if not lost:
                        return 'a failing removal changes the index: %s' % \
                            show_net(net(p, SI))
                if p.ok and not gone:
                    return 'removal does not remove the child'
            c.each('C05.ready', ps, j, 'deleting and detaching of the '
                   'ready-made referencing classes, all layers included')
