"""C11, C12, C13: copies, nodespaces, attributes container."""
from ..lib import (FALSE, KEY, NEXT, NONE, TRUE, VAL, Ctx, Loop, Missing,
                   State, Unknown, app, bi, const, cval, is_app, is_const,
                   mentions, mk, show, subterms, sym)
from .location import is_node, located, set_on
from .mapping import CHANGES, changing, failed

NAME, PARENT, UUID = const('__name__'), const('__parent__'), const('uuid')


# -- copies --------------------------------------------------------------------

def C11(c):
    c.part(nodify_copy, c)
    c.part(clonable, c)
    c.part(uuid_copy, c)
    c.part(uuid_init, c)
    c.part(set_uuid, c)
    c.part(uuid_deepcopy, c)


def nodify_copy(c):
    q = c.q('node.behaviors.Nodify')
    me = c.me(q)
    ps = c.plumb(q, 'copy', [me])

    def j(p):
        calls = p.calls(NEXT)
        if set_on(p, me):
            return 'copying changes the original'
        if len(calls) != 1:
            return 'copies %d times' % len(calls)
        if not p.ok:
            if not p.passes_on(NEXT):
                return 'error is replaced by %s' % show(p.val)
            return
        new = calls[0].res
        if p.val is not new:
            return 'returns %s instead of the copy' % show(p.val)
        out = []
        for a, n in ((NAME, 'name'), (PARENT, 'parent')):
            if p.final(new, a.a[1]) is not app('attr', me, a):
                out.append('%s of the copy is %s' % (n, show(p.final(
                    new, a.a[1]))))
        extra = [e for e in set_on(p, new) if e.args[0] not in (NAME, PARENT)]
        if extra:
            out.append('changes %s of the copy' % show(extra[0].args[0]))
        return out
    c.each('C11.copy', ps, j, 'Nodify.copy: exactly one copy made by the '
           'layers below, returned with name and parent of the original, '
           'which stays as it is')


def clonable(c):
    q = c.q('node.behaviors.ClonableMapping')
    me = c.me(q)
    for name, f in (('copy', 'copy.copy'), ('deepcopy', 'copy.deepcopy')):
        def j(p):
            if not p.ok:
                if p.val.tag == 'exc' and is_app(p.val.a[2], 'raised'):
                    return
                return 'fails with %s' % show(p.val)
            if p.val is me:
                return 'returns the node itself'
            cs = [e for e in p.events('call')]
            if len(cs) != 1 or p.val is not cs[0].res:
                raise Unknown('copied by other means')
            if show(cs[0].f) != f:
                return 'is made by %s' % show(cs[0].f)
            if cs[0].args[:1] != (me,):
                return 'copies %s' % show(cs[0].args)
        c.each('C11.' + name, c.method(q, name, []), j, '%s of a mapping is '
               'the result of %s of it' % (name, f))


def uuid_copy(c):
    q = c.q('node.behaviors.UUIDAware')
    me = c.me(q)

    def j(p):
        if p.ok:
            return 'a shallow copy is made'
        if p.calls(NEXT):
            return 'a shallow copy is made before it is refused'
        if not p.raises('RuntimeError'):
            return 'is refused with %s' % show(p.val)
    c.each('C11.refused', c.plumb(q, 'copy', [me]), j, 'UUIDAware.copy raises '
           'RuntimeError on every path, before anything is copied')


def fresh(p, v):
    """Problem with a new uuid, or None."""
    if is_app(v, 'ret') or is_app(v, 'mret'):
        f = v.a[1] if is_app(v, 'ret') else None
        if f is not None and show(f) in ('uuid.uuid3', 'uuid.uuid5',
                                         'uuid.UUID'):
            return 'uuid is made by %s, which repeats' % show(f)
        return None
    if v.tag == 'ref':
        return None
    if is_const(v) or v.tag in ('sym', 'glob') or is_app(v, 'attr') or \
            is_app(v, 'item'):
        return 'uuid is %s, which is not fresh' % show(v)
    return None


def made_within(p, v, n0=0):
    return any(e.res is v for e, d, l in p.flat_all()) if hasattr(
        p, 'flat_all') else any(e.res is v for e in p.events())


def uuid_init(c):
    q = c.q('node.behaviors.UUIDAware')
    me = c.me(q)
    a = sym('a1', 'any')

    def j(p):
        calls = p.calls(NEXT)
        if len(calls) != 1 or calls[0].args != (me, a):
            return 'layers below are initialized %d times' % len(calls)
        if not p.ok:
            if p.passes_on(NEXT):
                return
            e = p.events('raise')
            if e and e[-1].args and e[-1].args[0] is p.val:
                return
            return 'fails with %s' % show(p.val)
        v = p.final(me, 'uuid')
        if v is app('attr', me, UUID):
            return 'no uuid is set'
        return fresh(p, v)
    c.each('C11.init', c.plumb(q, '__init__', [me, a]), j, 'a uuid aware node '
           'gets a fresh uuid at initialization')


def uuid_rule(c, node, me, over, rec, safe, start=0):
    """Judge of paths which set uuids of node and below.

    over, rec: values of override and recursiv; safe: non-nodes do no harm to
    the recursive call.
    """
    AWARE = app('providedBy', c.cls('node.interfaces.IUUIDAware'), node)
    OLD = app('attr', node, UUID)
    src = app('keys', node)
    child = app('item', node, app('elem', src))
    ch_ok = [app('providedBy', c.cls('node.interfaces.' + i), child)
             for i in ('INode', 'IUUIDAware')]

    def truth(p, v):
        return True if v is TRUE else False if v is FALSE else p.truth(v)

    def j(p0):
        preds = [AWARE]
        out = []
        for p, (aware,) in p0.cases(AWARE):
            o, r = truth(p, over), truth(p, rec)
            sets = set_on(p, node)
            if any(e.args[0] is not UUID for e in sets):
                out.append('changes %s' % show(sets[0].args[0]))
            if me is not node and set_on(p, me):
                out.append('changes the original')
            if not p.ok:
                e = p.events('raise')
                if e and e[-1].args and e[-1].args[0] is p.val:
                    continue
                out.append('fails with %s' % show(p.val))
                continue
            old = p.truth(OLD)
            want = None if not aware and aware is not None else \
                True if o is True else None
            if aware is False:
                if sets:
                    out.append('sets the uuid of a node which is not uuid '
                               'aware')
            elif o is True or (o is False and old is False):
                if not sets:
                    out.append('uuid is not renewed')
                else:
                    x = fresh(p, sets[-1].args[1])
                    if x:
                        out.append(x)
            elif o is False and old is True:
                if sets:
                    out.append('a uuid present is replaced')
            elif o is None or old is None:
                if sets and not (o is True or old is False):
                    out.append('uuid is replaced without need' if o is False
                               or o is None and old is True else
                               'uuid is renewed whether or not overriding '
                               'is requested')
                elif not sets:
                    if not (o is False and old is None):
                        out.append('uuid is not renewed')
                    else:
                        out.append('a missing uuid is not set')
            recs = [(e, l) for e, d, l in p.flat() if e.kind == 'call' and
                    is_app(e.f, 'rec')]
            if r is True:
                ls = [l for l in p.loops() if l.src is src and not l.partial]
                # loops which just select the children
                ls = [l for l in ls if any(evs for g, evs in l.alts)] or ls
                if not ls:
                    if p.holds(app('nonempty', src)) is False:
                        continue
                    if recs or p.loops():
                        raise Unknown('children are visited otherwise')
                    out.append('nodes below get no uuid')
                    continue
                seen = 0
                for l in ls:
                    for g, evs in l.alts:
                        cs = [e for e in evs if getattr(e, 'kind', '') ==
                              'call' and is_app(e.f, 'rec')]
                        d = dict(g)
                        yes = any(d.get(x) is True for x in ch_ok)
                        # nodes which are not uuid aware may have such ones
                        # below them
                        no = d.get(ch_ok[0]) is False
                        if not cs and any(
                                getattr(e, 'kind', '') == 'setattr'
                                for e in evs):
                            raise Unknown('children get uuids otherwise')
                        for e in cs:
                            seen += 1
                            args = dict(zip(('self', 'node', 'override',
                                             'recursiv'), e.args))
                            args.update(dict(e.kw))
                            if args.get('node') is not child:
                                raise Unknown('recursion on %s' % show(
                                    e.args))
                            ov, rc = args.get('override'), args.get(
                                'recursiv')
                            if ov is not over and not (
                                    ov is not None and
                                    truth(p, ov) is o and o is not None):
                                out.append('overriding is not requested the '
                                           'same way below')
                            if rc is not rec and not (
                                    rc is not None and truth(p, rc) is True):
                                out.append('only direct children are visited')
                            if not yes and not safe:
                                out.append('values which are not nodes are '
                                           'treated as nodes')
                        if not cs and not no:
                            out.append('a child is left out')
                if not seen:
                    out.append('nodes below get no uuid')
            elif r is False:
                if recs:
                    out.append('nodes below are visited without request')
            else:
                if recs:
                    out.append('nodes below are visited whether or not '
                               'requested')
                else:
                    out.append('nodes below are never visited')
        return out
    return j


def nonnode_safe(c, q):
    """Whether set_uuid_for leaves non-nodes alone."""
    me = c.me(q)
    n = sym('value', 'any')
    safe = True
    for p in c.method(q, 'set_uuid_for', [n, TRUE, TRUE]):
        for x, (node,) in p.cases(is_node(c, n)):
            if node:
                continue
            if x.st.facts.get(app('providedBy', c.cls(
                    'node.interfaces.IUUIDAware'), n)) is True:
                continue
            if x.loops() or x.events():
                safe = False
    return safe


def set_uuid(c):
    q = c.q('node.behaviors.UUIDAware')
    me = c.me(q)
    n = sym('node', 'node')
    o, r = sym('override', 'bool'), sym('recursiv', 'bool')
    c.each('C11.set_uuid_for', c.method(q, 'set_uuid_for', [n, o, r]),
           uuid_rule(c, n, me, o, r, nonnode_safe(c, q)),
           'set_uuid_for: uuid renewed exactly for uuid aware nodes without '
           'one or if overriding, fresh for each node, and the same for '
           'every child that is a node exactly if recursive')
    c.each('C11.defaults', c.method(q, 'set_uuid_for', [n]),
           uuid_rule(c, n, me, FALSE, FALSE, nonnode_safe(c, q)),
           'set_uuid_for without options only sets a missing uuid, and of '
           'the very node only')


def uuid_deepcopy(c):
    q = c.q('node.behaviors.UUIDAware')
    me = c.me(q)
    safe = nonnode_safe(c, q)
    REC = app('attr', me, const('overwrite_recursiv_on_copy'))

    def j(p):
        calls = p.calls(NEXT)
        if len(calls) != 1:
            return 'copies %d times' % len(calls)
        if not p.ok and p.passes_on(NEXT):
            if set_on(p, me):
                return 'changes the original'
            return
        new = calls[0].res
        if p.ok and p.val is not new:
            return 'returns %s instead of the copy' % show(p.val)
        return uuid_rule(c, new, me, TRUE, REC, safe)(p)
    c.each('C11.deepcopy', c.plumb(q, 'deepcopy', [me]), j, 'UUIDAware.'
           'deepcopy: exactly one copy by the layers below, its uuid renewed '
           'if it is uuid aware, and below exactly if configured, the '
           'original left as it is')


# -- nodespaces -------------------------------------------------------------------

ISSTR = app('isinstance', KEY, bi('str'))
DUNDER = const('__')
STARTS, ENDS = app('startswith', KEY, DUNDER), app('endswith', KEY, DUNDER)


def is_space(p):
    """Whether the key addresses a nodespace; raises Unknown if the path
    tests the key otherwise."""
    if p.holds(ISSTR) is False:
        return False
    s, e = p.holds(STARTS), p.holds(ENDS)
    if s is False or e is False:
        return False
    if p.holds(ISSTR) is True and s is True and e is True:
        return True
    return None


def other_tests(p, key=KEY):
    """Facts about the key of a form the routing rule does not know."""
    ok = (ISSTR, STARTS, ENDS)
    return [k for k in p.st.facts if mentions(k, key) and k not in ok and
            k.a[0] in ('eq', 'startswith', 'endswith', 'isinstance', 'truthy',
                       'match', 'lt', 'le', 'gt', 'ge', 'in') and
            not (k.a[0] == 'in' and k.a[1] is key) and
            not (k.a[0] == 'isinstance' and k.a[1] is not key) and
            not (k.a[0] in ('eq', 'is') and const('__children__') in k.a)]


SAMPLES = [a + x + b for x in ('', 'a', 'abc', 'abcdefghijklmnopqrstuvwxyz')
           for a in ('', '_', '__', '___') for b in ('', '_', '__', '___')]


def by_length(p, odd, key=KEY):
    """Whether the tests are about the length of the key only, and a key
    exists which passes all tests of the path."""
    size = app('len', key)

    def value(v, k):
        return len(k) if v is size else cval(v)
    cmp = {'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
           'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b,
           'eq': lambda a, b: a == b}
    if any(k.a[0] not in cmp or len(k.a) != 3 or not all(
            x is size or is_const(x) and type(cval(x)) is int
            for x in k.a[1:]) for k in odd):
        return None
    if p.holds(ISSTR) is False:
        return False
    for k in SAMPLES:
        if p.holds(STARTS) is not k.startswith('__') or \
                p.holds(ENDS) is not k.endswith('__'):
            continue
        if all(p.st.facts[x] is cmp[x.a[0]](value(x.a[1], k), value(
                x.a[2], k)) for x in odd):
            return True
    return False


def spaces_of(c, p, s):
    vals = set()
    for r in c.A.load(p.st.copy(), s, 'nodespaces', None, Ctx('node')):
        if r.ok:
            vals.add(r.val)
    if len(vals) != 1:
        raise Unknown('nodespaces differ')
    return vals.pop()


def C12(c):
    q = c.q('node.behaviors.Nodespaces')
    me = c.me(q)
    c.part(container, c, q, me)
    c.part(routes, c, q, me)
    c.part(ready, c)


def container(c, q, me):
    m = c.member(q, 'nodespaces')
    if m.tag != 'prop':
        c.judge('C12.own', lambda: 'nodespaces are one object shared by all '
                'nodes' if m.tag == 'glob' else None)
        return

    def j(p):
        if not p.ok:
            return 'nodespaces fail with %s' % show(p.val)
        if p.val.tag == 'glob':
            return 'nodespaces are an object shared by all nodes'
        if p.val.tag == 'ref':
            again = set(r.val for r in c.A.load(
                p.st.copy(), me, 'nodespaces', None, Ctx('node')) if r.ok)
            if again != {p.val}:
                return 'nodespaces are created again on next access'
            log = p.map_log(p.val)
            if not any(x[0] == 'set' and x[1] is const('__children__') and
                       x[2] is me for x in log):
                return 'the node is not its own children nodespace'
        elif is_app(p.val, 'attr') and p.val.a[1] is me:
            if set_on(p, me):
                return 'nodespaces are replaced'
            if [e for e in p.events() if changing(e)]:
                return 'nodespaces are changed by reading them'
        else:
            return 'nodespaces are %s' % show(p.val)
    ps = c.call(m.a[0], [me])
    c.each('C12.own', ps, j, 'nodespaces: one mapping allocated per node on '
           'first access, found again afterwards, with the node itself as '
           '__children__')


def untyped(p, ps):
    """A text method is called on the key without knowing that it is text."""
    for e in p.events('mcall', KEY):
        if p.holds(ISSTR) is not True and not any(
                is_app(k, 'hasattr') and k.a[1] is KEY
                for x in ps for k in x.st.facts):
            return 'calls %s of a key which may not be text' % cval(e.args[0])


def routes(c, q, me):
    def one(name, args, ps, nxt, key):
        def j(p0):
            out = []
            w = untyped(p0, ps)
            if w:
                return w
            for p, vals in p0.cases(ISSTR, STARTS, ENDS):
                sp = is_space(p)
                calls = nxt(p)
                d = None
                if sp is None:
                    raise Unknown('key is tested otherwise')
                odd = other_tests(p)
                if odd:
                    fits = by_length(p, odd)
                    if fits is False:
                        continue
                    if fits is None:
                        raise Unknown('key is tested by %s' % show(odd[0]))
                if sp is False:
                    if len(calls) != 1:
                        out.append('a key of a child is handed on %d times '
                                   'to the layers below' % len(calls))
                        continue
                    if calls[0].args[-len(args):] != tuple(args):
                        out.append('layers below get %s' % show(
                            calls[0].args))
                    ch = [e for e in p.events() if changing(e) and
                          e.f is not me]
                    if ch:
                        out.append('performs %s for a key of a child' %
                                   ch[0].kind)
                    if p.ok and name == '__getitem__' and \
                            p.val is not calls[0].res:
                        out.append('returns %s instead of the child' % show(
                            p.val))
                    if not p.ok and not p.passes_on(calls[0].f):
                        out.append('error of the layers below is replaced '
                                   'by %s' % show(p.val))
                    continue
                if calls:
                    out.append('a key of a nodespace is handed on to the '
                               'layers below')
                    continue
                if name != '__getitem__' and p.ok and not any(
                        e.kind in CHANGES or e.kind in (
                            'mset', 'mdel', 'mupdate', 'mclear')
                        for e in p.events()):
                    out.append('%s of a nodespace is ignored' % name)
                    continue
                d = spaces_of(c, p, me)
                ch = [e for e in p.events() if e.kind in (
                    'mset', 'mdel', 'mupdate', 'mclear', 'setitem',
                    'delitem') and not (
                        e.kind == 'mset' and
                        e.args[0] is const('__children__'))]
                if name == '__getitem__':
                    if ch:
                        out.append('reading a nodespace changes something')
                    if p.ok:
                        if p.val is app('item', d, KEY):
                            continue
                        if p.val is me and p.holds(p.A.pred2(
                                'eq', KEY, const('__children__'))) is True:
                            continue
                        out.append('returns %s for a nodespace' % show(
                            p.val))
                    elif not p.raises('KeyError'):
                        out.append('a missing nodespace raises %s' % show(
                            p.val))
                    elif p.holds(app('in', KEY, d)) is True:
                        out.append('a nodespace is not found')
                elif name == '__setitem__':
                    if not p.ok:
                        out.append('setting a nodespace fails with %s' %
                                   show(p.val))
                        continue
                    if [(e.kind, e.f, e.args) for e in ch] != [
                            ('mset', d, (KEY, VAL))]:
                        out.append('setting a nodespace performs %s' % [
                            (e.kind, show(e.args)) for e in ch])
                    n, par = p.final(VAL, '__name__'), p.final(
                        VAL, '__parent__')
                    if p.holds(is_node(c)) is not False:
                        if n is not KEY or par is not me:
                            out.append('nodespace is located at %s and %s' % (
                                show(n), show(par)))
                else:
                    if p.ok:
                        if [(e.kind, e.f, e.args) for e in ch] != [
                                ('mdel', d, (KEY,))]:
                            if not (d.tag == 'ref' and p.holds(p.A.pred2(
                                    'eq', KEY, const('__children__')))):
                                out.append('deleting a nodespace performs '
                                           '%s' % [(e.kind, show(e.args))
                                                   for e in ch])
                    else:
                        if ch:
                            out.append('failing deletion changes something')
                        if not p.raises('KeyError'):
                            out.append('deleting a missing nodespace raises '
                                       '%s' % show(p.val))
                        if p.holds(app('in', KEY, d)) is True:
                            out.append('a nodespace is not deleted')
            return out
        c.each('C12.%s' % name.strip('_'), ps, j, '%s: keys that are text '
               'beginning and ending with two underscores act on exactly '
               'that entry of the nodespaces and nothing else, all other '
               'keys are handed on exactly once and unchanged' % name)
    for name, args in (('__getitem__', [KEY]), ('__setitem__', [KEY, VAL]),
                       ('__delitem__', [KEY])):
        c.part(lambda: one(name, args, c.plumb(q, name, [me] + args),
                           lambda p: p.calls(NEXT), KEY))


def ready(c):
    """The ready-made classes route the reserved attributes key."""
    for n in ('node.base.Node', 'node.base.AttributedNode'):
        q = c.q(n)
        view = c.A.class_view(q)
        s = sym('self', 'node', q)
        k = const('__attrs__')
        v = sym('val', 'node')
        S = app('attr', s, const('_storage'))

        def j(p):
            st = [e for e in p.events() if e.kind in (
                'mset', 'mdel') and (e.f is S or is_app(e.f, 'attr') and
                                     e.f.a[2] in (const('_storage'),
                                                  const('storage')))]
            if st:
                return 'a nodespace key reaches the children'
        for name, args in (('__setitem__', [k, v]), ('__delitem__', [k]),
                           ('__getitem__', [k])):
            c.each('C12.ready', c.vcall(view, s, name, args), j,
                   'ready-made classes never store a nodespace as child')


# -- attributes ----------------------------------------------------------------------

def C13(c):
    c.part(attrs, c)
    c.part(container_class, c)
    c.part(by_class, c)


def attrs(c):
    q = c.q('node.behaviors.Attributes')
    me = c.me(q)
    K = const('__attrs__')
    NS = app('attr', me, const('nodespaces'))
    ACC = app('attr', me, const('attribute_access_for_attrs'))
    vq = c.q('node.utils.AttributeAccess')

    def j(p):
        f = failed(p, 'getitem', NS)
        made = [e for e in p.events('mcall', me) if
                e.args[0] is const('attributes_factory')]
        sets = [e for e in p.events() if e.kind in ('setitem', 'mset')]
        if not made and [e for e in p.events('call')]:
            raise Unknown('container made otherwise')
        for e in sets:
            if e.f is not NS or e.args[0] is not K:
                return 'container is stored at %s[%s]' % (
                    show(e.f), show(e.args[0]))
        missing = None
        if p.holds(c.A.pred2('is', app('item', NS, K), NONE)) is True:
            # no container at all
            return
        if f is not None:
            if f[0].args[:1] != (K,):
                return 'container is looked up as %s' % show(f[0].args)
            missing = p.A.exc_isa(p.st, f[1], bi('KeyError')) is True
            if not missing:
                if p.ok or p.val is not f[1]:
                    return 'an error which is no missing key is hidden'
                return
        else:
            missing = p.holds(app('in', K, NS)) is False
        g = failed(p, 'setitem', NS)
        if g is not None:
            if p.ok or p.val is not g[1]:
                return 'error of storing the container is hidden'
            return
        if not p.ok:
            e = p.events('raise')
            if e and e[-1].args and e[-1].args[0] is p.val:
                return
            return 'fails with %s' % show(p.val)
        if missing:
            if len(made) != 1:
                return 'container is created %d times' % len(made)
            e = made[0]
            args = dict(zip(('name', 'parent'), e.args[1:]))
            args.update(dict(e.kw))
            if args.get('name') is not K or args.get('parent') is not me or \
                    len(args) != 2:
                return 'container is created with %s' % ', '.join(
                    '%s=%s' % (k, show(v)) for k, v in sorted(args.items()))
            if [x.args[1] for x in sets] != [e.res]:
                return 'container created is not kept'
            cont = e.res
        else:
            if made or sets:
                return 'container is created although there is one'
            cont = app('item', NS, K)
        acc = p.truth(ACC)
        if p.val is cont:
            if acc is not False:
                return 'returns the container itself although attribute '\
                    'style access may be configured' if acc is None else \
                    'attribute style access is not applied'
        elif p.val.tag == 'ref' and p.val.a[1] == vq:
            if acc is not True:
                return 'returns a view without configuration'
            inner = [v for (o, k), v in p.st.cells.items() if o is p.val]
            if inner != [cont]:
                return 'returns a view on %s' % show(tuple(inner))
        else:
            return 'returns %s' % show(p.val)
    for name in ('attrs', 'attributes'):
        m = c.member(q, name)
        if m.tag != 'prop':
            raise Missing('%s.%s' % (q, name))
        st = State()
        st.kinds[NS] = 'dict'
        c.each('C13.attrs', c.call(m.a[0], [me], st=st), j, 'attrs: the __attrs__ '
               'nodespace, created exactly if missing by the configured '
               'factory with reserved name and node as parent and kept; a '
               'view on it exactly if configured')


def container_class(c):
    q = c.q('node.behaviors.NodeAttributes')
    n, par = sym('name', 'str'), sym('parent', 'node')

    def j(p):
        if not p.ok:
            return 'creation fails with %s' % show(p.val)
        out = []
        if p.final(p.val, '__name__') is not n:
            out.append('name of the container is %s' % show(p.final(
                p.val, '__name__')))
        if p.final(p.val, '__parent__') is not par:
            out.append('parent of the container is %s' % show(p.final(
                p.val, '__parent__')))
        if set_on(p, par):
            out.append('creation changes the node')
        return out
    c.each('C13.created', c.call(mk('cls', q), [], {'name': n,
                                                    'parent': par}), j,
           'attributes container is created with name and parent given')
    view = c.A.class_view(q)
    s = sym('self', 'node', q)

    ALLOW = app('attr', s, const('allow_non_node_childs'))
    m = view.members.get('allow_non_node_childs')
    c.judge('C13.values', lambda: None if m is TRUE or m is None else
            'attribute containers refuse values which are not nodes',
            where=c.where_of(None)[:2] + (q,))

    def arb(p):
        if p.truth(ALLOW) is False:
            return
        if not p.ok:
            return 'an arbitrary value is refused with %s' % show(p.val)
        w = [e for e in p.events() if e.kind == 'mset' and e.args ==
             (KEY, VAL)]
        if len(w) != 1:
            return 'value is stored %d times' % len(w)
    c.each('C13.values', c.vcall(view, s, '__setitem__', [KEY, VAL]), arb,
           'attribute containers store arbitrary values under their key')


def by_class(c):
    """Attributes never show up among the children."""
    for n in ('node.base.Node', 'node.base.AttributedNode'):
        q = c.q(n)
        view = c.A.class_view(q)
        s = sym('self', 'node', q)
        ps = c.vcall(view, s, '__iter__', [])

        def j(p):
            if p.ok:
                segs = p.segs()
                for sg in segs or ():
                    if mentions(sg[1], app('attr', s, const('_nodespaces'))):
                        return 'iteration yields nodespaces'
                    if sg[0] == 'item':
                        return 'iteration yields %s' % show(sg[1])
        c.each('C13.children', ps, j, 'iteration of a node yields no '
               'nodespace')

        def has(p):
            if not p.ok:
                return 'attributes fail with %s' % show(p.val)
        m = view.members.get('attrs')
        if m is None or m.tag != 'prop':
            raise Missing(n + '.attrs')
        c.each('C13.ready', [p for p in c.call(m.a[0], [s])], has,
               'attributes of the ready-made classes are available')
