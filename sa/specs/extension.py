"""C40: what a class defines itself wins over the defaults of behaviors,
C41: truth and representation of nodes."""
from ..lib import (NONE, TRUE, Unknown, app, const, is_app, is_const, mentions, mk,
                   show, subterms, sym)

B = 'node.behaviors.'

# behavior: names classes are meant to supply
POINTS = {
    'Alias': ('aliaser',),
    'AsAttrAccess': ('as_attribute_access',),
    'Attributes': ('attribute_access_for_attrs', 'attributes_factory'),
    'Cache': ('cache',),
    'ChildFactory': ('factories',),
    'DictStorage': ('storage',),
    'Fallback': ('fallback_key',),
    'FixedChildren': ('fixed_children_factories',),
    'Invalidate': ('invalidate',),
    'Lifecycle': ('events',),
    'NodeChildValidate': ('allow_non_node_childs',),
    'Nodify': ('__name__', '__parent__', '__bool__', 'has_key', 'clear',
               'update', 'setdefault', 'pop', 'popitem', 'get',
               '__contains__', 'keys', 'values', 'items', '__len__',
               'iterkeys', 'itervalues', 'iteritems', 'deepcopy',
               '__getitem__', '__setitem__', '__delitem__', '__iter__'),
    'OdictStorage': ('storage',),
    'Storage': ('storage',),
    'UUIDAware': ('overwrite_recursiv_on_copy', 'uuid_factory',
                  'set_uuid_for'),
    'VolatileStorageInvalidate': ('invalidate',),
}


def C40(c):
    for n in sorted(POINTS):
        c.part(points, c, c.q(B + n), n, POINTS[n])
    c.part(uuid_factory, c)


def uuid_factory(c):
    view, s = c.protocol(c.q(B + 'UUIDAware'), ('uuid_factory',))
    n = sym('node', 'node')

    def j(p):
        out = []
        for e, d, l in p.flat():
            if e.kind == 'setattr' and e.args[0] is const('uuid'):
                v = e.args[1]
                if not any(x is const('uuid_factory') for x in subterms(v)):
                    out.append('uuid is %s, whatever the factory of the '
                               'class' % show(v))
        return out
    c.each('C40.uuid_factory', c.vcall(view, s, '__init__', []), j,
           'uuids are made by the factory of the class')
    c.each('C40.uuid_factory', c.vcall(view, s, 'set_uuid_for', [
        n, TRUE, TRUE]), j)


def points(c, q, short, names):
    ins = {}
    for name, kind, payload, owner in c.A.instructions(q):
        if kind not in ('plumb', 'plumbifexists'):
            ins.setdefault(name, set()).add(kind)
    for name in names:
        own = sym('own', 'any')
        c.functions.add('%s.%s' % (q, name))

        def j():
            out = []
            if 'finalize' in ins.get(name, ()):
                out.append('a class defining %s itself cannot use %s' % (
                    name, short))
                return out
            if name not in ins:
                return out
            for what, kw in (('a class', dict(own={name: own})),
                             ('its base class', dict(
                                 inherited={name: own}))):
                v = c.A.compose('spec:ext:%s:%s' % (short, name), [q], **kw)
                got = v.members.get(name)
                if got is not None and got.tag == 'pipe':
                    got = v.pipes[name][1]
                if got is not own:
                    out.append('%s of %s is replaced by that of %s' % (
                        name, what, short))
            return out
        c.judge('C40.%s' % short, j, where=c.where_cls(q),
                text='%s: %s are defaults, so that what a class using the '
                'behavior or its base class defines is what counts' % (
                    short, ', '.join(names)))


# -- C41 ---------------------------------------------------------------------------

NODES = ('node.behaviors.Nodify', 'node.base.AbstractNode',
         'node.base.BaseNode', 'node.base.OrderedNode', 'node.base.Node',
         'node.base.AttributedNode', 'node.behaviors.NodeAttributes')


def C41(c):
    for n in NODES:
        mod, _, name = n.rpartition('.')
        v = c.A.glob_value(mod, name)
        if v is None or v.tag != 'cls':
            continue
        c.part(truth, c, v.a[0])
        c.part(represent, c, v.a[0])


def truth(c, q):
    view, s = c.protocol(q, ('__getitem__', '__setitem__', '__delitem__',
                             '__iter__', '__len__'))
    if '__bool__' not in view.members:
        c.judge('C41.truth', lambda: 'nodes without children are false',
                where=c.where_cls(q))
        return

    def j(p):
        if not p.ok:
            return 'testing a node fails with %s' % show(p.val)
        if p.val is not TRUE:
            return 'the truth of a node is %s' % show(p.val)
        if [e for e in p.events()]:
            return 'testing a node reads its children'
    c.each('C41.truth', c.vcall(view, s, '__bool__', []), j, 'nodes are true, '
           'whatever children they have, without looking at them')


def represent(c, q):
    view, s = c.protocol(q, ('__getitem__', '__setitem__', '__delitem__',
                             '__iter__', '__len__'))
    own = app('attr', s, const('__name__'))
    up = app('attr', s, const('__parent__'))
    # attributes belong to a node, and are represented by its name
    names = [own]
    if q == c.q(NODES[-1]):
        names += [app('attr', up, const(x)) for x in ('name', '__name__')]

    def pieces(v):
        return list(v.a[1:]) if is_app(v, 'cat') else [v]

    def common(p, what):
        if not p.ok:
            return '%s fails with %s' % (what, show(p.val))
        if [e for e in p.events() if e.kind in (
                'setattr', 'delattr', 'setitem', 'delitem', 'mset', 'mdel')]:
            return '%s changes the node' % what
        if any(n in c.A.__dict__.get('percented', ()) for n in names):
            return '%s fails for names which are tuples' % what
        if any(n in pieces(p.val) for n in names):
            return '%s fails for names which are no text' % what
        if not any(mentions(p.val, n) for n in names):
            return '%s does not show the name' % what
        if not mentions(p.val, own) and p.holds(
                p.A.pred2('is', up, NONE)) is not False:
            return '%s fails for nodes without parent' % what

    def jr(p):
        r = common(p, 'representation')
        if r:
            return r
        ps = pieces(p.val)
        if len(names) > 1 and app('str', own) in ps and (
                p.truth(up) is True or
                p.holds(p.A.pred2('is', up, NONE)) is False):
            return 'attributes are represented by their own name although ' \
                'they belong to a node'
        cl = [x for x in ps if any(is_app(y, 'type') for y in subterms(x))]
        if not cl:
            return 'representation does not show the class'
        if not any(app('str', n) in ps for n in names):
            if any(is_app(x, 'repr') and x.a[1] in names for x in ps):
                return
            raise Unknown('representation is %s' % show(p.val))

    def jn(p):
        r = common(p, 'noderepr')
        if r:
            return r
        ps = pieces(p.val)
        if not any(is_app(y, 'type') for x in ps for y in subterms(x)):
            return 'noderepr does not show the class'
        if app('str', own) in ps:
            return 'noderepr shows a name with its prefix'
        if any(is_app(x, 'elemat') and is_app(x.a[1], 'strm') and
               x.a[2] is const(1) for x in ps):
            return 'noderepr fails for names without colon'
    for n in ('__repr__', '__str__'):
        c.each('C41.repr', c.vcall(view, s, n, []), jr, 'representation of '
               'every node shows class and name, whatever the name is')
    c.each('C41.noderepr', c.vcall(view, s, 'noderepr', []), jn, 'noderepr '
           'shows class and name, whatever the name is')
