"""C33: declared interfaces are delivered, ready-made classes provide theirs."""
import ast

from ..lib import Missing, Unknown, is_app, mk

# members of the interfaces of zope used by the library:
# name -> (required, all parameters)
ITEM = {'__getitem__': (('key',), ())}
READ = dict(ITEM, get=(('key',), ('default',)), __contains__=(('key',), ()))
WRITE = {'__delitem__': (('key',), ()), '__setitem__': (('key', 'value'), ())}
ENUM = dict(READ, keys=((), ()), __iter__=((), ()), values=((), ()),
            items=((), ()), __len__=((), ()))
CLONE = {'copy': ((), ())}
XWRITE = dict(WRITE, clear=((), ()), update=(('other',), ()),
              setdefault=(('key',), ('default',)),
              pop=(('key',), ('default',)), popitem=((), ()))
FULL = dict(ENUM, **dict(CLONE, **XWRITE))
ZOPE = {
    'IItemMapping': ITEM,
    'IReadMapping': READ,
    'IWriteMapping': WRITE,
    'IEnumerableMapping': ENUM,
    'IMapping': dict(WRITE, **ENUM),
    'IIterableMapping': ENUM,
    'IClonableMapping': CLONE,
    'IExtendedReadMapping': ENUM,
    'IExtendedWriteMapping': XWRITE,
    'IFullMapping': FULL,
}
LOCATION = ('__name__', '__parent__')

READY = (
    ('node.base.AbstractNode', ('INode', 'IAdopt')),
    ('node.base.BaseNode', ('INode', 'IAdopt', 'INodeChildValidate',
                            'IAsAttrAccess', 'IDefaultInit', 'IStorage')),
    ('node.base.OrderedNode', ('INode', 'IAdopt', 'INodeChildValidate',
                               'IAsAttrAccess', 'IDefaultInit', 'IStorage',
                               'IOrdered')),
    ('node.base.Node', (
        'INode', 'IAdopt', 'INodeChildValidate', 'IAsAttrAccess',
        'IDefaultInit', 'IStorage', 'IOrdered', 'IOrder', 'IReference',
        'IUUID', 'IAttributes', 'INodespaces')),
    ('node.base.AttributedNode', (
        'INode', 'IAdopt', 'INodeChildValidate', 'IAsAttrAccess',
        'IDefaultInit', 'IStorage', 'IOrdered', 'IOrder', 'IReference',
        'IUUID', 'IAttributes', 'INodespaces')),
    ('node.behaviors.NodeAttributes', (
        'INode', 'IAdopt', 'INodeChildValidate', 'IStorage', 'IOrdered')),
)


def C33(c):
    A = c.A
    c.rule('C33.method', 'every method of a declared interface is a callable '
           'member accepting the arguments the interface names')
    c.rule('C33.attribute', 'every attribute of a declared interface is a '
           'member or assigned on instances')
    c.rule('C33.default', 'optional arguments have the default the interface '
           'names')
    c.rule('C33.ready', 'the ready-made classes provide the interfaces they '
           'are composed for, each member delivered')
    for q in sorted(c.prog.classes):
        if A.is_iface(q) or '.testing.' in q:
            continue
        plb, ifs = A.class_decos(q)
        if not ifs and not plb:
            continue
        c.part(declared, c, q, ifs)
    named(c)
    for dotted, names in READY:
        c.part(ready, c, dotted, names)
    c.part(hooks, c)


ALIASERS = ['node.behaviors.alias.' + n for n in (
    'DictAliaser', 'PrefixAliaser', 'SuffixAliaser', 'AliaserChain',
    'PrefixSuffixAliaser')]


def named(c):
    """A public class implementing an interface of its own says so.

    The interface `IName` names what the class `Name` is for; consumers ask
    `IName.providedBy(node)`. A class with `alias` and `unalias` is given to
    `Alias.aliaser`, the one with `invalidate` is called by caches.
    """
    A = c.A
    c.rule('C33.named', 'the class `Name` provides the interface `IName`, '
           'if there is one; aliasers provide IAliaser')
    own = {}
    for q in sorted(c.prog.classes):
        if A.is_iface(q) and q.startswith('node.interfaces.'):
            own[q.split('.')[-1]] = q
    known = set(own) | set(ZOPE)
    for q in sorted(c.prog.classes):
        if A.is_iface(q) or '.testing.' in q or '.tests.' in q:
            continue
        name = q.split('.')[-1]
        wants = {'I' + name} & known
        if not wants and q not in ALIASERS:
            continue
        c.part(provides_named, c, q, wants)


def provides_named(c, q, wants):
    view = view_of(c, q)
    have = {i.a[0].split('.')[-1] if i.a else '?' for i in view.provides}
    if not wants:
        wants = {'IAliaser'}
    c.functions.add(q)
    for w in sorted(wants):
        def run():
            if w in have:
                return None
            if '?' in have:
                raise Unknown('%s declares an unknown interface' % q)
            return '%s does not provide %s' % (q.split('.')[-1], w)
        c.judge('C33.named', run, None, c.where_cls(q))


def is_zope(i):
    return i.tag == 'bi' and i.a[0].split('.')[-1] in ZOPE


def view_of(c, q):
    return c.A.mixin_view(q) if c.A.is_behavior(q) else c.A.class_view(q)


def declared(c, q, ifs):
    A = c.A
    view = view_of(c, q)
    todo = set()
    if A.is_behavior(q):
        for i in ifs:
            todo |= A.iface_closure(i)
    else:
        todo |= view.provides
    c.functions.add(q)
    for i in sorted(todo, key=repr):
        members(c, q, view, i)


def members(c, q, view, i):
    """Judge all members of one interface on one class."""
    A = c.A
    where = c.where_cls(q)
    name = i.a[0].split('.')[-1] if i.a else '?'
    if name == 'ILocation':
        for x in LOCATION:
            judge_attr(c, q, view, name, x, where)
        return
    if is_zope(i):
        for m, (req, opt) in sorted(ZOPE[name].items()):
            sig = Sig([(x, False, None) for x in req] +
                      [(x, True, None) for x in opt], False, False)
            judge_method(c, q, view, name, m, sig, where)
        return
    if i.tag != 'cls' or i.a[0] not in c.prog.classes:
        return
    ci = c.prog.classes[i.a[0]]
    for n, kind, node in ci.entries:
        if kind == 'def':
            judge_method(c, q, view, name, n, sig_of(node, 0), where)
        elif kind == 'assign' and isinstance(node, ast.Call) and isinstance(
                node.func, (ast.Name, ast.Attribute)):
            f = node.func
            if (f.id if isinstance(f, ast.Name) else f.attr) == 'Attribute':
                judge_attr(c, q, view, name, n, where)


def promised(c):
    """Signatures of methods by name, from all interfaces."""
    out = {}
    for m, (req, opt) in FULL.items():
        out[m] = ('IFullMapping', Sig(
            [(x, False, None) for x in req] +
            [(x, True, None) for x in opt], False, False))
    for q in sorted(c.prog.classes):
        if not c.A.is_iface(q):
            continue
        for n, kind, node in c.prog.classes[q].entries:
            if kind == 'def' and n not in ('__init__', '__call__') and \
                    n not in out:
                out[n] = (q.split('.')[-1], sig_of(node, 0))
    return out


def hooks(c):
    """A hook of a behavior does not narrow the method it is put around."""
    known = promised(c)
    for q in sorted(c.prog.classes):
        if not c.A.is_behavior(q):
            continue
        for n, kind, payload, owner in c.A.instructions(q):
            if kind not in ('plumb', 'plumbifexists') or n not in known or \
                    payload.tag != 'fn':
                continue
            iname, want = known[n]

            def run():
                got = sig_of(c.A.fns[payload.a[0]].node, 2)
                return compare(iname, q, n, want, got)
            c.judge('C33.hook', run, None, c.where_of(payload),
                    'a hook around a method of an interface accepts the '
                    'arguments the interface names')


class Sig(object):
    def __init__(self, params, varargs, varkw, kwonly=()):
        self.params = params            # (name, optional, default node)
        self.varargs = varargs
        self.varkw = varkw
        self.kwonly = list(kwonly)      # (name, optional, default node)

    @property
    def required(self):
        return len([p for p in self.params if not p[1]])


def sig_of(node, skip):
    a = node.args
    ps = a.posonlyargs + a.args
    n = len(ps) - len(a.defaults)
    params = [(p.arg, k >= n, a.defaults[k - n] if k >= n else None)
              for k, p in enumerate(ps)]
    kwonly = [(p.arg, d is not None, d)
              for p, d in zip(a.kwonlyargs, a.kw_defaults)]
    if skip and not params and a.vararg:
        skip = 0
    return Sig(params[skip:], a.vararg is not None, a.kwarg is not None,
               kwonly)


def judge_method(c, q, view, iname, n, want, where):
    def run():
        m = view.members.get(n)
        if m is None:
            if view.ext - {'object'}:
                return None         # inherited from a class of elsewhere
            if n in ('__eq__', '__init__', '__setattr__', '__delattr__'):
                return None         # object has it
            return '%s promises %s, which %s does not have' % (iname, n, q)
        if m.tag == 'prop':
            raise Unknown('%s.%s is a property' % (q, n))
        skip = 1
        if m.tag == 'pipe':
            fs, end = view.pipes[m.a[1]]
            if fs:
                m, skip = fs[0], 2
            else:
                m = end
        if is_app(m, 'classm'):
            m, skip = m.a[1], 1
        elif is_app(m, 'static'):
            m, skip = m.a[1], 0
        if m.tag == 'prop':
            raise Unknown('%s.%s is a property' % (q, n))
        if m.tag == 'const':
            if n in ('__hash__',):
                return None
            return '%s promises the method %s, which is %s' % (
                iname, n, m.a[1] if len(m.a) > 1 else m.a[0])
        if m.tag == 'fn':
            got = sig_of(c.A.fns[m.a[0]].node, skip)
            c.functions.add(c.A.fns[m.a[0]].qual)
            return compare(iname, q, n, want, got)
        raise Unknown('%s.%s is no plain function' % (q, n))
    c.judge('C33.method', run, None, where)


def compare(iname, q, n, want, got):
    what = '%s.%s' % (q.split('.')[-1], n)
    if any(not o for x, o, d in got.kwonly if (
            x not in [y for y, p, e in want.params])) and not want.varkw:
        return '%s needs the argument %s, which %s does not know' % (
            what, [x for x, o, d in got.kwonly if not o][0], iname)
    if got.required > want.required:
        return '%s needs %d arguments, %s promises %d to do' % (
            what, got.required, iname, want.required)
    if len(got.params) < want.required and not got.varargs:
        return '%s takes %d arguments, %s promises %d' % (
            what, len(got.params), iname, len(want.params))
    if want.varargs and not got.varargs:
        return '%s takes no further arguments as %s promises' % (what, iname)
    if want.varkw and not got.varkw:
        return '%s takes no keyword arguments as %s promises' % (what, iname)
    names = [p[0] for p in got.params] + [p[0] for p in got.kwonly]
    for k, (x, opt, d) in enumerate(want.params):
        if not opt:
            continue
        if k >= len(got.params) and not got.varargs:
            return '%s cannot be called with %d arguments as %s promises' % (
                what, k + 1, iname)
        if x not in names and not got.varkw:
            return '%s does not know the argument %s of %s' % (
                what, x, iname)
        if k < len(got.params) and x in [p[0] for p in got.params] and \
                got.params[k][0] != x:
            return '%s takes %s where %s has %s' % (
                what, got.params[k][0], iname, x)
        if d is None:
            continue
        for y, o, e in got.params + got.kwonly:
            if y != x or not o:
                continue
            if isinstance(d, ast.Constant) and isinstance(e, ast.Constant) \
                    and (type(d.value), d.value) != (type(e.value), e.value):
                return '%s: %s is %r by default, %s promises %r' % (
                    what, x, e.value, iname, d.value)
    return None


def judge_attr(c, q, view, iname, n, where):
    def run():
        if n in view.members:
            m = view.members[n]
            if m.tag == 'fn' and 'factory' not in n and \
                    len(sig_of(c.A.fns[m.a[0]].node, 0).params) == 1:
                return '%s promises the attribute %s, which is a method ' \
                    'of %s' % (iname, n, q.split('.')[-1])
            return None
        if view.ext - {'object'}:
            return None
        if n in assigned(c, q, view):
            return None
        if indirect(c, q, view):
            raise Unknown('%s assigns attributes by computed names' % q)
        return '%s promises the attribute %s, which %s does not have' % (
            iname, n, q)
    c.judge('C33.attribute', run, None, where)


def related(c, q, view):
    """Class and everything its members may come from."""
    out, todo = [], [q] + list(view.behaviors)
    while todo:
        x = todo.pop()
        if x in out or x not in c.prog.classes:
            continue
        out.append(x)
        todo += [b.a[0] for b in c.A.class_bases(x) if b.tag == 'cls']
    return out


def assigned(c, q, view):
    out = set()
    for x in related(c, q, view):
        for n in ast.walk(c.prog.classes[x].node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id == 'setattr' and len(n.args) > 1 and \
                    isinstance(n.args[1], ast.Constant):
                out.add(n.args[1].value)
            elif isinstance(n, ast.Call) and \
                    isinstance(n.func, ast.Attribute) and \
                    n.func.attr == '__setattr__':
                for y in n.args:
                    if isinstance(y, ast.Constant):
                        out.add(y.value)
    return out


def indirect(c, q, view):
    for x in related(c, q, view):
        for n in ast.walk(c.prog.classes[x].node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) \
                    and n.func.id in ('setattr', 'vars'):
                return True
            if isinstance(n, ast.Attribute) and n.attr == '__dict__':
                return True
    return False


def ready(c, dotted, names):
    A = c.A
    q = c.q(dotted)
    view = A.class_view(q)
    where = c.where_cls(q)
    have = dict((i.a[0].split('.')[-1], i) for i in view.provides if i.a)
    for n in names:
        def run():
            if n not in have:
                return '%s does not provide %s' % (q.split('.')[-1], n)
        c.judge('C33.ready', run, None, where)
    for n in ('INode', 'IStorage'):
        c.judge('C33.complete', lambda: open_end(c, q, view, n, names), None,
                where, 'every pipeline of a ready-made class ends at an '
                'implementation')


def open_end(c, q, view, n, names):
    if 'IStorage' not in names or n not in names:
        return None
    for m, (fs, end) in sorted(view.pipes.items()):
        if end is None and m in FULL and not view.ext - {'object'}:
            return '%s of %s has no implementation below its plumbing' % (
                m, q.split('.')[-1])
    return None
