"""C28, C29: serialization of values and trees."""
import ast

from ..interp import Ctx
from ..lib import (NONE, Loop, State, Unknown, app, bi, const, cval, flat,
                   is_app, is_const, mentions, mk, show, subterms, sym, tup)

CTX = Ctx('node')
INODE = mk('cls', 'node.interfaces.INode')
UUID = bi('uuid.UUID')
X = sym('x', 'any')
NODE = sym('n', 'any')
TARGET = sym('parent', 'node')


def values(c):
    """Kinds of values: [(label, value, facts, reads back as)]"""
    unset = c.glob('node.utils.UNSET')
    out = []

    def add(label, x, want, **yes):
        f = {c.A.pred2('is', unset, x): False, app('isinstance', x, UUID): False,
             app('providedBy', INODE, x): False, app('isclass', x): False,
             app('isfunction', x): False, app('ismethod', x): False}
        if x in (unset, NONE):
            f = {}
        for k in list(f):
            if k.a[0] in yes:
                f[k] = True
        out.append((label, x, f, want))
    add('unset', unset, None)
    add('uuid', X, None, isinstance=1)
    add('class', X, None, isclass=1)
    add('function', X, None, isfunction=1)
    add('method', X, None, ismethod=1)
    for k in ('str', 'int', 'list', 'dict'):
        add(k, sym('x', k), None)
    add('none', NONE, None)
    add('other', X, None)
    return out


PLAIN = ('str', 'int', 'list', 'dict', 'none', 'other')


def content(p, d):
    """Final content of a dict made on the path: {key: value}"""
    out = {}
    if d.tag == 'seq' and d.a[0] == 'dict':
        log = d.a[1]
    else:
        log = p.map_log(d)
    if log is None:
        raise Unknown('content of %s' % show(d))
    for e in log:
        if e[0] == 'set':
            out[e[1]] = e[2]
        elif e[0] == 'del':
            out.pop(e[1], None)
        else:
            raise Unknown('content of %s: %s' % (show(d), show(e)))
    return out


def is_dict(p, v):
    return v in p.st.maps or v.tag == 'seq' and v.a[0] == 'dict'


def qualified(x):
    return app('cat', app('attr', x, const('__module__')), const('.'),
               app('attr', x, const('__qualname__')))


def C28(c):
    c.q('node.serializer.NodeEncoder')
    c.q('node.serializer.NodeDecoder')
    f = c.glob('node.serializer.deserialize')
    del f
    c.part(marks, c)
    c.part(names, c)
    c.part(nesting, c)
    c.part(modes, c)


def encoder(c, simple=None, include=None):
    """[(encoder, state)] as made for the mode."""
    q = c.q('node.serializer.NodeEncoder')
    kw = {}
    if simple is not None:
        kw['simple_mode'] = const(simple)
    if include is not None:
        kw['include_class'] = const(include)
    return [(p.val, p.st) for p in c.call(mk('cls', q), [], kw) if p.ok]


def decoder(c, st=None):
    q = c.q('node.serializer.NodeDecoder')
    return [(p.val, p.st) for p in c.call(mk('cls', q), [], st=st) if p.ok]


def written(c, x, facts, simple=None, include=None):
    """Paths of writing a value."""
    q = c.q('node.serializer.NodeEncoder')
    c.A.unroll = 2
    try:
        return written_(c, q, x, facts, simple, include)
    finally:
        c.A.unroll = 1


def written_(c, q, x, facts, simple, include):
    out = []
    for e, st in encoder(c, simple, include):
        st = st.copy()
        st.facts.update(facts)
        for p in c.call(c.member(q, 'default'), [e, x], st=st):
            out.append((e, p))
    return out


def read(c, p, v, parent=None):
    """Paths of reading what was written on path p."""
    q = c.q('node.serializer.NodeDecoder')
    out = []
    for d, st in decoder(c, p.st.copy()):
        args = [d, v] if parent is None else [d, v, parent]
        for r in c.call(c.member(q, 'decode'), args, st=st):
            out.append((d, r))
    return out


def resolved(v):
    """Name whose object v is, or None."""
    if v.tag != 'app':
        return None
    if v.a[0] == 'fold':
        src, init, step = v.a[1:4]
        hole = [t for t in subterms(step) if t.tag == 'hole']
        popped = None
        if is_app(src, 'keys'):
            popped = src.a[2] if len(src.a) > 2 else None
            src = src.a[1]
        if not (is_app(step, 'attr') and len(set(hole)) == 1 and
                step.a[1] is hole[0]):
            return None
        el = step.a[2]
        if not is_app(el, 'elem'):
            return None
        s = init
        if popped is not None:
            # the first component was taken off the list
            if is_app(s, 'ret') and s.a[1] in IMPORTS and \
                    list(s.a[2].a) == [app('lpop', src, popped, const(0))]:
                return split_of(src)
            return None
        if not is_app(src, 'slice') or src.a[2] is not const(1) or \
                src.a[3] is not NONE:
            return None
        parts = src.a[1]
        if is_app(s, 'ret') and s.a[1] in (bi('__import__'), bi(
                'importlib.import_module')) and len(s.a[2].a) == 1:
            s = s.a[2].a[0]
        else:
            return None
        if (is_app(s, 'elemat') or is_app(s, 'item')) and s.a[1] is parts \
                and s.a[2] is const(0):
            return split_of(parts)
    return None


def split_of(v):
    if is_app(v, 'strm') and v.a[1] in ('split', const('split')) and \
            v.a[3] is const('.'):
        return v.a[2]
    if is_app(v, 'mret') and v.a[2] is const('split') and \
            tuple(v.a[3].a) == (const('.'),):
        return v.a[1]
    return None


def marks(c):
    for label, x, facts, want in values(c):
        ps = written(c, x, facts)
        for e, p in ps:
            def j(p=p, x=x):
                if not p.ok:
                    return 'writing a %s fails with %s' % (label, show(p.val))
                if label in PLAIN:
                    if p.val is not x:
                        return 'a plain value (%s) is written as %s' % (
                            label, show(p.val))
                    return
                return back(c, p, x, label)
            c.judge('C28.marks', j, p, text='values of every kind are '
                    'written so that what reading does with the written '
                    'form gives the value again; plain values unchanged')


def back(c, p, x, label):
    out = []
    if p.val is x:
        return '%s values are not written in a form of their own' % label
    if is_dict(p, p.val):
        for k, v in content(p, p.val).items():
            if is_dict(p, v):
                raise Unknown('written as %s' % show(v))
    for d, r in read(c, p, p.val) + read(c, p, p.val, TARGET):
        if not r.ok:
            if resolving(r):
                continue
            out.append('reading a written %s fails with %s' % (
                label, show(r.val)))
            continue
        v = r.val
        if label == 'unset':
            good = v is x
        elif label == 'uuid':
            good = is_app(v, 'ret') and v.a[1] is UUID and \
                list(v.a[2].a) in ([app('str', x)], [app(
                    'attr', x, const('hex'))]) and not v.a[3].a
        else:
            name = resolved(v)
            if name is None:
                if v is p.val or is_const(v) or v in r.st.maps or \
                        is_app(v, 'cat'):
                    out.append('a written %s is read as %s' % (
                        label, show(v)))
                    continue
                raise Unknown('a %s is read as %s' % (label, show(v)))
            if label == 'method':
                good = any(name is n for n in method_names(x, r))
            else:
                good = name is qualified(x)
            if not good:
                out.append('a %s is referenced by %s' % (label, show(name)))
            continue
        if not good:
            out.append('a written %s is read as %s' % (label, show(v)))
    return out


def method_names(x, p):
    """Names under which a bound method is found."""
    me = app('attr', x, const('__self__'))
    nm = app('attr', x, const('__name__'))
    ks = [app('attr', me, const('__class__')), app('type', me)]
    own = p.holds(app('isclass', me))
    if own is not False:
        # a method of a class
        ks = [me] if own else []
    for k in ks:
        yield app('cat', app('attr', k, const('__module__')), const('.'),
                  app('attr', k, const('__qualname__')), const('.'), nm)
    if own is None:
        yield qualified(x)
        yield qualified(app('attr', x, const('__func__')))


def resolving(r):
    """Does the path fail because a named object does not exist?"""
    v = r.val
    return v.tag == 'exc' and (
        is_app(v.a[2], 'noattr') or
        is_app(v.a[2], 'raised') and v.a[2].a[1] in (
            bi('__import__'), bi('importlib.import_module')) or
        is_app(v.a[2], 'raised') and is_app(v.a[2].a[1], 'getitem'))


IMPORTS = (bi('__import__'), bi('importlib.import_module'))


def names(c):
    """Names of modules which are not imported yet."""
    q = c.q('node.serializer.NodeDecoder')
    parts = 'pkg.mod.Outer.Inner'.split('.')
    text = const('.'.join(parts))

    def j(p):
        if not p.ok:
            return 'resolving a name fails with %s' % show(p.val)
        v, got = p.val, []
        while is_app(v, 'attr') and is_const(v.a[2], 'str'):
            got.insert(0, cval(v.a[2]))
            v = v.a[1]
        if not (is_app(v, 'ret') and v.a[1] in IMPORTS and v.a[2].a and
                is_const(v.a[2].a[0], 'str')):
            raise Unknown('a name is resolved as %s' % show(p.val))
        root = cval(v.a[2].a[0])
        if v.a[1] is IMPORTS[0] and len(v.a[2].a) < 4:
            root = root.split('.')[0]
        if root.split('.') + got != parts:
            return '%s is resolved as %s' % (cval(text), '.'.join(
                root.split('.') + got))

    def missing(p):
        if p.ok:
            return j(p)
        v = p.val
        if v.tag == 'exc' and is_app(v.a[2], 'noattr') and \
                v.a[2].a[2] is const(parts[1]):
            return 'modules which are not imported yet are not found'
        if resolving(p):
            return
        return 'resolving a name fails with %s' % show(v)
    v = c.A.class_view(q)
    if 'resolve' not in v.members:
        raise Unknown('names are resolved elsewhere')
    rule = 'dotted names are followed component by component, modules on ' \
        'the way imported'
    for d, st in decoder(c):
        c.each('C28.names', c.call(v.members['resolve'], [d, text],
                                   st=st.copy()), j, rule)
        # nothing below the package is imported
        st = st.copy()
        for f in IMPORTS:
            root = app('ret', f, tup(const(parts[0])), tup(), const(0))
            st.facts[app('hasattr', root, const(parts[1]))] = False
        c.each('C28.names', c.call(v.members['resolve'], [d, text], st=st),
               missing, rule)


def nesting(c):
    q = c.q('node.serializer.NodeDecoder')
    dec = c.member(q, 'decode')
    for d, st in decoder(c):
        # lists
        data = sym('data', 'list')

        def lists(p):
            if not p.ok:
                return None if child_error(p) else \
                    'reading a list fails with %s' % show(p.val)
            segs = p.segs()
            if segs is None:
                raise Unknown('a list is read as %s' % show(p.val))
            if p.val is data:
                return 'elements of lists are not read'
            if len(segs) == 0 and p.holds(app('nonempty', app(
                    'keys', data))) is False:
                return
            if len(segs) != 1 or segs[0][0] not in ('many', 'loop'):
                raise Unknown('a list is read as %s' % show(segs))
            return many(segs[0], data, lambda it: it)
        c.each('C28.nesting', c.call(dec, [d, data], st=st.copy()), lists,
               'lists and dicts are read element by element, in order, '
               'keys unchanged, without losing any')
        # dicts without mark
        data2 = sym('data', 'dict')
        st2 = st.copy()
        for m in markkeys(c):
            st2.facts[app('in', m, data2)] = False

        def dicts(p):
            if not p.ok:
                return None if child_error(p) else \
                    'reading a dict fails with %s' % show(p.val)
            if p.val is data2:
                return 'values of dicts are not read'
            log = p.map_log(p.val)
            if log is None:
                raise Unknown('a dict is read as %s' % show(p.val))
            if not log and p.holds(app('nonempty', app(
                    'keys', data2))) is False:
                return
            if len(log) != 1 or log[0][0] not in ('many', 'loop'):
                raise Unknown('a dict is read as %s' % show(log))
            return many(log[0], data2, None)
        ps = c.call(dec, [d, data2], st=st2)
        c.each('C28.nesting', ps, dicts)
        # anything else
        for x, facts in ((NONE, {}), (sym('x', 'int'), {}), (X, {
                app('isinstance', X, bi('str')): False,
                app('isinstance', X, bi('list')): False,
                app('isinstance', X, bi('dict')): False})):
            st3 = st.copy()
            st3.facts.update(facts)

            def same(p, x=x):
                if not p.ok:
                    return 'reading %s fails with %s' % (show(x), show(p.val))
                if p.val is not x:
                    return '%s is read as %s' % (show(x), show(p.val))
            c.each('C28.plain', c.call(dec, [d, x], st=st3), same,
                   'values without mark are read unchanged')
        # texts
        s = sym('text', 'str')
        known = set()

        def texts(p):
            if p.ok and p.val is s:
                return
            if not p.ok and not raised_by(p, 'uuid.UUID'):
                return 'reading a text fails with %s' % show(p.val)
            m = [f for f, t in p.st.facts.items() if t and (
                f.a[0] in ('eq', 'startswith', 'is')) and mentions(f, s)]
            if not m:
                return 'a text is read as %s' % show(p.val)
            known.add(' '.join(sorted(set(
                cval(x) for f in m for x in f.a[1:] if is_const(x, 'str')))))
        ps = c.call(dec, [d, s], st=st.copy())
        c.each('C28.plain', ps, texts)
        for what in sorted(known):
            what = what.replace(':', '')
            c.violate('C28.literal ' + what, 'a text which looks like a '
                      'mark is read as the marked value',
                      c.current[:2] + ('node.serializer.NodeDecoder.decode',))


def markkeys(c):
    """Keys marking dicts."""
    out = set([const('__node__'), const('__ob__')])
    for label, x, facts, want in values(c):
        if label in PLAIN:
            continue
        for e, p in written(c, x, facts):
            if p.ok and is_dict(p, p.val):
                out |= set(content(p, p.val))
    return out


def child_error(p):
    v = p.val
    return v.tag == 'exc' and is_app(v.a[2], 'raised') and \
        is_app(v.a[2].a[1], 'rec')


def many(seg, src, f):
    """Is the segment one decoded value per element of the source?"""
    s, el, alts = seg[1], seg[2], seg[3]
    if s is not app('keys', src) and s is not src:
        raise Unknown('elements are taken from %s' % show(s))
    if not is_app(el, 'elem'):
        raise Unknown('elements are taken in another order')
    for g, items in alts:
        if len(items) != 1:
            return 'an element is read %d times%s' % (
                len(items), ' if %s' % show(g) if g else '')
        it = items[0]
        if f is None:
            if it[0] != 'set':
                raise Unknown('items are %s' % show(it))
            if it[1] is not el:
                return 'the key %s is used' % show(it[1])
            val, arg = it[2], app('item', src, el)
        else:
            val, arg = it[1], el
        if val is arg:
            return 'nested values are not read'
        if not (is_app(val, 'ret') and is_app(val.a[1], 'rec')):
            raise Unknown('nested values are read as %s' % show(val))
        if arg not in val.a[2].a and not any(arg is y for x in val.a[3].a
                                             for y in x.a):
            return 'nested values are read from %s' % show(val.a[2])
    return None


def modes(c):
    """Simple mode."""
    f = c.glob('node.serializer.serialize')
    q = c.q('node.serializer.NodeEncoder')
    runs = [({}, False, None)]
    for inc in (True, False):
        runs.append(({'simple_mode': const(True),
                      'include_class': const(inc)}, True, inc))
    runs.append(({'simple_mode': const(True)}, True, False))
    runs.append(({'simple_mode': const(False)}, False, None))
    opt = sym('indent', 'any')
    for kw, simple, inc in runs:
        def j(p):
            if not p.ok:
                return None if raised_by(p, 'json.dumps') else \
                    'fails with %s' % show(p.val)
            calls = p.calls(bi('json.dumps'))
            if len(calls) == 1 and p.val is calls[0].res:
                if list(calls[0].args) != [X]:
                    return 'something else is serialized: %s' % show(
                        tuple(calls[0].args))
                k = dict(calls[0].kw)
                if 'cls' not in k:
                    if 'default' in k:
                        raise Unknown('written by a default function')
                    return 'the encoder is not used'
                # whatever json does not know itself is for the encoder
                extra = dict((n, v) for n, v in k.items() if n not in (
                    'skipkeys', 'ensure_ascii', 'check_circular',
                    'allow_nan', 'cls', 'indent', 'separators', 'default',
                    'sort_keys'))
                made = c.call(k['cls'], [], dict(extra, indent=opt),
                              st=p.st.copy())
            else:
                raise Unknown('written otherwise')
            out = []
            for m in made:
                if not m.ok:
                    if m.val.tag == 'exc' and is_app(m.val.a[2], 'raised'):
                        continue
                    out.append('making the encoder fails with %s' % show(
                        m.val))
                    continue
                got = attr(c, m, m.val, 'simple_mode')
                if got is not const(simple):
                    out.append('simple mode is %s if asked for %s' % (
                        show(got), simple))
                if simple:
                    got = attr(c, m, m.val, 'include_class')
                    if got is not const(inc):
                        out.append('include class is %s if asked for %s' % (
                            show(got), inc))
                sup = [e for e in m.trace[len(p.trace):]
                       if not isinstance(e, Loop) and e.kind == 'call' and
                       is_app(e.f, 'superattr')]
                if not [e for e in sup if dict(e.kw).get('indent') is opt]:
                    out.append('options of the encoder are not passed on')
                for e in sup:
                    for n in ('simple_mode', 'include_class'):
                        if n in dict(e.kw):
                            out.append('%s is passed to the standard encoder,'
                                       ' which does not know it' % n)
            return out
        c.each('C28.modes', c.call(f, [X], kw), j, 'serialize writes by the '
               'encoder of the library in the mode asked for')
    for label, x, facts, want in values(c):
        if label not in ('class', 'function', 'method'):
            continue

        def k(p):
            if not p.ok:
                return 'fails with %s' % show(p.val)
            good = [qualified(x)] if label != 'method' else list(
                method_names(x, p))
            if p.val not in good:
                if is_dict(p, p.val):
                    return 'simple mode writes a mark'
                return 'simple mode writes %s' % show(p.val)
        c.each('C28.modes', [p for e, p in written(c, x, facts, True)], k,
               'serialize writes by the encoder of the library in the mode '
               'asked for')
    del q


def raised_by(p, name):
    v = p.val
    return v.tag == 'exc' and is_app(v.a[2], 'raised') and \
        v.a[2].a[1] is bi(name)


def attr(c, p, o, name):
    rs = [r for r in c.A.load(p.st.copy(), o, name, None, CTX) if r.ok]
    if len(rs) != 1:
        raise Unknown('%s is unknown' % name)
    return rs[0].val


# ---------------------------------------------------------------------------

def C29(c):
    c.part(node_written, c)
    c.part(node_read, c)
    c.part(registration, c)
    c.part(pairs, c)
    c.part(entry, c)


def node_facts(c):
    unset = c.glob('node.utils.UNSET')
    return {app('providedBy', INODE, NODE): True,
            c.A.pred2('is', unset, NODE): False,
            app('isinstance', NODE, UUID): False,
            app('isclass', NODE): False, app('isfunction', NODE): False,
            app('ismethod', NODE): False}


def class_names():
    k = app('attr', NODE, const('__class__'))
    for t in (k, app('type', NODE)):
        yield qualified(t)


def unwrap(p, simple):
    """Data of a written node."""
    v = p.val
    if not is_dict(p, v):
        if v is NODE or is_const(v):
            return None
        raise Unknown('a node is written as %s' % show(v))
    if simple:
        return v
    d = content(p, v)
    if list(d) != [const('__node__')]:
        return None
    return d[const('__node__')]


def node_written(c):
    for simple, inc in ((None, None), (False, False), (True, True),
                        (True, False)):
        ps = written(c, NODE, node_facts(c), simple, inc)

        def j(p, e):
            if not p.ok:
                return None if callback_error(p) else \
                    'writing a node fails with %s' % show(p.val)
            data = unwrap(p, simple)
            if data is None:
                return 'a node is written as %s' % show(p.val)
            out = []
            d = content(p, data)
            if not simple or inc:
                if d.get(const('class')) not in list(class_names()):
                    out.append('the class of a node is written as %s' % show(
                        d.get(const('class'), const('nothing'))))
            elif const('class') in d:
                out.append('the class is written without being asked for')
            nm = d.get(const('name'))
            if nm is not app('attr', NODE, const('__name__')):
                out.append('the name of a node is written as %s' % (
                    show(nm) if nm is not None else 'nothing'))
            out += callbacks(c, p, 'serializer', [e, NODE, data])
            return out
        for e, p in ps:
            c.judge('C29.write', lambda: j(p, e), p, text='a node is written '
                    'by class and name, and by every registered serializer '
                    'which applies to it')


def callback_error(p):
    v = p.val
    return v.tag == 'exc' and is_app(v.a[2], 'raised') and (
        is_app(v.a[2].a[1], 'item') or v.a[2].a[1].tag == 'bi')


def registry(c, kind):
    return mk('glob', 'node.serializer.%s.registry' % kind)


def callbacks(c, p, kind, args, ob=NODE):
    """Every registered function which applies is called once."""
    out = []
    loops = []
    q = c.q('node.serializer.' + kind)
    for l in p.loops():
        if any(e.kind == 'call' and is_app(e.f, 'item') and
               e.f.a[2].tag == 'app' and e.f.a[2].a[0] in ('elem', 'found')
               for e, d, x in flat([l])):
            loops.append(l)
    if not loops:
        return ['no registered %s is used' % kind]
    if len(loops) > 1:
        raise Unknown('registered functions are called in several loops')
    l = loops[0]
    if l.partial:
        out.append('registered functions are skipped after the first')
    src = l.src
    reg = None
    if is_app(src, 'keys'):
        reg = src.a[1]
    if reg is None:
        raise Unknown('registered functions are found in %s' % show(src))
    if show(reg) != '%s.registry' % q:
        if show(reg).endswith('.registry'):
            return ['the registry %s is used' % show(reg)]
        raise Unknown('registered functions are found in %s' % show(reg))
    el = app('elem', src)
    fn = app('item', reg, el)
    P = app('issubclass', el, bi('zope.interface.Interface'))
    Q = app('providedBy', el, ob)
    R = app('isinstance', ob, el)
    for g, evs in l.alts:
        g = dict(g)
        # the exact class: an instance of it, and no interface
        exact = [k for k in g if k.tag == 'app' and k.a[0] in ('is', 'eq') and
                 el in k.a[1:] and any(t in k.a[1:] for t in (
                     app('type', ob), app('attr', ob, const('__class__'))))]
        extra = [k for k in g if k not in (P, Q, R) and k not in exact]
        calls = [e for e, d, x in flat(evs) if e.kind == 'call']
        mine = [e for e in calls if e.f is fn]
        if len(calls) != len(mine):
            raise Unknown('calls %s' % show(calls[0].f))
        for e in mine:
            if list(e.args) != list(args):
                out.append('%s is called with %s' % (kind, show(
                    tuple(e.args))))
        for pv in (True, False):
            for qv in (True, False):
                for rv in (True, False):
                    if pv and not qv and rv or not pv and qv:
                        continue
                    if any(k in g and g[k] is not v for k, v in (
                            (P, pv), (Q, qv), (R, rv))):
                        continue
                    if any(g[k] for k in exact) and (pv or not rv):
                        continue
                    want = 1 if (qv if pv else rv) else 0
                    if len(mine) == want:
                        continue
                    if extra:
                        raise Unknown('depends on %s' % show(extra[0]))
                    out.append('the %s of %s is called %s' % (
                        kind, ('an interface the node %s' % (
                            'provides' if qv else 'does not provide'))
                        if pv else 'a class the node is %san instance of' % (
                            '' if rv else 'not '), ('%d times' % len(mine))
                        if mine else 'not'))
    return out


def node_read(c):
    """Reading the written data."""
    kw = sym('kw', 'dict')
    for parent in (None, TARGET):
        for extra in (None, kw):
            for e, p in written(c, NODE, node_facts(c)):
                if not p.ok:
                    continue
                data = unwrap(p, False)
                if data is None or not is_dict(p, data):
                    continue
                st = p.st.copy()
                # what was written, as far as it is known here
                st.facts.clear()
                q = p.__class__.__new__(p.__class__)
                q.__dict__.update(p.__dict__)
                q.st = st
                if extra is not None:
                    st.maps[data] = tuple(st.maps[data]) + (
                        ('set', const('kw'), extra),)
                for d, r in read(c, q, p.val, parent):
                    c.judge('C29.read', lambda: node_made(
                        c, p, r, d, data, parent, extra), r,
                        text='reading a written node makes an instance of '
                        'its class by its keyword arguments, places it in '
                        'the given parent under its name or names it, calls '
                        'every registered deserializer which applies, and '
                        'returns it')


def node_made(c, p, r, d, data, parent, extra):
    if not r.ok:
        v = r.val
        if resolving(r) or child_error(r) or callback_error(r):
            return
        if v.tag == 'exc' and is_app(v.a[2], 'raised') and \
                is_app(v.a[2].a[1], 'fold') and \
                resolved(v.a[2].a[1]) is None:
            raise Unknown('the class is looked up as %s' % show(v.a[2].a[1]))
        if v.tag == 'exc' and is_app(v.a[2], 'raised') and \
                resolved(v.a[2].a[1]) is None and any(
                    x.tag == 'sym' and '__import__' in str(x.a[0]) or
                    is_app(x, 'ret') and '__import__' in show(x.a[1])
                    for x in subterms(v.a[2].a[1])):
            raise Unknown('the class is looked up as %s' % show(v.a[2].a[1]))
        if v.tag == 'exc' and is_app(v.a[2], 'raised') and (
                resolved(v.a[2].a[1]) is not None or
                parent is not None and mentions(v.a[2].a[1], parent)):
            return
        return 'reading a node fails with %s' % show(v)
    tr = r.trace[len(p.trace):]
    made = [e for e in tr if not isinstance(e, Loop) and e.kind == 'call' and
            resolved(e.f) is not None]
    if not made:
        if r.val is p.val or is_dict(r, r.val):
            return 'a written node is not read as node'
        if parent is not None and is_app(r.val, 'item') and \
                r.val.a[1] is parent:
            return 'a child the parent has already is used instead of a node ' \
                'of the class written'
        raise Unknown('a node is read as %s' % show(r.val))
    if len(made) > 1:
        return 'the node is made %d times' % len(made)
    m = made[0]
    out = []
    if resolved(m.f) not in list(class_names()):
        out.append('the class is looked up as %s' % show(resolved(m.f)))
    node = m.res
    if r.val is not node:
        out.append('%s is returned instead of the node' % show(r.val))
    args = list(m.args) + [v for k, v in m.kw]
    for v in args:
        for e in tr[:tr.index(m)]:
            if isinstance(e, Loop) or e.f is not v:
                continue
            if e.kind in ('setitem', 'delitem', 'mset') or \
                    e.kind == 'mcall' and e.args[0] in [const(x) for x in (
                        'setdefault', 'update', 'pop', 'popitem', 'clear',
                        '__setitem__', '__delitem__')]:
                out.append('keyword arguments are changed before the class '
                           'is called')
    if extra is None:
        for v in args:
            if not empty(r, v):
                out.append('the class is called with %s' % show(v))
    else:
        if not any(mentions(v, extra) for v in args) and not any(
                v in r.st.maps and any(mentions(x, extra) for e in
                                       r.st.maps[v] for x in e[1:]
                                       if hasattr(x, 'tag'))
                for v in args):
            out.append('keyword arguments are lost')
        if parent is not None and any(
                is_app(x, 'ret') and is_app(x.a[1], 'rec') and any(
                    y is extra for y in x.a[2].a) and (
                    mentions(x.a[2], parent) or mentions(x.a[3], parent))
                for v in args for x in subterms(v)):
            out.append('nodes among the keyword arguments are placed in the '
                       'parent')
    nm = app('attr', NODE, const('__name__'))
    sets = [e for e in tr if not isinstance(e, Loop) and
            e.kind == 'setitem' and e.f is parent]
    sets += [e for e in tr if not isinstance(e, Loop) and
             e.kind == 'mcall' and e.f is parent and
             e.args[0] is const('__setitem__')]
    if parent is not None:
        got = [tuple(e.args[-2:]) for e in sets]
        if not got:
            out.append('the node is not placed in the parent')
        elif got != [(nm, node)]:
            out.append('the parent gets %s' % show(tuple(got)))
        for e in tr:
            if isinstance(e, Loop) and sets and r.index(e) < r.index(
                    sets[0]) and any(x.kind == 'call' and
                                     node in x.args for x, a, b in
                                     flat([e])):
                out.append('children are read before the node is placed in '
                           'the parent')
    else:
        v = r.st.cells.get((node, '__name__'))
        if v is not nm:
            out.append('the node is named %s' % (
                show(v) if v is not None else 'nothing'))
    if parent is not None and not sets and r.val is app('item', parent, nm):
        # another node is returned
        return out
    sub = r.__class__.__new__(r.__class__)
    sub.__dict__.update(r.__dict__)
    sub.st = r.st.copy()
    sub.st.trace = list(tr)
    out += callbacks(c, sub, 'deserializer', [d, node, data], node)
    return out


def empty(r, v):
    if is_app(v, 'ret') and is_app(v.a[1], 'rec') and len(v.a[2].a) == 2:
        # read by the decoder
        return empty(r, v.a[2].a[1])
    if v in r.st.maps:
        return not r.st.maps[v]
    return v.tag in ('seq', 'tup') and not v.a[-1]


def registration(c):
    F = sym('callback', 'function')
    K = sym('registered', 'any')
    regs = []
    for kind in ('serializer', 'deserializer'):
        q = c.q('node.serializer.' + kind)
        for m in c.call(mk('cls', q), [K]):
            if not m.ok:
                c.judge('C29.register', lambda: 'fails', m)
                continue
            for p in c.call(m.val, [F], st=m.st.copy()):
                def j():
                    if not p.ok:
                        return 'registering fails with %s' % show(p.val)
                    out = []
                    sets = [e for e in p.events() if e.kind in (
                        'setitem', 'mset')]
                    mine = [e for e in sets if list(e.args) == [K, F]]
                    if not mine:
                        return 'the function is not registered'
                    for e in sets:
                        if e not in mine:
                            out.append('%s is registered' % show(
                                tuple(e.args)))
                    if show(mine[0].f) != '%s.registry' % q:
                        out.append('%s registers in %s' % (
                            kind, show(mine[0].f)))
                    regs.append(mine[0].f)
                    if p.val is not F:
                        out.append('the decorated function is replaced by '
                                   '%s' % show(p.val))
                    return out
                c.judge('C29.register', j, p, text='decorating a function '
                        'registers it for its interface or class on its own '
                        'side and leaves it as it is')
    if len(set(regs)) == 1 and len(regs) > 1:
        c.violate('C29.register', 'serializers and deserializers share a '
                  'registry')


def registered(c):
    """Functions the package registers: {kind: {target: function}}"""
    out = {'serializer': {}, 'deserializer': {}}
    ks = {mk('cls', c.q('node.serializer.' + k)): k for k in out}
    for name, mod in sorted(c.prog.modules.items()):
        if '.tests' in name or '.testing' in name:
            continue

        def val(n):
            if isinstance(n, ast.Name):
                return c.A.glob_value(name, n.id)
            if isinstance(n, ast.Attribute) and isinstance(
                    n.value, ast.Name):
                b = c.A.glob_value(name, n.value.id)
                if b is not None and b.tag == 'mod':
                    return c.A.glob_value(b.a[0], n.attr)

        def deco(n):
            if isinstance(n, ast.Call) and len(n.args) == 1:
                k = val(n.func)
                if k in ks:
                    return ks[k], val(n.args[0])
        for n in mod.tree.body:
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list:
                    r = deco(d)
                    if r:
                        out[r[0]][r[1]] = c.glob('%s.%s' % (name, n.name))
            elif isinstance(n, (ast.Expr, ast.Assign)) and isinstance(
                    n.value, ast.Call):
                r = deco(n.value.func)
                if r and len(n.value.args) == 1:
                    out[r[0]][r[1]] = val(n.value.args[0])
    return out


def pairs(c):
    regs = registered(c)
    ser, des = regs['serializer'], regs['deserializer']
    need = [INODE, mk('cls', 'node.interfaces.IAttributes')]
    for t in need:
        for k, d in (('serializer', ser), ('deserializer', des)):
            c.judge('C29.pairs', lambda: None if t in d else
                    'no %s is registered for %s' % (k, show(t)),
                    text='for whatever the library registers a serializer it '
                    'registers a deserializer, and what the one writes the '
                    'other reads')
    for t in set(ser) | set(des):
        if t in ser and t in des:
            continue
        if t in need:
            continue
        c.judge('C29.pairs', lambda: 'only one side is registered for %s' %
                show(t))
    if INODE in ser and INODE in des:
        c.part(children, c, ser[INODE], des[INODE])
    if need[1] in ser and need[1] in des:
        c.part(attributes, c, ser[need[1]], des[need[1]])


E, D = sym('encoder', 'any'), sym('decoder', 'any')
N1, N2 = sym('n1', 'node'), sym('n2', 'node')


def fresh_data(c):
    st = State()
    d = c.A.alloc(st, 'dict')
    st.maps[d] = (('set', const('class'), sym('class', 'str')),
                  ('set', const('name'), sym('name', 'str')))
    return st, d


def children(c, ser, des):
    st, data = fresh_data(c)
    base = list(content_st(c, st, data))
    ps = c.call(ser, [E, N1, data], st=st)
    K = app('keys', N1)
    el = app('elem', K)
    child = app('item', N1, el)

    def extra(p):
        d = content(p, data)
        return {k: v for k, v in d.items() if k not in base}

    def j(p):
        if not p.ok:
            return None if foreign(p) else \
                'writing children fails with %s' % show(p.val)
        d = content(p, data)
        for k in base:
            if d.get(k) is not content_st(c, st, data)[k]:
                return '%s is overwritten' % show(k)
        ex = extra(p)
        if not ex:
            if p.holds(app('nonempty', K)) is False:
                return
            return 'children are not written'
        if len(ex) != 1:
            raise Unknown('children are written as %s' % show(tuple(ex)))
        segs = p.segs(list(ex.values())[0])
        if segs is None:
            raise Unknown('children are written as %s' % show(
                list(ex.values())[0]))
        if not segs and p.holds(app('nonempty', K)) is False:
            return
        if len(segs) != 1 or segs[0][0] not in ('many', 'loop'):
            raise Unknown('children are written as %s' % show(segs))
        if segs[0][1] is not K:
            if is_app(segs[0][1], 'rev') or mentions(segs[0][1], K):
                return 'children are written from %s' % show(segs[0][1])
            raise Unknown('children are written from %s' % show(segs[0][1]))
        for g, items in segs[0][3]:
            if len(items) != 1:
                return '%d entries are written for a child%s' % (
                    len(items), ' if %s' % show(tuple(g)) if g else '')
            if not wrote(items[0][1], child):
                return 'a child is written as %s' % show(items[0][1])
    c.each('C29.children', ps, j, 'every child is written, in order, and '
           'every written child is read into the node, in order')
    for p in ps:
        if not p.ok:
            continue
        ex = extra(p)
        if ex:
            segs = p.segs(list(ex.values())[0])
            lost = segs and all(
                len(items) == 1 and not mentions(subtract(
                    items[0][1], child), el)
                for s in segs if s[0] in ('many', 'loop') for g, items in s[3])
            if lost:
                w = c.where_of(ser)
                c.violate('C29.nonnodes', 'children which are no nodes are '
                          'written without their key and lost on reading',
                          (w[0], w[1], 'serializer of INode'), p)
        # what was written is read
        rs = c.call(des, [D, N2, data], st=p.st.copy())

        def k(r):
            if not r.ok:
                return None if foreign(r) else \
                    'reading children fails with %s' % show(r.val)
            tr = r.trace[len(p.trace):]
            evs = [e for e, d, l in flat(tr) if e.kind == 'mcall' and
                   e.f is D]
            if not ex:
                return ['%s is read without having been written' % show(
                    tuple(e.args)) for e in evs]
            if r.holds(app('nonempty', K)) is False:
                return
            ls = [l for l in tr if isinstance(l, Loop) and any(
                e in [x for x, a, b in flat([l])] for e in evs)]
            if len(evs) == 1 and evs[0] in tr and evs[0].args[0] is const(
                    'decode') and len(evs[0].args) > 1 and is_list(
                        r, evs[0].args[1], list(ex.values())[0]):
                # the list as a whole
                if list(evs[0].args[2:]) + [v for n, v in evs[0].kw] != [N2]:
                    return 'children are not read into the node'
                return
            if not evs:
                return 'written children are not read'
            if len(ls) != 1 or any(e in tr for e in evs):
                raise Unknown('children are read otherwise')
            l = ls[0]
            if l.partial:
                return 'not all children are read'
            if l.obj is not NONE:
                return 'children are read in reversed order'
            if l.src is not K:
                if mentions(l.src, K):
                    return 'children are read from %s' % show(l.src)
                raise Unknown('children are read from %s' % show(l.src))
            out = []
            for g, es in l.alts:
                es = [e for e, a, b in flat(es) if e.kind == 'mcall' and
                      e.f is D]
                if len(es) != 1:
                    out.append('a child is read %d times%s' % (
                        len(es), ' if %s' % show(tuple(g)) if g else ''))
                    continue
                e = es[0]
                args = list(e.args[1:]) + [v for n, v in e.kw]
                if e.args[0] is not const('decode'):
                    raise Unknown('children are read by %s' % show(e.args[0]))
                if not args or not wrote(args[0], child):
                    out.append('%s is read instead of the written child' %
                               show(tuple(args)))
                if args[1:] != [N2]:
                    out.append('children are not read into the node')
            return out
        c.each('C29.children', rs, k)


def is_list(r, v, w):
    return v is w or v.tag == 'seq' and w in r.st.lists and \
        v.a[1] == r.st.lists[w]


def subtract(t, child):
    from ..lib import subst
    return subst(t, {child: sym('child', 'any')})


def content_st(c, st, d):
    return {e[1]: e[2] for e in st.maps[d] if e[0] == 'set'}


def wrote(v, x):
    return is_app(v, 'mret') and v.a[1] is E and v.a[2] is const(
        'default') and tuple(v.a[3].a) == (x,) and not v.a[4].a


def foreign(p):
    """Does the path fail because the encoder, decoder, or a node does?"""
    v = p.val
    if v.tag != 'exc' or not is_app(v.a[2], 'raised'):
        return False
    return any(mentions(v.a[2], x) for x in (E, D, N1, N2))


def attributes(c, ser, des):
    st, data = fresh_data(c)
    base = content_st(c, st, data)
    A1 = app('attr', N1, const('attrs'))
    A2 = app('attr', N2, const('attrs'))
    K = app('keys', A1)
    el = app('elem', K)
    val = app('item', A1, el)

    def extra(p):
        return {k: v for k, v in content(p, data).items() if k not in base}

    def items(p):
        """many segment of the written attributes"""
        ex = extra(p)
        if not ex:
            return None
        if len(ex) != 1:
            raise Unknown('attributes are written as %s' % show(tuple(ex)))
        v = list(ex.values())[0]
        log = p.map_log(v)
        if log is None:
            raise Unknown('attributes are written as %s' % show(v))
        return log

    def j(p):
        if not p.ok:
            return None if foreign(p) else \
                'writing attributes fails with %s' % show(p.val)
        for k in base:
            if content(p, data).get(k) is not base[k]:
                return '%s is overwritten' % show(k)
        log = items(p)
        if not log:
            if p.holds(app('nonempty', K)) is False or p.truth(A1) is False:
                return
            return 'attributes are not written'
        if len(log) != 1 or log[0][0] not in ('many', 'loop'):
            raise Unknown('attributes are written as %s' % show(log))
        s = log[0]
        if s[1] is not K:
            raise Unknown('attributes are written from %s' % show(s[1]))
        for g, its in s[3]:
            if len(its) != 1:
                return '%d values are written for an attribute%s' % (
                    len(its), ' if %s' % show(tuple(g)) if g else '')
            if its[0][1] is not el:
                return 'an attribute is written as %s' % show(its[0][1])
            if not wrote(its[0][2], val):
                return 'the value of an attribute is written as %s' % show(
                    its[0][2])
    ps = c.call(ser, [E, N1, data], st=st)
    c.each('C29.attributes', ps, j, 'every attribute is written by name and '
           'value, and every written attribute is read into the attributes '
           'of the node')
    for p in ps:
        if not p.ok:
            continue
        log = items(p)
        rs = c.call(des, [D, N2, data], st=p.st.copy())

        def k(r):
            if not r.ok:
                return None if foreign(r) else \
                    'reading attributes fails with %s' % show(r.val)
            tr = r.trace[len(p.trace):]
            evs = [e for e, d, l in flat(tr) if e.kind in (
                'setitem', 'mset') and e.f is A2]
            if not log:
                return
            if r.holds(app('nonempty', K)) is False:
                return
            ups = [e for e, d, l in flat(tr) if e.kind == 'mcall' and
                   e.f is A2]
            if len(ups) == 1 and not evs and ups[0] in tr and \
                    ups[0].args[0] is const('update') and \
                    len(ups[0].args) == 2:
                segs = r.segs(ups[0].args[1])
                if segs is None:
                    segs = r.map_log(ups[0].args[1])
                if len(segs) == 1 and segs[0][0] in ('many', 'loop') and \
                        segs[0][1] is K:
                    out = []
                    for g, its in segs[0][3]:
                        if len(its) != 1:
                            return 'an attribute is set %d times%s' % (
                                len(its), ' if %s' % show(tuple(g))
                                if g else '')
                        kv = its[0][1:]
                        if len(kv) == 1 and kv[0].tag == 'tup':
                            kv = kv[0].a
                        if len(kv) != 2:
                            raise Unknown('attributes are set to %s' % show(
                                its))
                        out += one_attr(kv[0], kv[1], el, val)
                    return out
            if ups and all(e.args[0] is const('setdefault') for e in ups):
                return 'attributes the node already has keep their value ' \
                    'instead of the one written'
            if ups and not evs:
                raise Unknown('attributes are set by %s' % show(
                    ups[0].args[0]))
            if not evs:
                return 'written attributes are not read'
            ls = [l for l in tr if isinstance(l, Loop) and any(
                e in [x for x, a, b in flat([l])] for e in evs)]
            if len(ls) != 1 or any(e in tr for e in evs):
                raise Unknown('attributes are read otherwise')
            l = ls[0]
            if l.partial:
                return 'not all attributes are read'
            if l.src is not K:
                raise Unknown('attributes are read from %s' % show(l.src))
            out = []
            for g, es in l.alts:
                es = [e for e, a, b in flat(es) if e.kind == 'setitem' and
                      e.f is A2]
                if len(es) != 1:
                    out.append('an attribute is set %d times%s' % (
                        len(es), ' if %s' % show(tuple(g)) if g else ''))
                    continue
                out += one_attr(es[0].args[0], es[0].args[1], el, val)
            return out
        c.each('C29.attributes', rs, k)


def one_attr(key, v, el, val):
    out = []
    if key is not el:
        out.append('an attribute is read as %s' % show(key))
    if not (is_app(v, 'mret') and v.a[1] is D and
            v.a[2] is const('decode') and v.a[3].a and
            wrote(v.a[3].a[0], val)):
        out.append('an attribute is set to %s' % show(v))
    elif any(mentions(x, N2) for x in list(v.a[3].a[1:]) + list(v.a[4].a)):
        out.append('nodes kept as attributes become children')
    return out


def entry(c):
    """deserialize, lists of nodes."""
    f = c.glob('node.serializer.deserialize')
    text = sym('json', 'str')
    data = app('ret', bi('json.loads'), tup(text), tup(), const(0))
    root = sym('root', 'node')
    for kind in ('list', 'dict'):
        st = State()
        for k in ('str', 'list', 'dict'):
            st.facts[app('isinstance', data, bi(k))] = k == kind
        for m in markkeys(c):
            st.facts[app('in', m, data)] = False
        for args, kw, want in (([text], {}, NONE), ([text, root], {}, root),
                               ([text], {'root': root}, root)):
            entered(c, f, st, args, kw, want, data)


def entered(c, f, st, args, kw, want, data):
        def j(p):
            if not p.ok:
                return None if child_error(p) or raised_by(
                    p, 'json.loads') else 'fails with %s' % show(p.val)
            if not p.calls(bi('json.loads')):
                raise Unknown('JSON is read otherwise')
            if p.val is data:
                return 'the data is not decoded'
            recs = [e for e, d, l in p.flat() if e.kind == 'call' and
                    is_app(e.f, 'rec')]
            if not recs:
                raise Unknown('data is decoded otherwise')
            out = []
            for e in recs:
                a = list(e.args[1:]) + [v for n, v in e.kw]
                if len(a) == 1 and want is NONE:
                    continue
                if want not in a:
                    out.append('nested nodes are read into %s' % (show(
                        a[-1]) if len(a) > 1 else 'nothing'))
            return out
        c.each('C29.entry', c.call(f, args, kw, st=st.copy()), j,
               'deserialize reads the data, nodes in lists included, into '
               'the given root')
