"""C18, C19: text encoding."""
from ..interp import Ctx
from ..lib import (KEY, NEXT, NONE, TRUE, VAL, State, Unknown, app, bi, const,
                   cval, is_app, is_const, mentions, mk, show, sym, tup)

CTX = Ctx('node')
KINDS = ('list', 'tuple', 'dict', 'bytes', 'str')
WRITES = ('setitem', 'delitem', 'mset', 'mdel', 'mupdate', 'mclear',
          'setattr', 'delattr')


def C18(c):
    q = c.q('node.utils.StrCodec')
    me, soft, enc = sym('self', 'node', 'x'), None, None
    view, me = c.protocol(q, ['encode', 'decode'])
    names = {}
    c.part(configured, c, q, names)
    if len(names) != 2:
        return
    ENC = app('attr', me, const(names['encoding']))
    SOFT = app('attr', me, const(names['soft']))
    c.rule('C18.convert', 'encode and decode: the converter is applied to '
           'each element of lists and tuples (same type, same order, none '
           'left out), to each key and value of dicts and nodes; bytes are '
           'decoded, text is encoded, with the configured encoding; anything '
           'else is returned as it is; the argument is never changed')
    for name in ('encode', 'decode'):
        for kind in KINDS + ('node', 'any'):
            c.part(convert, c, q, me, name, kind, ENC, SOFT)
    c.part(module_level, c, q)


def configured(c, q, names):
    """Attributes the constructor keeps encoding and mode in."""
    args = {'encoding': sym('encoding', 'any'), 'soft': sym('soft', 'any')}

    def given(p):
        if not p.ok:
            return 'cannot be created: %s' % show(p.val)
        out = []
        for n, v in sorted(args.items()):
            at = [k for (o, k), x in p.st.cells.items()
                  if o is p.val and x is v]
            if not at:
                at = [k for (o, k), x in p.st.cells.items()
                      if o is p.val and mentions(x, v)]
                if at:
                    raise Unknown('%s is converted' % n)
                out.append('%s given is not kept' % n)
            elif len(at) == 1:
                names[n] = at[0]
        return out
    c.each('C18.configured', c.call(mk('cls', q), [], args), given,
           'the encoding and mode given to the constructor are kept; mode is '
           'soft by default')

    def defaults(p):
        if not p.ok or len(names) != 2:
            return
        v = p.st.cells.get((p.val, names['soft']))
        if v is not None and is_const(v) and not cval(v):
            return 'undecodable bytes are errors by default'
    c.each('C18.configured', c.call(mk('cls', q), []), defaults)


def convert(c, q, me, name, kind, ENC, SOFT):
    arg = sym('arg', kind)
    fn = c.A.class_view(q).members.get(name)
    ps = c.call(fn, [me, arg])
    done = []

    def rec(v, x=None):
        """v is the converter of this direction applied to x."""
        return is_app(v, 'mret') and v.a[1] is me and \
            v.a[2] is const(name) and len(v.a[3].a) == 1 and (
                x is None or v.a[3].a[0] is x)

    def pairwise(v, what, k, x):
        """Converted key (0) or value (1)."""
        i = 0 if what == 'key' else 1
        if rec(v, (k, x)[i]):
            return
        if (is_app(v, 'unpack') or is_app(v, 'item')) and rec(v.a[1], tup(k, x)) and \
                v.a[2] in (const(i), i):
            return
        if v is (k, x)[i]:
            return '%ss of dicts and nodes are not converted' % what
        raise Unknown('%s is %s' % (what, show(v)))

    def container(p, v):
        if v is arg:
            return 'contained values are not converted'
        log = p.map_log(v) if v.tag == 'ref' else None
        if v.tag == 'ref' and p.A.kind(p.st, v) in ('list', 'set'):
            return 'a dict or node becomes something else'
        if log is None or len(log) != 1:
            if log == ():
                if p.truth(arg) is False:
                    return
                return 'nothing contained is taken over'
            raise Unknown('gives %s' % show(v))
        op = log[0]
        if op[0] == 'looppart':
            return 'not everything contained is converted'
        if op[0] != 'loop' or op[1] is not app('keys', arg):
            raise Unknown('gives %s' % show(tuple(op)))
        k = op[2]
        out = []
        for g, ops in sorted(op[3], key=repr):
            if not ops:
                out.append('something contained is left out')
            for o in ops:
                if o[0] != 'set':
                    raise Unknown('gives %s' % show(tuple(o)))
                out.append(pairwise(o[1], 'key', k, app('item', arg, k)))
                out.append(pairwise(o[2], 'value', k, app('item', arg, k)))
        return [x for x in out if x]

    def sequence(p, v):
        if v is arg:
            return 'contained values are not converted'
        if v.tag in ('seq', 'tup') or v.tag == 'ref':
            if v.tag == 'ref' or v.tag == 'tup' or v.a[0] in (
                    'tuple', 'list', 'iter', 'gen'):
                return 'the type of a sequence is not kept'
        if not (is_app(v, 'ret') and v.a[1] is app('type', arg) and
                len(v.a[2].a) == 1):
            raise Unknown('gives %s' % show(v))
        segs = p.A.segs_of(p.st, v.a[2].a[0])
        if segs is None or len(segs) != 1:
            if segs == ():
                return 'nothing contained is taken over'
            raise Unknown('gives %s' % show(v))
        s = segs[0]
        if s[0] in ('rev', 'sorted') and s[1][0] == 'many':
            return 'the order of a sequence is not kept'
        if s[0] != 'many' or s[1] is not app('keys', arg):
            raise Unknown('gives %s' % show(s))
        out = []
        for g, items in sorted(s[3], key=repr):
            if len(items) != 1:
                out.append('the length of a sequence is not kept')
            elif not rec(items[0][1], s[2]):
                if items[0][1] is s[2]:
                    out.append('contained values are not converted')
                elif is_app(items[0][1], 'mret') and items[0][1].a[1] is me:
                    out.append('contained values are converted by %s' %
                               show(items[0][1].a[2]))
                else:
                    raise Unknown('gives %s' % show(items[0]))
        return out

    def text(p, v):
        if name == 'decode':
            return 'text is converted when decoding' if v is not arg else None
        if v is app('encode', arg, ENC) or v is app(
                'encode', arg, ENC, const('strict')):
            return
        if v is arg:
            return 'text is not encoded'
        if is_app(v, 'encode') and v.a[1] is arg:
            return 'text is encoded with %s' % show(tuple(v.a[2:]))
        if rec(v) and v.a[3].a[0] is arg:
            return 'encoding text never ends'
        raise Unknown('gives %s' % show(v))

    def data(p, v):
        if name == 'decode':
            if v is arg:
                s = p.truth(SOFT)
                if s is not True:
                    return 'bytes are not decoded' if s is None else \
                        'undecodable bytes are kept though not in soft mode'
                return
            if is_app(v, 'decode') and v.a[1] is arg:
                if v.a[2:] not in ((ENC,), (ENC, const('strict'))):
                    return 'bytes are decoded with %s' % show(tuple(v.a[2:]))
                done.append(p.truth(SOFT))
                return
            if rec(v) and v.a[3].a[0] is arg:
                return 'decoding bytes never ends'
            if is_const(v):
                return 'bytes become %s' % show(v)
            raise Unknown('gives %s' % show(v))
        D = app('mret', me, const('decode'), tup(arg), tup(), const(0))
        isb = p.holds(app('isinstance', D, bi('bytes')))
        if isb is None:
            t = p.holds(app('isinstance', D, bi('str')))
            isb = None if t is None else not t
        if rec(v, arg):
            return 'encoding bytes never ends'
        if v is arg or v is D:
            if not mentions(tuple(p.trace), D):
                return 'bytes are not checked by decoding them'
            if isb is not True:
                if v is D:
                    return 'bytes become text when encoding'
                raise Unknown('bytes are kept when ?')
            return
        if rec(v, D) or v is app('encode', D, ENC) or v is app(
                'mret', D, const('encode'), tup(ENC), tup(), const(0)):
            if isb is True:
                return 'encoding undecodable bytes never ends'
            if isb is None:
                return 'undecodable bytes are encoded again, which never ' \
                    'ends' if rec(v, D) else 'undecodable bytes are encoded'
            return
        if is_app(v, 'encode') and v.a[1] is D:
            return 'bytes are encoded with %s' % show(tuple(v.a[2:]))
        if is_app(v, 'mret') and v.a[1] is D and v.a[2] is const('encode') \
                and not mentions(v.a[3:5], ENC):
            return 'bytes are encoded with %s' % (
                show(v.a[3]) if v.a[3].a else 'the default encoding')
        raise Unknown('gives %s' % show(v))

    def j(p):
        changed = [e for e in p.events() if e.kind in WRITES and (
            e.f is arg or is_app(e.f, 'elem') or is_app(e.f, 'item'))]
        if changed:
            return 'the structure given is changed'
        what = kind
        if kind == 'any':
            what = None
            unknown = False
            for k in KINDS:
                t = p.holds(app('isinstance', arg, bi(k)))
                if t is True:
                    what = k
                    break
                unknown = unknown or t is None
            if what is None:
                t = [v for g, v in p.st.facts.items() if is_app(
                    g, 'providedBy') and g.a[2] is arg]
                if True in t:
                    what = 'node'
                else:
                    unknown = unknown or not t
            if what is None and unknown:
                if p.ok and p.val is arg:
                    return
                if not t and not any(
                        mentions(f, arg) and not is_app(f, 'isinstance')
                        for f in p.st.facts) and all(
                            p.holds(app('isinstance', arg, bi(k))) is False
                            for k in KINDS):
                    return 'values which are no nodes are converted as such'
                raise Unknown('which kind of value is it')
        if not p.ok:
            if p.raises('UnicodeDecodeError') and what == 'bytes' and \
                    name == 'decode':
                s = p.truth(SOFT)
                if s is True:
                    return 'undecodable bytes are errors in soft mode'
                if s is None:
                    return 'undecodable bytes are errors in soft mode as ' \
                        'well'
                return
            if p.events('raise') and any(e.args and e.args[0] is p.val
                                         for e in p.events('raise')):
                return
            if what == 'str' and name == 'encode':
                return
            return 'fails with %s' % show(p.val)
        v = p.val
        if what in ('dict', 'node'):
            return container(p, v)
        if what in ('list', 'tuple'):
            return sequence(p, v)
        if what == 'str':
            return text(p, v)
        if what == 'bytes':
            return data(p, v)
        if v is not arg:
            return 'other values are converted to %s' % show(v)
    c.each('C18.convert', ps, j)
    if name == 'decode' and kind == 'bytes':
        c.judge('C18.convert', lambda: None if (
            None in done or True in done and False in done) else
            'bytes are not decoded in every mode')


def module_level(c, q):
    for name in ('encode', 'decode'):
        v = c.glob('node.utils.' + name)

        def j():
            if v.tag == 'bound':
                own = c.A.class_view(q).members.get(name)
                if v.a[0] is not own:
                    return '%s of node.utils is %s' % (name, show(v))
                return
            raise Unknown('%s is %s' % (name, show(v)))
        c.judge('C18.module', j, text='node.utils.encode and decode are '
                'the methods of one codec', where=('src/node/utils.py', 1,
                                                   'node.utils'))


# -- nodes aware of unicode ------------------------------------------------------

def C19(c):
    q = c.q('node.behaviors.UnicodeAware')
    me = c.me(q)
    K = {k: sym('key', k) for k in ('bytes', 'str', 'any')}
    V = {k: sym('val', k) for k in ('bytes', 'str', 'any', 'node', 'list')}
    for name in ('__getitem__', '__setitem__', '__delitem__'):
        for kk in sorted(K):
            for vk in sorted(V) if name == '__setitem__' else [None]:
                if vk in ('str', 'node', 'list') and kk != 'any':
                    continue
                args = [K[kk]] + ([V[vk]] if vk else [])
                c.part(passed, c, q, me, name, args)


def passed(c, q, me, name, args):
    def right(p, want, got, what):
        isb = p.A.kind(p.st, want) == 'bytes' or p.holds(
            app('isinstance', want, bi('bytes')))
        if isb is None:
            if got is want:
                return '%s may be bytes and is not decoded' % what
            isb = p.A.kind(p.st, want) != 'str'
        if not isb:
            if got is not want:
                return '%s is replaced by %s though no bytes' % (
                    what, show(got))
            return
        if is_app(got, 'decode') and got.a[1] is want:
            return
        if is_app(got, 'mret') and got.a[2] is const('decode') and \
                got.a[3].a[0] is want:
            return
        if got is want:
            # bytes which cannot be decoded are kept in soft mode
            if any(is_app(f, 'truthy') and is_app(f.a[1], 'attr') and v and
                   f.a[1].a[1].tag == 'glob'
                   for f, v in p.st.facts.items()):
                return
            return '%s of bytes is not decoded' % what
        if is_app(got, 'encode') or got.tag in ('const', 'sym', 'ref'):
            return '%s of bytes becomes %s' % (what, show(got))
        raise Unknown('%s becomes %s' % (what, show(got)))

    def j(p):
        calls = p.calls(NEXT)
        if not calls:
            if not p.ok and p.raises('UnicodeError'):
                return
            if not p.ok and p.raises('UnicodeDecodeError'):
                return
            return 'is not passed on'
        if len(calls) != 1:
            return 'is passed on %d times' % len(calls)
        a = calls[0].args
        if len(a) != len(args) + 1 or a[0] is not me or calls[0].kw:
            return 'is passed on with %s' % show(tuple(a[1:]))
        out = [right(p, args[0], a[1], 'key')]
        if len(args) > 1:
            out.append(right(p, args[1], a[2], 'value'))
        if p.events('raise', NEXT):
            if p.ok:
                out.append('an error of the layers below is swallowed')
            elif not p.passes_on(NEXT):
                out.append('an error of the layers below is replaced')
        elif not p.ok:
            out.append('fails with %s' % show(p.val))
        elif name == '__getitem__' and p.val is not calls[0].res:
            out.append('the value read is not returned but %s' % show(p.val))
        return [x for x in out if x]
    c.each('C19.%s' % name.strip('_'), c.plumb(q, name, [me] + args), j,
           '%s: exactly one _next with the decoded key (and value) if it is '
           'bytes, else with the same; its result is returned' % name)
