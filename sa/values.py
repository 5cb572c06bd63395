"""Abstract values (interned terms) of the analysis.

A value is a finite token built from where it comes from (parameter, attribute
load, result of an opaque call, allocation, constant) and pure operations.
Terms are interned, so equality is identity.
"""

_table = {}


class V(object):
    __slots__ = ('tag', 'a', 'atoms')

    def __repr__(self):
        return show(self)


def mk(tag, *a):
    key = (tag, a)
    v = _table.get(key)
    if v is None:
        v = V()
        v.tag = tag
        v.a = a
        v.atoms = None
        _table[key] = v
    return v


def const(x):
    return mk('const', type(x).__name__, x)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def boolean(b):
    return TRUE if b else FALSE


def app(op, *args):
    return mk('app', op, *args)


def sym(name, kind='any', view=None):
    return mk('sym', name, kind, view)


def tup(*items):
    return mk('tup', *items)


def bi(name):
    return mk('bi', name)


def is_app(v, op=None):
    return isinstance(v, V) and v.tag == 'app' and (op is None or v.a[0] == op)


def cval(v):
    """Python value of a constant."""
    return v.a[1]


def is_const(v, t=None):
    return v.tag == 'const' and (t is None or v.a[0] == t)


def _walk(x, seen, out):
    if isinstance(x, V):
        if x in seen:
            return
        seen.add(x)
        out.add(x)
        for y in x.a:
            _walk(y, seen, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            _walk(y, seen, out)


def subterms(v):
    if isinstance(v, V):
        if v.atoms is None:
            out = set()
            _walk(v, set(), out)
            v.atoms = frozenset(out)
        return v.atoms
    out = set()
    _walk(v, set(), out)
    return out


def mentions(v, token):
    return token in subterms(v)


def mentions_any(v, tokens):
    s = subterms(v)
    return any(t in s for t in tokens)


_subst_memo = {}


def subst(x, m):
    """Replace tokens in terms; m maps V to V."""
    if isinstance(x, V):
        if x in m:
            return m[x]
        if not any(k in subterms(x) for k in m):
            return x
        return mk(x.tag, *[subst(y, m) for y in x.a])
    if isinstance(x, tuple):
        if hasattr(x, '_make'):
            return x._make(subst(y, m) for y in x)
        return tuple(subst(y, m) for y in x)
    if isinstance(x, frozenset):
        return frozenset(subst(y, m) for y in x)
    return x


def show(v):
    if not isinstance(v, V):
        if isinstance(v, tuple):
            return '(' + ', '.join(show(x) for x in v) + ')'
        if isinstance(v, frozenset):
            return '{' + ', '.join(sorted(show(x) for x in v)) + '}'
        return str(v)
    t, a = v.tag, v.a
    if t == 'const':
        return repr(a[1])
    if t == 'sym':
        return a[0]
    if t == 'app':
        op = a[0]
        if op == 'attr':
            return '%s.%s' % (show(a[1]), show(a[2]))
        if op in ('item',) and len(a) > 2:
            return '%s[%s]' % (show(a[1]), show(a[2]))
        return '%s(%s)' % (op, ', '.join(show(x) for x in a[1:]))
    if t == 'ref':
        return 'new%s#%s' % (':' + str(a[1]) if len(a) > 1 else '', a[0])
    if t == 'glob':
        return '.'.join(a[:2])
    if t == 'cls':
        return a[0]
    if t == 'bi':
        return a[0]
    if t == 'fn':
        return '<function %s>' % (a[2] if len(a) > 2 else a[0])
    if t == 'tup':
        return '(' + ', '.join(show(x) for x in a) + ')'
    if t == 'exc':
        return '%s<%s>' % (a[0] or 'any error', show(a[2]))
    if t == 'next':
        return '<next of %s>' % a[1]
    return '%s%s' % (t, show(a))
