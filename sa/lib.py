"""Specification helpers: running functions abstractly and judging paths.

A specification looks at every abstract path of a function (returning or
raising) and says whether the property holds on it.  A path which is not fully
understood by the analysis never counts as a violation.
"""
import os

from .interp import DELETED, Analyzer, Ctx, Ev, Limit, Loop, State
from .source import AnalysisBroken, Program
from .values import (FALSE, NONE, TRUE, V, app, bi, boolean, const, cval,
                     is_app, is_const, mentions, mentions_any, mk, show, subst,
                     subterms, sym, tup)


class Missing(Exception):
    """A public anchor of the property does not exist any more."""


class Skip(Exception):
    """Rest of a part is skipped, the reason is recorded."""


class Unknown(Exception):
    """Raised by predicates when a path is not understood."""


def bad_value(x):
    return any(v.tag in ('top',) for v in subterms(x))


def flat(trace):
    """Events including those inside of loops, as (event, depth, loop)."""
    for e in trace:
        if isinstance(e, Loop):
            for g, evs in sorted(e.alts, key=repr):
                for x, d, l in flat(evs):
                    yield x, d + 1, e
        else:
            yield e, 0, None


# text methods returning parts, modelled for texts of known beginning only
PARTED = (const('partition'), const('rpartition'))

# libraries whose functions are used by none of the code as it was read
UNMODELLED = ('itertools', 'functools', 'operator', 'collections',
              'contextlib', 'heapq', 'bisect', 'weakref', 'types', 'typing')


class Path(object):

    def __init__(self, A, res, label=''):
        self.A = A
        self.st = res.st
        self.ok = res.ok
        self.val = res.val
        self.label = label

    # -- outcome ------------------------------------------------------------

    @property
    def exc(self):
        """Class name of the raised exception, '' if unknown."""
        if self.ok:
            return None
        return self.val.a[0] if self.val.tag == 'exc' else '?'

    @property
    def exc_short(self):
        e = self.exc
        return e.split('.')[-1] if e else e

    def raises(self, name):
        """Definitely an instance of the named exception."""
        if self.ok:
            return False
        return self.A.exc_isa(self.st, self.val, bi(name)) is True

    def may_raise(self, name):
        if self.ok:
            return False
        return self.A.exc_isa(self.st, self.val, bi(name)) is not False

    @property
    def fatal(self):
        """Raises something which is no Exception (exit, interrupt)."""
        return not self.ok and self.A.exc_isa(
            self.st, self.val, bi('Exception')) is False

    def passes_on(self, f, *args):
        """The raised error is the one of the given call, unchanged."""
        return not self.ok and self.val.tag == 'exc' and \
            self.val.a[2].tag == 'app' and self.val.a[2].a[0] == 'raised' and \
            self.val.a[2].a[1] is f

    # -- facts ----------------------------------------------------------------

    def holds(self, p):
        return self.A.decide(self.st, p)

    def cases(self, *preds):
        """Split the path by predicates: [(path, (bool, ...))]."""
        out = [(self, ())]
        for p in preds:
            nxt = []
            for x, vals in out:
                for s, t in x.A.split(x.st, p):
                    y = Path.__new__(Path)
                    y.__dict__.update(x.__dict__)
                    y.st = s
                    nxt.append((y, vals + (t,)))
            out = nxt
        return out

    def truth(self, v):
        return self.A.decide_truth(self.st, v)

    def never(self, src):
        """Cases of the elements known not to occur, because a list of those
        elements is empty: [guards]."""
        out = []
        for k, v in self.st.facts.items():
            if v is not False or not is_app(k, 'truthy'):
                continue
            segs = self.A.segs_of(self.st, k.a[1])
            if segs and len(segs) == 1 and segs[0][0] == 'many' and \
                    segs[0][1] is src:
                out += [dict(g) for g, items in segs[0][3] if items]
        # a generator of those elements had none
        for e, d, l in flat(self.st.trace):
            if e.kind == 'exhausted' and e.f is src:
                for seg in e.args[0].a[1]:
                    if seg[0] == 'many' and seg[1] is src:
                        out += [dict(g) for g, items in seg[3] if items]
        return out

    # -- events ----------------------------------------------------------------

    @property
    def trace(self):
        return self.st.trace

    def flat(self):
        return list(flat(self.st.trace))

    def events(self, kind=None, f=None, name=None):
        out = []
        for e, d, l in flat(self.st.trace):
            if kind is not None and e.kind != kind:
                continue
            if f is not None and e.f is not f:
                continue
            if name is not None and not (
                    e.args and isinstance(e.args[0], V) and
                    e.args[0] is const(name)):
                continue
            out.append(e)
        return out

    def top_events(self, kind=None, f=None):
        return [e for e in self.st.trace if isinstance(e, Ev) and
                (kind is None or e.kind == kind) and
                (f is None or e.f is f)]

    def calls(self, f):
        return [e for e, d, l in flat(self.st.trace)
                if e.kind == 'call' and e.f is f]

    def loops(self):
        return [e for e in self.st.trace if isinstance(e, Loop)]

    def index(self, ev):
        for i, e in enumerate(self.st.trace):
            if e is ev:
                return i
            if isinstance(e, Loop) and any(x is ev for x, d, l in flat([e])):
                return i
        return -1

    def in_loop(self, ev):
        return not any(e is ev for e in self.st.trace)

    # -- attributes --------------------------------------------------------------

    def final(self, o, name):
        """Value of attribute at the end of the path (initial value token if
        it was not touched)."""
        v = self.st.cells.get((o, name))
        return app('attr', o, const(name)) if v is None else v

    def untouched(self, o, name):
        v = self.st.cells.get((o, name))
        was = app('attr', o, const(name))
        return v is None or v is was or any(
            self.A.decide(self.st, self.A.pred2(op, v, was)) is True
            for op in ('is', 'eq'))

    def at(self, upto, o, name):
        """Value of attribute before top level event ``upto``."""
        v = app('attr', o, const(name))
        for e in self.st.trace:
            if e is upto:
                break
            if isinstance(e, Ev) and e.f is o:
                if e.kind == 'setattr' and e.args[0] is const(name):
                    v = e.args[1]
                elif e.kind == 'delattr' and e.args[0] is const(name):
                    v = DELETED
        if v is app('attr', o, const(name)):
            # never set, as it is known to hold some value already
            for k, y in self.st.facts.items():
                if y is True and is_app(k, 'is') and v in k.a[1:]:
                    w = k.a[2] if k.a[1] is v else k.a[1]
                    if w.tag != 'const':
                        return w
        return v

    def segs(self, v=None):
        v = self.val if v is None else v
        return self.A.segs_of(self.st, v)

    def map_log(self, d):
        return self.A.map_log(self.st, d)

    def doubt(self):
        """Reason why this path is not fully understood, or None."""
        if self.st.taint:
            return 'constructs not understood: %s' % ', '.join(
                sorted(map(str, self.st.taint)))
        if not self.ok and any(is_app(v, 'raised') and is_app(v.a[1], 'rec')
                               for v in subterms(self.val)):
            return 'fails like the function calling itself'
        for x in (self.val, self.st.trace, tuple(self.st.cells.values()),
                  tuple(self.st.facts), tuple(self.st.maps.values()),
                  tuple(self.st.lists.values())):
            for v in subterms(x):
                if v.tag == 'top':
                    return 'value not understood: %s' % (v.a,)
                if v.tag == 'seq' and len(v.a) > 1 and any(
                        isinstance(g, tuple) and g[:1] == ('unknown',)
                        for g in v.a[1]):
                    return 'elements not understood'
                if is_app(v, 'while'):
                    return 'loop not understood'
                if is_app(v, 'strm') and v.a[1] in PARTED:
                    return 'parts of a text not understood'
                if is_app(v, 'ret') and v.a[1].tag == 'bi' and \
                        str(v.a[1].a[0]).partition('.')[0] in UNMODELLED:
                    return 'result of %s not understood' % v.a[1].a[0]
        return None

    def known(self, *vals):
        """Raise Unknown unless all values are understood."""
        for v in vals:
            if v is not None and bad_value(v):
                raise Unknown('value not understood: %s' % show(v))
        return True

    def describe(self):
        out = []

        def line(e, ind):
            if isinstance(e, Loop):
                out.append(ind + 'for each %s:' % show(e.src))
                for g, evs in sorted(e.alts, key=repr):
                    if len(e.alts) > 1:
                        out.append(ind + '  case ' + guards(g))
                    for x in evs:
                        line(x, ind + '    ')
                return
            w = '%s:%s ' % (os.path.basename(e.where[0]), e.where[1]) \
                if len(e.where) > 1 else ''
            if e.kind == 'setattr':
                t = '%s.%s = %s' % (show(e.f), cval(e.args[0]) if is_const(
                    e.args[0]) else show(e.args[0]), show(e.args[1]))
            elif e.kind == 'call':
                t = 'call %s%s' % (show(e.f), show(tuple(e.args)))
            elif e.kind == 'mcall':
                t = 'call %s.%s%s' % (show(e.f), cval(e.args[0]) if is_const(
                    e.args[0]) else show(e.args[0]), show(tuple(e.args[1:])))
            elif e.kind == 'raise':
                t = 'which fails'
            else:
                t = '%s %s %s' % (e.kind, show(e.f), show(tuple(e.args)))
            out.append(ind + w + t)

        def guards(g):
            return ' and '.join('%s%s' % ('' if v else 'not ', show(p))
                                for p, v in sorted(g, key=repr))
        fs = [(p, v) for p, v in self.st.facts.items()
              if not is_app(p, 'hasattr')]
        if fs:
            out.append('when ' + guards(fs))
        for e in self.st.trace:
            line(e, '  ')
        out.append(('returns ' if self.ok else 'raises ') + show(self.val))
        return out


class Violation(object):
    def __init__(self, what, where, fn, path=None):
        self.what = what
        self.where = where
        self.fn = fn
        self.path = path


class Checker(object):
    """Collects the obligations of one property."""

    def __init__(self, A, pid):
        self.A = A
        self.prog = A.prog
        self.pid = pid
        self.violations = []
        self.undecided = []
        self.held = 0
        self.rules = {}
        self.functions = set()
        self.paths = 0
        self.missing = []
        self.current = None
        self.known_keys = set()
        self.thorough = False

    # -- anchors -------------------------------------------------------------

    def q(self, dotted):
        """Class behind a public name, e.g. 'node.behaviors.Adopt'."""
        mod, _, name = dotted.rpartition('.')
        v = self.A.glob_value(mod, name) if mod in self.prog.modules else None
        if v is None or v.tag != 'cls':
            raise Missing(dotted)
        return v.a[0]

    def glob(self, dotted):
        mod, _, name = dotted.rpartition('.')
        v = self.A.glob_value(mod, name) if mod in self.prog.modules else None
        if v is None:
            raise Missing(dotted)
        return v

    def cls(self, dotted):
        return mk('cls', self.q(dotted))

    def where_cls(self, q):
        cd = self.prog.classes[q]
        return (cd.mod.path, cd.node.lineno, q)

    def where_of(self, fn):
        if fn is None:
            return ('', 0, '')
        if fn.tag == 'bound':
            fn = fn.a[0]
        if fn.tag == 'pipe':
            fs, end = self.A.views[fn.a[0]].pipes[fn.a[1]]
            fn = fs[0] if fs else end
        if fn is not None and fn.tag == 'fn':
            fd = self.A.fns[fn.a[0]]
            m = self.prog.modules[fd.mod]
            return (m.path, fd.node.lineno, fd.qual)
        return ('', 0, show(fn))

    # -- running ---------------------------------------------------------------

    def failing(self, run, *args, **kw):
        """Run with every operation on opaque objects able to fail."""
        self.A.all_fail = True
        try:
            return run(*args, **kw)
        finally:
            self.A.all_fail = False

    def call(self, fn, args, kw=None, st=None, mod=None, label=''):
        A = self.A
        A.steps = 0
        w = self.where_of(fn)
        self.functions.add(w[2])
        self.current = w
        if st is None:
            st = State()
        try:
            rs = A.call(st, fn, list(args), dict(kw or {}), None,
                        Ctx(mod or 'node'))
        except (Limit, RecursionError) as e:
            raise Unknown('%s: %s' % (w[2], e))
        ps = [Path(A, r, label or w[2]) for r in rs]
        self.paths += len(ps)
        return ps

    def plumb(self, q, name, args, kw=None, st=None, view=None):
        """Paths of one plumbing function, everything below opaque.

        ``args`` excludes _next; the first is self.
        """
        fn = self.A.plumb_fn(q, name)
        if fn is None:
            if any(n == name for n, k, f, o in self.A.instructions(q)):
                raise Unknown('%s.%s is no plumbing function' % (q, name))
            self.rule(self.pid + '.plumbed', 'the behavior intercepts the '
                      'operations the property needs it to')
            self.violate(self.pid + '.plumbed', '%s does not intercept %s, '
                         'which never reaches it' % (
                             q.split('.')[-1], name), self.where_cls(q))
            raise Skip()
        return self.call(fn, [NEXT] + list(args), kw, st)

    def member(self, q, name):
        v = self.A.mixin_view(q) if self.A.is_behavior(q) else \
            self.A.class_view(q)
        m = v.members.get(name)
        if m is None:
            raise Missing('%s.%s' % (q, name))
        return m

    def options(self, fn):
        """Names of the optional parameters of a function."""
        if fn is None or not fn.a or fn.a[0] not in self.A.fns:
            return []
        a = self.A.fns[fn.a[0]].node.args
        return [x.arg for x in a.args[len(a.args) - len(a.defaults):]] + [
            x.arg for x in a.kwonlyargs]

    def me(self, q, kind='node', name='self'):
        v = self.A.mixin_view(q) if self.A.is_behavior(q) else \
            self.A.class_view(q)
        return sym(name, kind, v.name)

    def method(self, q, name, args, kw=None, st=None, kind='node'):
        """Paths of a method of a class or behavior on an opaque instance."""
        m = self.member(q, name)
        if m.tag == 'prop':
            m = m.a[0]
        if m.tag == 'pipe':
            fn = self.A.plumb_fn(q, name)
            if fn is not None and self.A.is_behavior(q):
                return self.call(fn, [NEXT, self.me(q, kind)] + list(args),
                                 kw, st)
        if is_app(m, 'classm'):
            return self.call(m.a[1], list(args), kw, st)
        if is_app(m, 'static'):
            return self.call(m.a[1], list(args), kw, st)
        return self.call(m, [self.me(q, kind)] + list(args), kw, st)

    # -- judging ----------------------------------------------------------------

    def rule(self, key, text):
        self.rules[key] = text

    def each(self, key, paths, pred, text=None, fatal=False):
        """Judge every path by pred(path): a true string or list of strings
        is a violation. Paths left by an exit or interrupt are judged if
        ``fatal``."""
        if text:
            self.rules[key] = text
        for p in paths:
            if p.fatal and not fatal:
                continue
            self.judge(key, lambda: pred(p), p)

    def judge(self, key, thunk, path=None, where=None, text=None):
        if text:
            self.rules[key] = text
        where = where or self.current or ('', 0, '')
        try:
            r = thunk()
        except Unknown as e:
            self.undecided.append((key, where[2], str(e)))
            return
        except Exception as e:
            if os.environ.get('SA_DEBUG'):
                raise
            self.undecided.append((key, where[2], 'internal error: %s: %s' % (
                type(e).__name__, e)))
            return
        if not r:
            self.held += 1
            return
        if isinstance(r, str):
            r = [r]
        if path is not None:
            why = path.doubt()
            if why:
                self.undecided.append((key, where[2], why))
                return
        for x in r:
            self.violations.append(Violation('%s: %s' % (key, x), where,
                                             where[2], path))

    def violate(self, key, what, where=None, path=None):
        self.violations.append(Violation('%s: %s' % (key, what),
                                         where or self.current or
                                         ('', 0, ''), '', path))

    def part(self, f, *args, **kw):
        """Run a part of a specification; limits make it undecided."""
        try:
            return f(*args, **kw)
        except Unknown as e:
            self.undecided.append((f.__name__, (self.current or
                                                ('', 0, ''))[2], str(e)))
        except Missing as e:
            self.missing.append(str(e))
        except Skip:
            pass
        except Exception as e:
            # a form of code this specification did not expect
            if os.environ.get('SA_DEBUG'):
                raise
            self.undecided.append((getattr(f, '__name__', '?'), (
                self.current or ('', 0, ''))[2], 'internal error: %s: %s' % (
                    type(e).__name__, e)))


NEXT = sym('_next', 'callable')
KEY = sym('key', 'any')
VAL = sym('val', 'any')


def raised(f, *args):
    return app('raised', f, tup(*args))


def _composed(self, name, behaviors, kind='node', opaque=()):
    """View of a class plumbed from behaviors with everything missing below
    kept opaque; returns (view, self token)."""
    A = self.A
    qs = [self.q(b) for b in behaviors]
    vname = 'spec:' + name
    view = A.views.get(vname)
    if view is None:
        view = A.compose(vname, qs, opaque=opaque)
    return view, sym('self', kind, vname)


def _vcall(self, view, me, name, args, kw=None, st=None):
    m = view.members.get(name)
    if m is None:
        raise Missing('%s.%s' % (view.name, name))
    if m.tag == 'prop':
        return self.call(m.a[0], [me], kw, st)
    return self.call(m, [me] + list(args), kw, st)


Checker.composed = _composed
Checker.vcall = _vcall


def _protocol(self, q, names):
    """View of a class on which the given methods are kept opaque; returns
    (view, self token).  Behaviors are looked at on their own."""
    A = self.A
    vname = 'op:%s:%s' % (q, ','.join(sorted(names)))
    v = A.views.get(vname)
    if v is None:
        import copy
        v = copy.copy(A.mixin_view(q) if A.is_behavior(q) else
                      A.class_view(q))
        v.name = vname
        v.opaque = set(v.opaque) | set(names)
        A.views[vname] = v
    return v, sym('self', 'node', vname)


Checker.protocol = _protocol
