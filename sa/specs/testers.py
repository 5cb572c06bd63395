"""C42: the contract tester reports exactly what conforms.

The mapping under test is a `foreign` object: nothing about it is taken for
granted, the result of each of its methods is a term of its own. A test
function of the tester is right if every path on which it returns is one on
which the deviations it looks for are known to be absent.
"""
import ast

from ..interp import Loop, State
from ..lib import (FALSE, NONE, Unknown, app, bi, const, cval, is_app, is_const,
                   mentions, show, subterms, sym)

BASE = 'node.testing.base.BaseTester'
FULL = 'node.testing.fullmapping.FullMappingTester'

# operations of IFullMapping and what python 2 has besides
CONTRACT = ('__setitem__', '__getitem__', 'get', '__iter__', 'keys',
            'iterkeys', 'values', 'itervalues', 'items', 'iteritems',
            '__contains__', 'has_key', '__len__', 'update', '__delitem__',
            'copy', 'setdefault', 'pop', 'popitem', 'clear')


def C42(c):
    c.rule('C42.run', 'each entry of the contract is tested once, in order, '
           'by the function named after it')
    c.rule('C42.outcome', 'OK is reported if the test returned, its error '
           'otherwise, under the name of the entry')
    c.rule('C42.missing', 'an entry without a test function is refused')
    c.rule('C42.error', 'errors are passed on if so demanded, and collected '
           'otherwise')
    c.part(run, c)
    c.part(combined, c)
    c.part(wherefrom, c)
    c.part(contract, c)
    c.part(context, c)
    for name in CONTRACT:
        c.part(tester, c, name)


# running --------------------------------------------------------------------

def run(c):
    q = c.q(BASE)
    me = c.me(q, 'plain')
    rs = c.method(q, 'results', [], kind='plain')
    if len(rs) != 1 or not rs[0].ok:
        raise Unknown('results')
    results = rs[0].val
    st = State()
    names = sym('contract', 'any')
    st.cells[(me, 'iface_contract')] = names
    ps = c.method(q, 'run', [], st=st, kind='plain')
    direct = app('truthy', app('attr', me, const('direct_error')))
    c.each('C42.run', ps, lambda p: order(p, names) if p.ok else None)
    c.each('C42.outcome', ps, lambda p: outcomes(p, names, results, direct))
    c.each('C42.missing', ps, lambda p: missing(p, names))
    c.each('C42.error', ps, lambda p: errors(p, me, direct))


def is_test(f):
    """The test function got by name."""
    return any(is_const(x, 'str') and 'test_' in cval(x) for x in subterms(f))


def main_loop(p, names):
    out = []
    for l in p.loops():
        if mentions(l.src, names) and any(
                runs(evs) for g, evs in l.alts):
            out.append(l)
    return out


def runs(evs):
    """Calls of test functions among events."""
    return [e for e in evs if not isinstance(e, Loop) and
            e.kind in ('call', 'mcall') and is_test(e.f)]


def order(p, names):
    ls = main_loop(p, names)
    every = [l for l in p.loops() if mentions(l.src, names)]
    if not ls:
        if every or any(mentions(k, names) for k in p.st.facts):
            if any(l.alts for l in every) or not every:
                raise Unknown('running of tests')
            return None
        return 'tests are not run'
    if len(ls) > 1:
        raise Unknown('tests in several loops')
    l = ls[0]
    if l.src is not app('keys', names):
        if is_app(l.src, 'sorted') or is_app(l.src, 'reversed'):
            return 'tests are not run in the order of the contract'
        raise Unknown('tests run for %s' % show(l.src))
    if l.obj is not NONE:
        return 'tests are run in reverse order'
    if l.partial:
        return 'entries are not tested after %s' % why(p)
    for g, evs in l.alts:
        n = len(runs(evs))
        if n > 1:
            return 'an entry is tested %d times' % n
        if n == 0 and any(isinstance(e, Loop) for e in evs):
            raise Unknown('running of tests')
        if n == 0:
            return 'an entry is not tested if %s' % (' and '.join(
                '%s%s' % ('' if v else 'not ', show(k))
                for k, v in sorted(g, key=repr)) or 'it is in the contract')
        f = runs(evs)[0].f
        if not mentions(f, l.elem):
            raise Unknown('test function %s' % show(f))
        if any(x.tag == 'app' and x.a[0] in ('mret', 'strm', 'slice') and
               mentions(x, l.elem) for x in subterms(f)):
            return 'an entry is tested by %s' % show(f)
    return None


def why(p):
    return ', '.join('%s%s' % ('' if v else 'not ', show(k)) for k, v in
                     sorted(p.st.facts.items(), key=repr)[:2]) or 'one'


def outcomes(p, names, results, direct):
    ls = main_loop(p, names)
    out = []
    for l in ls:
        for g, evs in l.alts:
            out.append(outcome(p, dict(g), evs, l.elem, results, direct))
    # the round left by an error
    if not p.ok and p.val.tag == 'exc':
        tail = [e for e in p.trace if not isinstance(e, Loop)]
        if runs(tail) and p.val.a[2].tag == 'app' and \
                p.val.a[2].a[0] == 'raised' and is_test(p.val.a[2]):
            for e in tail:
                if e.kind == 'mset' and e.f is results and \
                        e.args[1] is const('OK'):
                    out.append('OK is reported for a test which failed')
    return [x for x in out if x]


def outcome(p, g, evs, key, results, direct):
    if any(isinstance(e, Loop) for e in evs):
        raise Unknown('running of tests')
    calls = runs(evs)
    if not calls:
        return None
    at = list(evs).index(calls[-1])
    failed = [e for e in evs if e.kind == 'raise' and e.f is calls[-1].f]
    sets = [e for e in evs if e.kind == 'mset' and e.f is results]
    others = [e for e in evs if e.kind in ('mset', 'setitem', 'mupdate',
                                           'mcall', 'mdel', 'mclear') and
              e not in sets and e not in calls and
              mentions(e.f, results)]
    if others:
        raise Unknown('outcome by %s' % others[0].kind)
    if not sets:
        return 'the outcome of a test which %s is not recorded' % (
            'failed' if failed else 'passed')
    for e in sets:
        if e.args[0] is not key:
            if is_const(e.args[0]) or e.args[0].tag != 'app':
                return 'an outcome is recorded as %s' % show(e.args[0])
            raise Unknown('outcome recorded as %s' % show(e.args[0]))
    v = sets[-1].args[1]
    if not failed:
        if v is const('OK'):
            return None
        if is_const(v) or any(is_const(x, 'str') and 'failed' in cval(x)
                              for x in subterms(v)):
            return 'a test which passed is reported as %s' % show(v)
        raise Unknown('outcome %s' % show(v))
    if g.get(direct) is True:
        return 'the error of a test is not passed on on demand'
    if is_const(v):
        return 'a test which failed is reported as %s' % show(v)
    if not any(x is failed[-1].args[0] for x in subterms(v)):
        raise Unknown('outcome %s' % show(v))
    if not any(is_const(x, 'str') and 'failed' in cval(x)
               for x in subterms(v)):
        return 'a failure is not named as such: %s' % show(v)
    return None


def missing(p, names):
    if p.ok or p.val.tag != 'exc':
        return None
    f = p.st.facts
    lacks = [k for k, v in f.items() if v is False and is_app(k, 'hasattr') and
             is_test(k.a[2])]
    none = [k for k, v in f.items() if v is True and is_app(k, 'is') and
            NONE in k.a[1:] and is_test(k)]
    if p.exc_short == 'ContractError':
        if not lacks and not none:
            # which is there and no test at all
            if any(is_test(k) for k in f):
                raise Unknown('refusal of an entry')
            return 'an entry having a test function is refused'
        return None
    if (lacks or none) and p.exc and p.exc_short != 'ContractError':
        return 'an entry without a test function ends in %s' % p.exc_short
    return None


def errors(p, me, direct):
    if p.ok or p.val.tag != 'exc':
        return None
    v = p.val.a[2]
    if not (v.tag == 'app' and v.a[0] == 'raised' and is_test(v)):
        return None
    if p.holds(direct) is True:
        return None
    if p.holds(app('isinstance', p.val, bi('Exception'))) is False:
        return None
    if p.holds(direct) is False:
        return 'the error of a test ends the run'
    return 'the error of a test ends the run without being demanded to'


# reports --------------------------------------------------------------------

def many_of(c, p, src):
    """The only segment of the lines joined, by elements of a list."""
    v = p.val
    if not is_app(v, 'join') or v.a[1] is not const('\n'):
        raise Unknown('report is %s' % show(v)[:80])
    segs = p.segs(v.a[2])
    if segs is None or len(segs) != 1 or segs[0][0] != 'many':
        raise Unknown('lines of a report')
    return segs[0]


def combined(c):
    q = c.q(BASE)
    rs = c.method(q, 'results', [], kind='plain')
    if len(rs) != 1 or not rs[0].ok:
        raise Unknown('results')
    results = rs[0].val

    def j(p):
        if not p.ok:
            return None
        seg = many_of(c, p, results)
        src, elem = seg[1], seg[2]
        base = src
        if is_app(base, 'sorted'):
            base = base.a[1]
        elif base is app('keys', results):
            return 'results are not sorted by name'
        if base is not app('keys', results):
            raise Unknown('report of %s' % show(src))
        if is_app(src, 'sorted') and (src.a[2] is not NONE or
                                      src.a[3] is not FALSE):
            raise Unknown('results sorted by %s' % show(src))
        for g, items in seg[3]:
            if not items:
                return 'some results are left out'
            if len(items) != 1 or items[0][0] != 'item':
                raise Unknown('lines of a result')
            line = items[0][1]
            if not mentions(line, app('item', results, elem)):
                return 'a line does not show the result'
            rest = [x for x in getattr(line, 'a', ()) if not mentions(
                x, app('item', results, elem))]
            if not any(mentions(x, elem) for x in rest):
                if is_app(line, 'cat'):
                    return 'a line does not show the name'
                raise Unknown('line %s' % show(line))
        return None
    c.each('C42.combined', c.method(q, 'combined', [], kind='plain'), j,
           'the report has a line for each result, sorted by name')


def wherefrom(c):
    q = c.q(BASE)
    me = c.me(q, 'plain')
    st = State()
    names = sym('contract', 'any')
    st.cells[(me, 'iface_contract')] = names
    cls = app('attr', me, const('class_'))

    def j(p):
        if not p.ok:
            return None
        seg = many_of(c, p, names)
        src, elem = seg[1], seg[2]
        if not mentions(src, names):
            raise Unknown('report of %s' % show(src))
        shown = 0
        for g, items in seg[3]:
            if len(items) != 1 or items[0][0] != 'item':
                return 'an entry has %d lines' % len(items)
            line = items[0][1]
            if not mentions(line, elem):
                return 'a line does not show the entry'
            none = any(is_const(x, 'str') and 'not found' in cval(x)
                       for x in subterms(line))
            by = [x for x in subterms(line) if is_app(x, 'attr') and
                  x.a[2] is const('__name__')]
            if any(is_app(x, 'attr') and x.a[2] is const('__bases__')
                   for x in subterms(line)):
                # which base classes are looked at: see below
                shown += 1
                continue
            if any(x.tag == 'seq' for x in subterms(line)):
                raise Unknown('line %s' % show(line)[:80])
            if none and by:
                return 'a line names a class and claims there is none'
            shown += len(by)
        if not shown:
            raise Unknown('classes in report')
        return None

    def direct(p):
        return p.ok and is_app(p.val, 'join') and any(
            is_app(x, 'attr') and x.a[2] is const('__bases__')
            for x in subterms(p.segs(p.val.a[2])))

    ps = c.method(q, 'wherefrom', [], st=st, kind='plain')
    c.each('C42.wherefrom', ps, j, 'each entry is shown with the class it '
           'comes from, or that there is none')
    wrong = any(direct(p) for p in ps)
    c.judge('C42.bases', lambda: 'only direct base classes are looked at, '
            'each of them showing up' if wrong else None,
            text='all base classes are looked at, up to the first one having '
            'the function', where=('src/node/testing/base.py', 1,
                                   'node.testing.base.BaseTester.wherefrom'))


def context(c):
    """What is tested."""
    for q in (c.q(BASE), c.q(FULL)):
        me = c.me(q, 'plain')
        cls, given = sym('class', 'plain'), sym('given', 'plain')

        def j(p):
            if not p.ok:
                return None
            out = []
            if p.final(me, 'class_') is not cls:
                out.append('the class is not kept')
            v = p.final(me, 'context')
            none = p.holds(p.A.pred2('is', given, NONE))
            if none is not True and v is not given:
                if none is None and mentions(v, given):
                    raise Unknown('context %s' % show(v))
                out.append('%s is tested instead of the context given' %
                           show(v))
            if none is True and not any(x is v for x in [
                    e.res for e in p.calls(cls)]):
                out.append('no instance of the class is tested')
            return out
        c.each('C42.context', c.method(q, '__init__', [cls, given],
                                       kind='plain'), j,
               'the context given is tested, else an instance of the class')


def contract(c):
    """The contract names all operations, each with a test function."""
    A = c.A
    q = c.q(FULL)
    view = A.class_view(q)
    node = None
    for n, kind, x in c.prog.classes[q].entries:
        if n == 'iface_contract':
            node = x if kind == 'assign' else None

    def listed():
        try:
            have = list(ast.literal_eval(node))
        except (ValueError, TypeError, SyntaxError):
            raise Unknown('contract is computed')
        for n in CONTRACT:
            if n not in have:
                return '%s is not in the contract' % n
            if have.count(n) > 1:
                return '%s is in the contract %d times' % (n, have.count(n))
        for n in have:
            if 'test_' + n not in view.members:
                return '%s has no test function' % n
        return None
    c.judge('C42.contract', listed, None, c.where_cls(q),
            'the contract names all operations of a full mapping, each '
            'having a test function')


# the tests ------------------------------------------------------------------

class T(object):
    """Paths of one test function, by what is known where it returns."""

    def __init__(self, c, p, me, ctx):
        self.c, self.p, self.me, self.ctx = c, p, me, ctx
        self.A = c.A
        self.nodes = app('truthy', app('attr', me, const('node_checks')))

    def results(self, name, *args):
        """Events of calls of a method of the mapping."""
        out = []
        for e in self.p.events('mcall', self.ctx):
            if e.args[0] is const(name) and (
                    len(args) == len(e.args) - 1 and
                    all(x is None or x is y
                        for x, y in zip(args, e.args[1:]))):
                out.append(e)
        return out

    def one(self, name, *args):
        es = self.results(name, *args)
        if not es:
            if self.p.events('mcall', self.ctx, name):
                raise Unknown('calls of %s' % name)
            return None
        return es[0]

    def op(self, kind, key):
        return [e for e in self.p.events(kind, self.ctx)
                if e.args[0] is const(key)]

    def guards(self):
        """Facts of all complete loops: [(src, elem, [alts])]."""
        return [(l.src, l.elem, [dict(g) for g, evs in l.alts], l)
                for l in self.p.loops() if not l.partial]

    def known(self, a, b, op='is'):
        """Whether two values are known to be identical (equal)."""
        return self.p.holds(self.A.pred2(op, a, b))

    def need(self, a, b, want, what, op='is'):
        got = self.known(a, b, op)
        if got is want:
            return None
        if got is None:
            other = self.known(a, b, 'eq' if op == 'is' else 'is')
            if other is not None or any(
                    mentions(k, a) and mentions(k, b)
                    for k in self.p.st.facts):
                raise Unknown(what)
        return what

    def size(self, v, n, what):
        """The length of a value is known to be n."""
        f = self.p.st.facts
        lens = [v] if is_app(v, 'mret') and v.a[2] is const('__len__') else \
            [app('len', v), app('len', app('keys', v))] + [
                x for k in f for x in subterms(k) if is_app(x, 'len') and
                mentions(x, v)]
        # a set says nothing about how often its elements occur
        sets = [x for x in lens if any(
            y.tag == 'seq' and y.a[0] == 'set' for y in subterms(x))]
        lens = [x for x in lens if x not in sets]
        conds = []
        for k, t in f.items():
            if not any(mentions(k, x) for x in lens):
                continue
            if k.tag == 'app' and k.a[0] in CMP and len(k.a) == 3:
                a, b = k.a[1], k.a[2]
                if a in lens and is_const(b, 'int'):
                    conds.append((CMP[k.a[0]], None, cval(b), t))
                    continue
                if b in lens and is_const(a, 'int'):
                    conds.append((CMP[k.a[0]], cval(a), None, t))
                    continue
            raise Unknown('size by %s' % show(k))
        ok = [x for x in range(0, 12) if all(
            op(x if a is None else a, x if b is None else b) is t
            for op, a, b, t in conds)]
        if n == 0 and not conds:
            if any(v2 is False and (k is app('truthy', v) or
                                    k is app('nonempty', app('keys', v)))
                   for k, v2 in f.items()):
                return None
        if ok == [n]:
            return None
        if not conds and any(mentions(k, v) and not any(
                mentions(k, x) for x in sets) for k in f):
            raise Unknown(what)
        return what

    def each_elem(self, v, cond, what, nodes_only=False):
        """Some complete loop over a value knows cond of each element."""
        if nodes_only and self.p.holds(self.nodes) is False:
            return None
        seen = False
        # None was found among the elements, or none
        if any(t is True and is_app(k, 'is') and NONE in k.a[1:] and any(
                is_app(x, 'found') and mentions(x, v) for x in k.a[1:])
                for k, t in self.p.st.facts.items()):
            raise Unknown(what)
        for src, elem, alts, l in self.guards():
            if not mentions(src, v):
                continue
            bad = False
            for g in alts:
                if nodes_only and g.get(self.nodes) is False:
                    continue
                if not cond(g, elem):
                    bad = True
            if alts and not bad:
                return None
            if any(k for g in alts for k in g):
                seen = True
        # elements sorted out into a list which is known to be empty
        empty = [e.args[0] for e in self.p.events('exhausted')]
        for k, t in self.p.st.facts.items():
            if t is False and is_app(k, 'truthy'):
                empty.append(k.a[1])
            elif t is False and is_app(k, 'nonempty'):
                empty.append(
                    k.a[1].a[1] if is_app(k.a[1], 'keys') else k.a[1])
        for n in empty:
            for g in self.p.segs(n) or ():
                if g[0] != 'many' or not mentions(g[1], v):
                    continue
                if all(nodes_only and dict(gs).get(
                        self.nodes) is False or cond(dict(gs), g[2])
                       for gs, items in g[3] if not items):
                    return None
                seen = True
        # nothing there to be looked at
        if any(t is False and k is app('nonempty', app('keys', v))
               for k, t in self.p.st.facts.items()):
            return None
        f = [k for k in self.p.st.facts if mentions(k, v) and not any(
            is_app(x, 'len') and mentions(x, v) for x in subterms(k))]
        if f:
            raise Unknown(what)
        return what


CMP = {'eq': lambda a, b: a == b, 'is': lambda a, b: a == b,
       'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
       'gt': lambda a, b: a > b, 'ge': lambda a, b: a >= b}


def among(t, x, names):
    """Guard knowing x to be one of the names."""
    def ok(g, x):
        for k, v in g.items():
            if v is True and is_app(k, 'eq') and x in k.a[1:]:
                y = k.a[2] if k.a[1] is x else k.a[1]
                if is_const(y) and cval(y) in names:
                    return True
            if v is True and is_app(k, 'in') and k.a[1] is x:
                return True
        return False
    return ok


def keys_are(t, v, names, what):
    ok = among(t, None, names)
    return [t.size(v, len(names), '%s: any number of keys passes' % what),
            None if not names else
            t.each_elem(v, lambda g, e: ok(g, e),
                        '%s: any keys pass' % what)]


def values_are(t, v, names, what):
    ok = among(t, None, names)
    return [t.size(v, len(names), '%s: any number of values passes' % what),
            t.each_elem(v, lambda g, e: ok(
                g, app('attr', e, const('__name__'))),
                '%s: values of any name pass' % what, True)]


def items_are(t, v, names, what):
    ok = among(t, None, names)

    def key(e):
        return app('unpack', e, const(0))

    def val(e):
        return app('unpack', e, const(1))

    def parts(g):
        # however the two are got at
        ks = [x for k in g for x in subterms(k) if is_app(x, 'unpack') or
              is_app(x, 'item')]
        return ks

    def first(g, e):
        return any(ok(g, x) for x in parts(g) if mentions(x, e) and
                   x.a[2] in (0, const(0)))

    def named(g, e):
        return any(v is True and k.a[0] == 'eq' and any(
            is_app(x, 'attr') and x.a[2] is const('__name__') and
            mentions(x, e) for x in k.a[1:]) and any(
                mentions(x, e) and not is_app(x, 'attr') for x in k.a[1:])
            for k, v in g.items())

    def same(g, e):
        return any(v is True and k.a[0] == 'is' and any(
            is_app(x, 'item') and x.a[1] is t.ctx and mentions(x, e)
            for x in k.a[1:]) for k, v in g.items())
    return [t.size(v, len(names), '%s: any number of items passes' % what),
            t.each_elem(v, first, '%s: items of any key pass' % what),
            t.each_elem(v, named, '%s: items whose value has another name '
                        'pass' % what, True),
            t.each_elem(v, same, '%s: items with other values than those '
                        'looked up pass' % what)]


def listing(name, check):
    def j(t):
        if name == '__iter__':
            v = t.ctx
            if not any(mentions(l.src, v) and not any(
                    is_app(x, 'mret') for x in subterms(l.src))
                    for l in t.p.loops()):
                if t.results('__iter__'):
                    v = t.results('__iter__')[0].res
                else:
                    return ['__iter__ is not tested']
        else:
            e = t.one(name)
            if e is None:
                return ['%s is not tested' % name]
            v = e.res
        return check(t, v, ('foo', 'bar'), name)
    return j


def t_setitem(t):
    out = []
    for k in ('foo', 'bar'):
        es = t.op('setitem', k)
        if not es:
            out.append('__setitem__ is not tested with %s' % k)
        elif t.p.events('raise', t.ctx):
            out.append('an error of __setitem__ passes')
    if t.p.holds(t.nodes) is not False and t.op('setitem', 'bar'):
        v = t.op('setitem', 'bar')[-1].args[1]
        if is_app(v, 'mret') and v.a[1] is t.me and not any(
                x is const('name') for x in subterms(v.a[4])) and \
                not v.a[3].a:
            out.append('__setitem__ is not tested with a node of another '
                       'name')
    return out


def t_getitem(t):
    out = []
    if not t.op('getitem', 'foo'):
        out.append('__getitem__ is not tested')
    if any(e.kind == 'raise' for e, d, l in t.p.flat() if e.f is t.ctx):
        out.append('an error of __getitem__ passes')
    if t.p.holds(t.nodes) is not False:
        v = app('attr', app('item', t.ctx, const('bar')), const('__name__'))
        vs = [x for k in t.p.st.facts for x in subterms(k)
              if is_app(x, 'attr') and x.a[2] is const('__name__')]
        out.append(t.need(vs[0] if vs else v, const('bar'), True,
                          'a child of another name passes', 'eq'))
    return out


def absent(k):
    """A key no test adds."""
    return is_const(k) and cval(k) not in ('foo', 'bar', 'baz', 'blub')


def t_get(t):
    out = []
    foo = t.one('get', const('foo'), None)
    xxx = [e for e in t.results('get', None, None) if absent(e.args[1])]
    xxx = xxx[0] if xxx else None
    if foo is None or xxx is None:
        return ['get is not tested']
    out.append(t.need(foo.res, foo.args[2], False,
                      'the default for an existing child passes'))
    out.append(t.need(xxx.res, xxx.args[2], True,
                      'something else than the default for a missing child '
                      'passes'))
    return out


def inside(t, k, want):
    f = t.p.holds(app('in', const(k), t.ctx))
    if f is None:
        for x, v in t.p.st.facts.items():
            if is_app(x, 'in') and x.a[1] is const(k) and x.a[2] is t.ctx:
                f = v
    return f is want


def t_contains(t):
    out = []
    for k in ('foo', 'bar'):
        if not inside(t, k, True):
            out.append('__contains__ not finding %s passes' % k)
    if not any(v is False and is_app(x, 'in') and x.a[2] is t.ctx and
               absent(x.a[1]) for x, v in t.p.st.facts.items()):
        out.append('__contains__ finding a missing key passes')
    return [x for x in out if x]


def t_has_key(t):
    out = []
    for k in ('foo', 'bar'):
        es = t.results('has_key', const(k))
        if not es:
            out.append('has_key is not tested with %s' % k)
        elif t.p.truth(es[0].res) is not True:
            if any(mentions(x, es[0].res) for x in t.p.st.facts) and \
                    t.p.truth(es[0].res) is None:
                raise Unknown('has_key')
            out.append('has_key not finding %s passes' % k)
    return out


def t_len(t):
    es = t.results('__len__')
    if not es:
        if any(mentions(k, t.ctx) for k in t.p.st.facts):
            raise Unknown('__len__')
        return ['__len__ is not tested']
    return [t.size(es[0].res, 2, 'other lengths pass')]


def failed(t, e):
    """The call ended in an error, of the class."""
    tr = [x for x, d, l in t.p.flat()]
    for i, x in enumerate(tr):
        if x is e:
            return i + 1 < len(tr) and tr[i + 1].kind == 'raise' and \
                tr[i + 1].f is e.f and tr[i + 1].args[0]
    return False


def must_fail(t, e, cls, what):
    x = failed(t, e)
    if not x:
        return what
    if t.A.exc_isa(t.p.st, x, bi(cls)) is not True:
        return '%s (any error passes instead of %s)' % (what, cls)
    return None


def t_update(t):
    out = []
    es = t.p.events('mcall', t.ctx, 'update')
    sets = [e for e in es if e.kw]
    if not sets:
        raise Unknown('update by keywords')
    e = sets[0]
    by = dict((k, v) for k, v in e.kw)
    blub = by.get('blub')
    baz = [x for a in e.args[1:] for x in subterms(
        t.A.freeze(t.p.st, a)) if is_app(x, 'mret') and x.a[1] is t.me]
    for k, vs in (('baz', baz), ('blub', [blub] if blub is not None else [])):
        if not vs:
            raise Unknown('update of %s' % k)
        gs = t.op('getitem', k)
        if not gs:
            out.append('%s is not looked up after update' % k)
            continue
        gs = [g for g in gs if g.res.tag == 'app']
        if not gs:
            raise Unknown('lookup of %s' % k)
        rs = [t.known(g.res, v) for g in gs for v in vs]
        if True not in rs:
            out.append(t.need(gs[0].res, vs[0], True,
                              'another value of %s after update passes' % k))
    two = [e for e in es if len(e.args) > 2]
    if not two:
        out.append('update with two arguments is not tested')
    else:
        out.append(must_fail(t, two[0], 'TypeError', 'update with two '
                             'arguments passes'))
    if not t.op('delitem', 'blub'):
        raise Unknown('deletion of the test key')
    return out


def t_delitem(t):
    out = []
    es = t.op('delitem', 'bar')
    if not es:
        return ['__delitem__ is not tested']
    if failed(t, es[0]):
        out.append('an error of __delitem__ passes')
    ks = t.results('keys')
    if not ks:
        ls = [l for l in t.p.loops() if mentions(l.src, t.ctx)]
        if ls or t.p.st.facts:
            raise Unknown('keys after deletion')
        return out + ['any keys after deletion pass']
    return out + keys_are(t, ks[-1].res, ('baz', 'foo'), 'after deletion')


def t_copy(t):
    out = []
    e = t.one('copy')
    if e is None:
        return ['copy is not tested']
    v = e.res
    out.append(t.need(v, t.ctx, False, 'the mapping itself passes as copy'))
    item = [x for x in t.p.events('getitem', v)]
    own = t.op('getitem', 'foo')
    if not item or not own:
        if any(is_app(x, 'item') for k in t.p.st.facts for x in subterms(k)):
            raise Unknown('children of the copy')
        out.append('a copy with other children passes')
    else:
        out.append(t.need(item[0].res, own[-1].res, True,
                          'a copy with other children passes'))
    if t.p.holds(t.nodes) is False:
        return out
    for n, what in (('__name__', 'name'), ('__parent__', 'parent')):
        a = app('attr', v, const(n))
        good = False
        seen = False
        for k, x in t.p.st.facts.items():
            if mentions(k, a):
                seen = True
                good |= x is True and k.a[0] in ('is', 'eq')
        if not good:
            if seen:
                raise Unknown('%s of the copy' % what)
            out.append('a copy with another %s passes' % what)
        if not t.p.untouched(t.ctx, n):
            out.append('the %s of the mapping is not restored' % what)
    return out


def t_setdefault(t):
    out = []
    foo = t.one('setdefault', const('foo'), None)
    bar = t.one('setdefault', const('bar'), None)
    if foo is None or bar is None:
        return ['setdefault is not tested']
    out.append(t.need(foo.res, foo.args[2], False,
                      'setdefault replacing a child passes'))
    out.append(t.need(bar.res, bar.args[2], True,
                      'setdefault not giving the new child passes'))
    e = t.one('items')
    if e is None:
        ks = t.results('keys')
        if ks or t.p.loops():
            raise Unknown('items after setdefault')
        out.append('any items after setdefault pass')
    else:
        out += items_are(t, e.res, ('foo', 'bar', 'baz'), 'after setdefault')
    return out


def t_pop(t):
    out = []
    none = [e for e in t.results('pop', None) if absent(e.args[1])]
    if not none:
        out.append('pop of a missing key is not tested')
    else:
        out.append(must_fail(t, none[0], 'KeyError', 'pop of a missing key '
                             'passes without default'))
    dflt = [e for e in t.results('pop', None, None) if absent(e.args[1])]
    if not dflt:
        out.append('pop with default is not tested')
    else:
        out.append(t.need(dflt[0].res, dflt[0].args[2], True,
                          'pop giving something else than the default '
                          'passes'))
    foo = t.results('pop', const('foo'))
    if not foo:
        return out + ['pop of a child is not tested']
    own = t.op('getitem', 'foo')
    if not own:
        if any(mentions(k, foo[0].res) for k in t.p.st.facts):
            raise Unknown('child popped')
        out.append('pop giving something else than the child passes')
    else:
        out.append(t.need(own[0].res, foo[0].res, True,
                          'pop giving something else than the child passes'))
    ls = t.results('__len__')
    tr = [x for x, d, l in t.p.flat()]
    if len(ls) < 2 or not tr.index(ls[0]) < tr.index(foo[0]) < tr.index(
            ls[-1]):
        if ls:
            raise Unknown('length after pop')
        out.append('pop removing nothing passes')
    else:
        d = [k for k, v in t.p.st.facts.items() if v is True and
             is_app(k, 'eq') and mentions(k, ls[0].res) and
             mentions(k, ls[-1].res)]
        if not d:
            if any(mentions(k, ls[-1].res) for k in t.p.st.facts):
                raise Unknown('length after pop')
            out.append('pop removing nothing passes')
    ks = t.results('keys')
    if not ks:
        if t.p.loops():
            raise Unknown('keys after pop')
        return out + ['any keys after pop pass']
    return out + keys_are(t, ks[-1].res, ('baz', 'bar'), 'after pop')


def t_popitem(t):
    es = t.results('popitem')
    out = []
    if len(es) < 3:
        return ['popitem is not tested until the mapping is empty']
    out.append(must_fail(t, es[-1], 'KeyError', 'popitem of an empty mapping '
                         'passes'))
    if any(failed(t, e) for e in es[:-1]):
        out.append('an error of popitem passes')
    ks = t.results('keys') + t.results('__len__')
    if ks:
        out.append(t.size(ks[0].res, 1, 'popitem removing nothing passes'))
    else:
        lens = [x for k in t.p.st.facts for x in subterms(k)
                if is_app(x, 'len')]
        if lens or t.p.loops():
            raise Unknown('size after popitem')
        out.append('popitem removing nothing passes')
    return out


def t_clear(t):
    es = t.results('clear')
    if not es:
        return ['clear is not tested']
    tr = [x for x, d, l in t.p.flat()]
    ks = [e for e in t.results('keys') if tr.index(e) > tr.index(es[-1])]
    if not ks:
        later = [x for x in tr[tr.index(es[-1]) + 1:]]
        if later or any(is_app(x, 'len') or is_app(x, 'nonempty')
                        for k in t.p.st.facts for x in subterms(k)):
            raise Unknown('keys after clear')
        return ['any keys after clear pass']
    return keys_are(t, ks[-1].res, (), 'after clear')


TESTS = {
    '__setitem__': t_setitem, '__getitem__': t_getitem, 'get': t_get,
    '__iter__': listing('__iter__', keys_are),
    'keys': listing('keys', keys_are),
    'iterkeys': listing('iterkeys', keys_are),
    'values': listing('values', values_are),
    'itervalues': listing('itervalues', values_are),
    'items': listing('items', items_are),
    'iteritems': listing('iteritems', items_are),
    '__contains__': t_contains, 'has_key': t_has_key, '__len__': t_len,
    'update': t_update, '__delitem__': t_delitem, 'copy': t_copy,
    'setdefault': t_setdefault, 'pop': t_pop, 'popitem': t_popitem,
    'clear': t_clear,
}


def tester(c, name):
    q = c.q(FULL)
    me = c.me(q, 'plain')
    ctx = sym('mapping', 'foreign')
    st = State()
    st.cells[(me, 'context')] = ctx
    ps = c.method(q, 'test_' + name, [], st=st, kind='plain')
    judge = TESTS[name]

    def j(p):
        if not p.ok:
            return None
        return [x for x in judge(T(c, p, me, ctx)) if x]
    c.each('C42.' + name, ps, j, 'a mapping passes the test of %s only if '
           'the result was looked at and right' % name)

    def some():
        if not any(p.ok for p in ps):
            if any(p.doubt() for p in ps):
                raise Unknown('test of %s' % name)
            return 'no mapping passes the test of %s' % name
    c.judge('C42.passes', some, None, c.where_cls(q),
            'there are mappings passing each test')
