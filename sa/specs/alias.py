"""C16, C17: aliased keys and translation of keys."""
from ..interp import Ctx
from ..lib import (KEY, NEXT, NONE, VAL, State, Unknown, app, bi, const, cval,
                   is_app, is_const, mentions, mentions_any, mk, show,
                   subterms, sym, tup)
from .reference import all_of

CTX = Ctx('node')
ENUM = 'zope.interface.common.mapping.IEnumerableMapping'


def C16(c):
    q = c.q('node.behaviors.Alias')
    me = c.me(q)
    AL = app('attr', me, const('aliaser'))
    c.part(default_aliaser, c, q)
    for name, args in (('__getitem__', []), ('__setitem__', [VAL]),
                       ('__delitem__', [])):
        c.part(access, c, q, me, AL, name, args)
    c.part(iterate, c, q, me, AL)


def default_aliaser(c, q):
    def j():
        for r in c.A.load(State(), mk('cls', q), 'aliaser', None, CTX):
            if r.ok and r.val is not NONE:
                raise Unknown('default aliaser is %s' % show(r.val))
    c.judge('C16.default', j, text='without aliaser nothing is translated')


def access(c, q, me, AL, name, rest):
    def j(p0):
        out = []
        null = p0.A.pred2('is', AL, NONE)
        was = p0.st.facts.get(null)
        if was is None and p0.st.facts.get(app('truthy', AL)) is not None:
            out.append('whether there is an aliaser is decided by its truth '
                       'value, an empty one is false')
            return out
        has = [p0.st.facts[x] for x in (app('hasattr', AL, const(n))
                                        for n in ('alias', 'unalias'))
               if x in p0.st.facts]
        if was is None and has:
            # what has no such method is no aliaser
            return judge(p0, not has[0])
        for p, (no,) in p0.cases(null):
            out += judge(p, no)
        return out

    def judge(p, no):
        calls = p.calls(NEXT)
        un = [e for e in p.events('mcall', AL)
              if e.args and e.args[0] is const('unalias')]
        al = [e for e in p.events('mcall', AL)
              if e.args and e.args[0] is const('alias')]
        if al:
            return ['the key is translated to an alias instead of back']
        if no:
            if un:
                return ['an aliaser is used though there is none']
            k = KEY
        else:
            if p.events('raise', AL):
                if calls:
                    return ['passed on though the alias is refused']
                if p.ok:
                    return ['a refused alias is ignored']
                if keyerror_of(p):
                    e = [x for x in p.events('raise', AL)][-1].args[0]
                    if e.tag == 'exc' and p.A.exc_isa(
                            p.st, e, bi('KeyError')) is False:
                        return ['an error of the aliaser other than '
                                'KeyError is replaced']
                    return []
                if not any(e.args[0] is p.val
                           for e in p.events('raise', AL)):
                    return ['error of the aliaser is replaced by %s' % show(
                        p.val)]
                return []
            if len(un) < 1:
                return ['the key is not translated by the aliaser']
            if any(e.args[1:] != (KEY,) for e in un):
                return ['%s is translated instead of the alias given' % show(
                    un[0].args[1:])]
            k = un[0].res
        if len(calls) != 1:
            return ['is passed on %d times' % len(calls)]
        a = calls[0].args
        if a[0] is not me or a[1:2] != (k,):
            if not no and a[1:2] == (KEY,):
                return ['the alias is passed on instead of the key it '
                        'translates to']
            return ['passed on for %s' % show(tuple(a[1:2]))]
        if list(a[2:]) != rest or calls[0].kw:
            return ['passed on with %s' % show(tuple(a[2:]))]
        if p.events('raise', NEXT):
            e = [x for x in p.events('raise', NEXT)][-1].args[0]
            if p.ok:
                return ['an error of the layers below is swallowed']
            missing = p.A.exc_isa(p.st, e, bi('KeyError'))
            if missing is False:
                if not p.passes_on(NEXT):
                    return ['an error other than KeyError is replaced by %s'
                            % show(p.val)]
            elif keyerror_of(p):
                if missing is None:
                    return ['an error which is no KeyError is replaced as '
                            'well']
            elif missing is True or p.passes_on(NEXT):
                if p.passes_on(NEXT):
                    if k is KEY:
                        return []
                    return ['a missing child is reported by its key instead '
                            'of the alias used']
                return ['a missing child is reported as %s' % show(p.val)]
            return []
        if not p.ok:
            return ['fails with %s' % show(p.val)]
        if name == '__getitem__' and p.val is not calls[0].res:
            return ['returns %s' % show(p.val)]
        return []

    c.each('C16.%s' % name.strip('_'), c.plumb(q, name, [me, KEY] + rest), j,
           '%s: exactly one _next with aliaser.unalias(key) (the key itself '
           'iff aliaser is None) and the same value; its KeyError becomes '
           'KeyError of the alias given, other errors pass unchanged' % name)


def keyerror_of(p):
    """Raises KeyError naming the key the caller used."""
    return not p.ok and p.val.tag == 'exc' and p.val.a[1] == (KEY,) and \
        p.raises('KeyError')


def fact(p, guards, pred):
    for g, v in guards:
        if g is pred:
            return v
    return p.holds(pred)


def iterate(c, q, me, AL):
    null = c.A.pred2('is', AL, NONE)
    ienum = app('providedBy', mk('glob', *ENUM.rpartition('.')[::2]), AL)

    def enum_fact(p, guards):
        for g, v in list(guards) + list(p.st.facts.items()):
            if is_app(g, 'providedBy') and g.a[2] is AL and \
                    show(g.a[1]).endswith('IEnumerableMapping'):
                return v
        return None

    def err_fact(p, guards):
        out = None
        for g, v in list(guards) + list(p.st.facts.items()):
            if is_app(g, 'isinstance') and g.a[2] is bi('KeyError') and \
                    mentions(g.a[1], const('alias')):
                out = v
        return out

    def j(p):
        calls = p.calls(NEXT)
        if len(calls) != 1 or calls[0].args != (me,):
            return 'the layers below are not iterated exactly once'
        if p.st.facts.get(null) is None and not any(
                g is null for l in p.loops() for gs, e in l.alts
                for g, v in gs) and any(
                    is_app(g, 'truthy') and g.a[1] is AL
                    for g in facts_of(p)):
            return 'whether there is an aliaser is decided by its truth value'
        src = all_of(calls[0].res)
        if not p.ok:
            if p.events('raise', NEXT) and p.passes_on(NEXT):
                return
            if p.events('raise') and any(
                    e.args[0] is p.val for e in p.events('raise')) and \
                    p.val.tag == 'exc' and mentions(p.val, const('alias')):
                if p.raises('KeyError') and enum_fact(p, ()) is True:
                    return 'a key not listed by a whitelisting aliaser ' \
                        'ends iteration with an error'
                return
            if not p.raises('KeyError') and p.val.tag == 'exc' and is_app(
                    p.val.a[2], 'raised'):
                return
            return 'iteration fails with %s' % show(p.val)
        for l in p.loops():
            if l.src is src and l.partial:
                return 'iteration ends before all keys were seen'
        segs = p.segs()
        if segs == () and p.st.facts.get(app('truthy', src)) is False:
            return
        if segs is None or len(segs) != 1 or segs[0][0] != 'many':
            if segs == ():
                return 'nothing is iterated'
            raise Unknown('iterates %s' % (show(p.val),))
        _, s, el, alts = segs[0]
        if s is not src and s is not calls[0].res:
            if is_app(s) and s.a[0] in ('unordered', 'sorted', 'reversed') \
                    and s.a[1] in (src, calls[0].res):
                return 'keys are iterated in another order'
            if not mentions(s, src) and not mentions(s, calls[0].res) and \
                    mentions(s, AL):
                return 'aliases are iterated in the order of the aliaser'
            raise Unknown('iterates %s' % show(s))
        out = []
        for guards, items in sorted(alts, key=repr):
            no = fact(p, guards, null)
            vals = [x[1] for x in items if x[0] == 'item']
            if len(vals) != len(items):
                raise Unknown('iterates several keys for one')
            if len(vals) > 1:
                out.append('a key is iterated %d times' % len(vals))
            elif not vals:
                if no is True:
                    out.append('keys are hidden without aliaser')
                elif err_fact(p, guards) is not True:
                    if any(is_app(g, 'isinstance') for g, v in guards):
                        out.append('errors other than KeyError of the '
                                   'aliaser are swallowed')
                    else:
                        out.append('keys are hidden though they have an '
                                   'alias')
                elif enum_fact(p, guards) is not True:
                    out.append('keys the aliaser refuses are hidden though '
                               'it is not whitelisting')
            elif vals[0] is el:
                if no is not True:
                    out.append('keys are not translated' if no is False else
                               'keys are not translated if there is an '
                               'aliaser')
            elif is_app(vals[0], 'mret') and vals[0].a[1] is AL:
                if vals[0].a[2] is not const('alias'):
                    out.append('keys are translated by %s' % show(
                        vals[0].a[2]))
                elif vals[0].a[3] is not tup(el):
                    out.append('%s is translated' % show(vals[0].a[3]))
                elif no is True:
                    out.append('an aliaser is used though there is none')
            else:
                raise Unknown('iterates %s' % show(vals[0]))
        return out
    c.each('C16.iter', c.plumb(q, '__iter__', [me]), j, '__iter__: one item '
           'per key of _next, aliaser.alias(key) (the key itself iff aliaser '
           'is None); a key is left out only on KeyError of an aliaser '
           'providing IEnumerableMapping, other errors are raised')


def facts_of(p):
    out = list(p.st.facts)
    for l in p.loops():
        for g, e in l.alts:
            out += [x for x, v in g]
    return out


# -- round trip -----------------------------------------------------------------

AL = 'node.behaviors.alias.'
TEXT = sym('key', 'str')
PRE, SUF = sym('prefix', 'str'), sym('suffix', 'str')


def C17(c):
    c.part(affixes, c, AL + 'PrefixAliaser', [PRE], (PRE,), ())
    c.part(affixes, c, AL + 'SuffixAliaser', [SUF], (), (SUF,))
    c.part(affixes, c, AL + 'PrefixSuffixAliaser', [PRE, SUF], (PRE,), (SUF,))
    c.part(affixes, c, AL + 'PrefixSuffixAliaser', [PRE, NONE], (PRE,), ())
    c.part(affixes, c, AL + 'PrefixSuffixAliaser', [NONE, SUF], (), (SUF,))
    for n in ('PrefixAliaser', 'SuffixAliaser', 'PrefixSuffixAliaser'):
        c.part(affixes, c, AL + n, [], (), ())
    c.part(chain, c)
    c.part(dictionary, c)


def method(c, p, me, name):
    v = c.A.view_of(p.st, me)
    m = v and v.members.get(name)
    if m is None:
        raise Unknown('%s has no %s' % (show(me), name))
    return m


def cut(v):
    """A slice of a text by other bounds than the affixes."""
    return is_app(v, 'slice') and len(v.a) == 4 and (
        v.a[2] in (NONE, const(0)) or v.a[3] is NONE)


def affixes(c, dotted, args, pre, suf):
    cls = c.cls(dotted)
    name = dotted.rpartition('.')[2]
    key = 'C17.affix'
    text = 'prefix and suffix aliasers: alias(key) is prefix + key + ' \
        'suffix, unalias(alias(key)) is the key, alias(unalias(a)) is a; ' \
        'KeyError exactly for an alias not matching a prefix or suffix set'
    c.rule(key, text)
    def translated(p, pre, suf):
        if not p.ok:
            return 'a key has no alias: %s' % show(p.val)
        parts = []
        for x in pre + (None,) + suf:
            if x is None:
                parts.append(TEXT)
            else:
                t = p.truth(x)
                if t is None:
                    # an empty text adds nothing
                    t = p.holds(p.A.pred2('is', x, NONE)) is False
                if t:
                    parts.append(x)
        if p.val is not p.A.cat(parts):
            return 'alias of key is %s' % show(p.val)

    def back(p):
        if not p.ok:
            return 'translating an alias back fails with %s' % show(p.val)
        if p.val is not TEXT:
            if is_app(p.val, 'cat') or cut(p.val) or is_const(p.val) or \
                    is_app(p.val, 'before') or is_app(p.val, 'after') or \
                    is_app(p.val, 'upto') or is_app(p.val, 'beyond') or \
                    p.val in (PRE, SUF):
                return 'translating an alias back gives %s' % show(p.val)
            raise Unknown('translating an alias back gives %s' % show(p.val))

    def refused(p):
        if not p.raises('KeyError'):
            return 'an alias is refused with %s' % show(p.val)
        for f, v in p.st.facts.items():
            if v is False and f.tag == 'app' and f.a[0] in (
                    'startswith', 'endswith') and mentions_any(
                        f.a[2], (PRE, SUF)):
                return
        if any(f.tag == 'app' and f.a[0] in ('startswith', 'endswith')
               for f in p.st.facts) or not any(
                   mentions(f, TEXT) for f in p.st.facts):
            return 'an alias which matches is refused'
        raise Unknown('an alias is refused when %s' % show(p.val))

    def forth(p):
        if not p.ok or p.val is not TEXT:
            if p.ok and not cut(p.val) and any(
                    x.tag == 'app' and x.a[0] in ('slice', 'mret', 'ret')
                    for x in subterms(p.val)):
                if not any(cut(x) for x in subterms(p.val)):
                    raise Unknown('gives %s' % show(p.val))
            if p.ok and any(is_app(x, 'loopend') for x in subterms(p.val)):
                raise Unknown('gives %s' % show(p.val))
            return 'an alias not matching %s is accepted, giving a key ' \
                'whose alias is %s' % (name, show(p.val))

    for p in c.call(cls, list(args)):
        if not p.ok:
            c.judge(key, lambda: 'cannot be created: %s' % show(p.val), p)
            continue
        me = p.val
        for p2 in c.call(method(c, p, me, 'alias'), [me, TEXT],
                         st=p.st.copy()):
            c.judge(key, lambda: translated(p2, pre, suf), p2)
            if not p2.ok:
                continue
            for p3 in c.call(method(c, p, me, 'unalias'), [me, p2.val],
                             st=p2.st.copy()):
                c.judge(key, lambda: back(p3), p3)
        for p2 in c.call(method(c, p, me, 'unalias'), [me, TEXT],
                         st=p.st.copy()):
            if not p2.ok:
                c.judge(key, lambda: refused(p2), p2)
                continue
            for p3 in c.call(method(c, p, me, 'alias'), [me, p2.val],
                             st=p2.st.copy()):
                c.judge(key, lambda: forth(p3), p3)


def chain(c):
    cls = c.cls(AL + 'AliaserChain')
    X = [sym('aliaser%d' % i, 'any') for i in range(3)]
    whole = sym('chain', 'list')
    key = 'C17.chain'
    c.rule(key, 'AliaserChain: alias applies alias of each aliaser in '
           'order, unalias applies unalias of each in reverse order; decided '
           'for a chain of any length and spelled out up to three')

    def names(a):
        def j(p):
            if not p.ok:
                return 'fails with %s' % show(p.val)
            m, order = a
            want = TEXT
            for x in order:
                want = app('mret', x, const(m), tup(want), tup(), const(0))
            v = p.val
            got = v
            seq = []
            while is_app(got, 'mret') and is_const(got.a[2]) and \
                    len(got.a[3].a) == 1:
                seq.append((got.a[1], cval(got.a[2])))
                got = got.a[3].a[0]
            seq.reverse()
            if got is not TEXT:
                raise Unknown('gives %s' % show(v))
            if seq != [(x, m) for x in order]:
                return '%s of a chain of %d applies %s' % (
                    m, len(order), ', '.join('%s of %s' % (n, show(x))
                                             for x, n in seq) or 'nothing')
        return j

    def general(m):
        src = app('keys', whole)
        if m == 'unalias':
            src = app('reversed', src)

        def j(p):
            if not p.ok:
                return 'fails with %s' % show(p.val)
            v = p.val
            if not is_app(v, 'fold'):
                raise Unknown('gives %s' % show(v))
            step = v.a[3]
            if v.a[1] is not src:
                if v.a[1] in (app('keys', whole),
                              app('reversed', app('keys', whole))):
                    return '%s applies the aliasers in %s order' % (
                        m, 'reverse' if m == 'alias' else 'the same')
                raise Unknown('iterates %s' % show(v.a[1]))
            if v.a[2] is not TEXT:
                return '%s starts with %s' % (m, show(v.a[2]))
            if not is_app(step, 'mret'):
                raise Unknown('applies %s' % show(step))
            if step.a[2] is not const(m):
                return '%s applies %s of the aliasers' % (m, show(step.a[2]))
            if not step.a[3].a or not is_app(step.a[3].a[0], 'hole') and \
                    step.a[3].a[0].tag != 'hole':
                return '%s translates %s by each aliaser' % (
                    m, show(step.a[3]))
        return j
    for n in range(4):
        for p in c.call(cls, [tup(*X[:n])]):
            if not p.ok:
                continue
            for m in ('alias', 'unalias'):
                order = X[:n] if m == 'alias' else X[:n][::-1]
                c.each(key, c.call(method(c, p, p.val, m), [p.val, TEXT],
                                   st=p.st.copy()), names((m, order)))
    for p in c.call(cls, [whole]):
        if not p.ok:
            c.judge(key, lambda: 'cannot be created: %s' % show(p.val), p)
            continue
        c.judge(key, lambda: None if any(
            mentions(v, whole) for (o, n), v in p.st.cells.items()
            if o is p.val) else 'the chain given is not kept', p)
        for m in ('alias', 'unalias'):
            c.each(key, c.call(method(c, p, p.val, m), [p.val, TEXT],
                               st=p.st.copy()), general(m))


def dictionary(c):
    q = c.q(AL + 'DictAliaser')
    me = c.me(q)
    STRICT = app('attr', me, const('strict'))
    key = 'C17.dict'
    c.rule(key, 'DictAliaser: alias gives a key whose entry is the given '
           'value, unalias the entry of the alias; without entry KeyError if '
           'strict, the argument unchanged otherwise; strict is the default '
           'and taken from the constructor, as is the data')
    data, strict = sym('data', 'any'), sym('strict', 'any')

    def init(want):
        def j(p):
            if not p.ok:
                return
            got = set(r.val for r in c.A.load(
                p.st.copy(), p.val, 'strict', None, CTX) if r.ok)
            if got != {want}:
                return 'strict is %s' % ', '.join(show(x) for x in got)
            if not any(e for e in p.events('call') if data in e.args) and \
                    not any(e for e in p.events() if data in e.args and
                            e.kind in ('mcall', 'mupdate')):
                return 'the data given is not taken'
        return j
    c.each(key, c.call(mk('cls', q), [data], {'strict': strict}),
           init(strict))
    c.each(key, c.call(mk('cls', q), [data]), init(const(True)))

    def listed(p):
        """Whether the argument is known (not) to be an entry's value."""
        for l in p.loops():
            if not mentions(l.src, me):
                continue
            if l.partial:
                continue
            none = p.never(l.src)
            ok = all(dict(gs) in none or
                     any(v is False and is_app(g, 'eq') and mentions(g, TEXT)
                         for g, v in gs) for gs, evs in l.alts)
            if ok:
                return False
        for f, v in p.st.facts.items():
            if f.tag == 'app' and f.a[0] in ('in', 'exists') and mentions(
                    f, TEXT) and mentions(f, me):
                return v
        return None

    def failing(p):
        """An own error of the dictionary, no missing entry."""
        return [e for e in p.events('raise') if e.args and
                is_app(e.f, 'iter')]

    def alias(p):
        strict = p.truth(STRICT)
        if failing(p):
            return
        if p.ok and p.val is TEXT:
            if strict is not False:
                return 'a key not listed is returned unchanged in strict ' \
                    'mode'
            is_listed = listed(p)
            if is_listed is True:
                return 'a listed key is not translated'
            if is_listed is None:
                if not any(mentions(e, me) for f in p.st.facts
                           for e in (f,) if not is_app(f, 'truthy')) and \
                        not p.loops():
                    return 'keys are not translated without strict mode'
                raise Unknown('returns the key when ?')
            return
        if p.ok:
            v = p.val
            same = [p.holds(p.A.pred2(o, TEXT, app('item', me, v)))
                    for o in ('eq', 'is')]
            if True in same:
                return
            if is_app(v, 'item') or v.tag == 'const' or is_app(
                    v, 'found') and True in [
                        p.holds(p.A.pred2(o, TEXT, v)) for o in ('eq', 'is')]:
                return 'alias of key is %s' % show(v)
            raise Unknown('alias of key is %s' % show(v))
        if not p.raises('KeyError'):
            return 'fails with %s' % show(p.val)
        if strict is False:
            return 'a key not listed is refused though not strict'
        if strict is None:
            return 'a key not listed is refused in non strict mode as well'
        is_listed = listed(p)
        if is_listed is True:
            return 'a listed key is refused'
        if is_listed is None:
            raise Unknown('a key is refused when ?')

    def unalias(p):
        strict = p.truth(STRICT)
        item = app('item', me, TEXT)
        inside = p.st.facts.get(app('in', TEXT, me))
        missing = [e for e in p.events('raise', me)]
        if p.ok and p.val is item:
            return
        if p.ok and p.val is TEXT:
            if strict is not False:
                return 'an alias not listed is returned unchanged in ' \
                    'strict mode'
            if inside is True:
                return 'a listed alias is not translated'
            if inside is None and not missing:
                return 'an alias is returned without looking it up'
            return
        if p.ok:
            if is_app(p.val, 'mret'):
                raise Unknown('gives %s' % show(p.val))
            return 'an alias is translated to %s' % show(p.val)
        if missing and p.A.exc_isa(p.st, missing[-1].args[0],
                                   bi('KeyError')) is False:
            return
        if missing and p.val is missing[-1].args[0] and (
                inside is True or strict is True):
            return
        if not p.raises('KeyError'):
            return 'fails with %s' % show(p.val)
        if strict is False:
            return 'an alias not listed is refused though not strict'
        if strict is None:
            return 'an alias not listed is refused in non strict mode as well'
        if inside is True:
            return 'a listed alias is refused'
    c.each(key, c.call(c.member(q, 'alias'), [me, TEXT]), alias)
    c.each(key, c.call(c.member(q, 'unalias'), [me, TEXT]), unalias)
