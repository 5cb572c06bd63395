"""Abstract interpreter: path sensitive, interprocedural, exceptional flow.

Abstract domain: finite provenance tokens (values.py), a cell map for
attributes, operation logs for mappings, segment lists for sequences, branch
facts for correlation.  Loops over unknown sequences and while loops are
summarised by fixpoint iteration with widening; recursion is cut at the second
activation.  Nothing is executed and no solver is used.
"""
import ast
import builtins
import itertools
from collections import namedtuple

from .source import AnalysisBroken
from .values import (FALSE, NONE, TRUE, V, app, bi, boolean, const, cval,
                     is_app, is_const, mentions, mentions_any, mk, show, subst,
                     subterms, sym, tup)

Ev = namedtuple('Ev', 'kind f args kw res where')
Loop = namedtuple('Loop', 'src elem alts live partial where obj')
Res = namedtuple('Res', 'st ok val')

BOOL_OPS = frozenset(['is', 'eq', 'in', 'isinstance', 'providedBy', 'hasattr',
                      'lt', 'le', 'startswith', 'endswith', 'isclass',
                      'issubclass', 'truthy', 'nonempty', 'callable',
                      'isfunction', 'ismethod', 'isdisjoint', 'implementedBy',
                      'intersects', 'subset', 'quantified'])

PY_KINDS = {'str': 'str', 'bytes': 'bytes', 'int': 'int', 'dict': 'dict',
            'list': 'list', 'set': 'set', 'bool': 'bool', 'float': 'float'}

DISJOINT = ['str', 'bytes', 'int', 'list', 'tuple', 'dict', 'set',
            'frozenset', 'float', 'NoneType', 'type', 'function']

DICT_METHODS = frozenset(
    'get pop setdefault update keys values items clear copy popitem iterkeys '
    'itervalues iteritems has_key __iter__ __contains__ __getitem__ '
    '__setitem__ __delitem__ __len__'.split())
DICT_PROTO = DICT_METHODS
LIST_METHODS = frozenset(
    'append remove extend insert pop index count reverse sort copy clear '
    '__iter__ __contains__ __getitem__ __len__'.split())
SET_METHODS = frozenset(
    'add discard remove update intersection union difference isdisjoint '
    'issubset issuperset clear copy pop'.split())
STR_METHODS = frozenset(
    'startswith endswith format join split rsplit strip lstrip rstrip encode '
    'decode replace find rfind index rindex lower upper removeprefix removesuffix '
    'partition rpartition isdigit title count splitlines'.split())


# library functions which always return an object
MAKES_OBJECT = frozenset(bi(n) for n in (
    'uuid.uuid1', 'uuid.uuid3', 'uuid.uuid4', 'uuid.uuid5', 'uuid.UUID',
    'threading.Lock', 'threading.RLock', 'threading.local'))


class Limit(Exception):
    pass


class State(object):
    __slots__ = ('frames', 'cells', 'facts', 'trace', 'lists', 'maps',
                 'epochs', 'taint', 'loops', 'counts', 'memo', 'pending',
                 'kinds', 'cells0')

    def __init__(self):
        self.frames = {}
        self.cells = {}
        self.facts = {}
        self.trace = ()
        self.lists = {}
        self.maps = {}
        self.epochs = {}
        self.taint = frozenset()
        self.loops = {}
        self.counts = {}
        self.memo = {}
        self.pending = ()
        self.kinds = {}
        self.cells0 = {}

    def copy(self):
        n = State.__new__(State)
        n.frames = dict(self.frames)
        n.cells = dict(self.cells)
        n.facts = dict(self.facts)
        n.trace = self.trace
        n.lists = dict(self.lists)
        n.maps = dict(self.maps)
        n.epochs = dict(self.epochs)
        n.taint = self.taint
        n.loops = dict(self.loops)
        n.counts = dict(self.counts)
        n.memo = dict(self.memo)
        n.pending = self.pending
        n.kinds = dict(self.kinds)
        n.cells0 = dict(self.cells0)
        return n

    def var(self, frame, name):
        return self.frames[frame][0].get(name)

    def setvar(self, frame, name, val):
        vs, parent = self.frames[frame]
        vs = dict(vs)
        vs[name] = val
        self.frames[frame] = (vs, parent)

    def delvar(self, frame, name):
        vs, parent = self.frames[frame]
        vs = dict(vs)
        vs.pop(name, None)
        self.frames[frame] = (vs, parent)

    def add(self, ev):
        self.trace = self.trace + (ev,)


class FnDef(object):
    def __init__(self, id, node, mod, qual, defaults, kwdefaults, cls):
        self.id = id
        self.node = node
        self.mod = mod
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.cls = cls
        self.is_gen = False
        self.nonlocals = set()
        self.globals = set()
        self.locals = set()
        body = node.body if isinstance(node.body, list) else [node.body]
        for n in body:
            self._scan(n)
        a = node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            self.locals.add(x.arg)
        if a.vararg:
            self.locals.add(a.vararg.arg)
        if a.kwarg:
            self.locals.add(a.kwarg.arg)
        self.locals -= self.nonlocals | self.globals

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            self.locals.add(n.name)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            # only walrus targets and the first iterable belong to this scope
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    self.locals.add(x.target.id)
            return
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            self.is_gen = True
        if isinstance(n, ast.Nonlocal):
            self.nonlocals.update(n.names)
        if isinstance(n, ast.Global):
            self.globals.update(n.names)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            self.locals.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            self.locals.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                self.locals.add((x.asname or x.name).split('.')[0])
        for c in ast.iter_child_nodes(n):
            self._scan(c)


class Ctx(object):
    """Static context of evaluation."""
    __slots__ = ('mod', 'frame', 'fn', 'cls', 'scope', 'ylist', 'ycb')

    def __init__(self, mod, frame=None, fn=None, cls=None, scope=None,
                 ylist=None, ycb=None):
        self.mod = mod
        self.frame = frame
        self.fn = fn
        self.cls = cls
        self.scope = scope      # (class q, entry index) for class bodies
        self.ylist = ylist
        self.ycb = ycb

    def sub(self, frame):
        return Ctx(self.mod, frame, self.fn, self.cls, self.scope,
                   self.ylist, self.ycb)


class View(object):
    def __init__(self, name):
        self.name = name
        self.members = {}       # name -> V
        self.pipes = {}         # name -> ([plumb fn], endpoint or None)
        self.opaque = set()     # names kept opaque on purpose
        self.provides = set()
        self.bases = set()      # class q's incl. own, for isinstance
        self.ext = set()        # external base class names
        self.owners = {}        # name -> class q that declares it
        self.mixin = False
        self.behaviors = []


class Interp(object):

    MAX_STATES = 1500
    MAX_STEPS = 400000

    def __init__(self, prog):
        self.prog = prog
        self.ids = itertools.count(1)
        self.fns = {}
        self.views = {}
        self.renames = {}
        self.hooks = {}
        self.mhooks = {}            # (object, method) -> effect on the state
        self.globs = {}
        self.globinfo = {}
        self.globcls = {}
        self.glob_active = set()
        self.entry_cache = {}
        self.stack = []             # active function ids (recursion cut)
        self.handlers = []          # dynamically enclosing handlers
        self.excs = []              # exceptions being handled
        self.steps = 0
        self.cover = set()          # functions analysed
        self.call_sites = set()
        self.opaque_fns = set()     # quals kept opaque
        self.inits = {}
        self._later = {}
        self.descrs = set()
        self.gframes = {}
        self.ctor = {}              # mapping class of allocations

    # ======================================================================
    # program level
    # ======================================================================

    def module(self, name):
        return self.prog.modules[name]

    def mod_ctx(self, mod):
        st = State()
        return st, Ctx(mod)

    def glob_value(self, mod, name):
        """Abstract value of a module level name, None if unbound."""
        key = (mod, name)
        if key in self.globs:
            return self.globs[key]
        r = self.prog.find(mod, name)
        if r is None:
            return None
        if r[0] == 'ext':
            v = bi(r[1])
        elif r[0] == 'extmod':
            v = bi(r[1])
        elif r[0] == 'mod':
            v = mk('mod', r[1])
        else:
            kind, m, node, extra = r
            own = self._owner_name(m, node, kind, extra, name)
            okey = (m.name, own)
            if okey in self.globs:
                v = self.globs[okey]
            elif okey in self.glob_active:
                return mk('glob', m.name, own)
            else:
                self.glob_active.add(okey)
                try:
                    v = self._eval_binding(m, own, kind, node, extra)
                finally:
                    self.glob_active.discard(okey)
                self.globs[okey] = v
        self.globs[key] = v
        return v

    def _owner_name(self, m, node, kind, extra, name):
        for n, bs in m.bindings.items():
            if bs[-1][1] is node and bs[-1][2] == extra and \
                    bs[-1][0] == kind:
                if n == name:
                    return n
        for n, bs in m.bindings.items():
            if bs[-1][1] is node and bs[-1][2] == extra:
                return n
        return name

    def _eval_binding(self, m, name, kind, node, extra):
        if kind == 'class':
            return mk('cls', m.name + '.' + name)
        st, ctx = self.mod_ctx(m.name)
        saved = self.stack, self.handlers, self.excs, self.steps
        self.stack, self.handlers, self.excs = [], [], []
        try:
            if kind == 'def':
                rs = self.make_def(node, st, ctx, m.name + '.' + name)
            else:
                rs = self.ev(node.value, st, ctx)
                if extra is not None:
                    rs = [r for r in rs if r.ok and r.val.tag == 'tup' and
                          len(r.val.a) > extra]
                    rs = [Res(r.st, True, r.val.a[extra]) for r in rs]
        finally:
            self.stack, self.handlers, self.excs, self.steps = saved
        oks = [r for r in rs if r.ok]
        if len(oks) == 1:
            return self._globalize(oks[0].st, oks[0].val, m.name, name)
        vals = set(r.val for r in oks)
        if len(vals) == 1 and oks:
            return self._globalize(oks[0].st, oks[0].val, m.name, name)
        g = mk('glob', m.name, name)
        return g

    def _globalize(self, st, v, mod, name):
        """Turn allocations made at import time to unique global tokens."""
        self.gframes.update(st.frames)
        if v.tag == 'ref':
            g = mk('glob', mod, name)
            self.globinfo[g] = (self.kind(st, v), self.view_of(st, v))
            self.globcls[g] = v.a[1] if len(v.a) > 1 else None
            cells = {}
            for (o, a), val in st.cells.items():
                if o is v:
                    cells[a] = val
            self.inits[g] = cells
            if v in st.maps:
                self.inits[(g, 'map')] = st.maps[v]
            if v in st.lists:
                self.inits[(g, 'list')] = st.lists[v]
            return g
        if v.tag == 'bound':
            return mk('bound', v.a[0], self._globalize(st, v.a[1], mod,
                                                       name + '.__self__')
                      if v.a[1].tag == 'ref' else v.a[1])
        if is_app(v, 'ret') or v.tag == 'top':
            g = mk('glob', mod, name)
            self.globinfo[g] = (None, None)
            if is_app(v, 'ret'):
                self.globcls[g] = v.a[1]
            return g
        return v

    # -- classes -----------------------------------------------------------

    def cinfo(self, q):
        return self.prog.classes.get(q)

    def class_bases(self, q):
        ci = self.cinfo(q)
        out = []
        st, ctx = self.mod_ctx(ci.mod.name)
        for b in ci.node.bases:
            rs = self.ev(b, st.copy(), ctx)
            for r in rs:
                if r.ok:
                    out.append(r.val)
                    break
        return out

    def class_decos(self, q):
        """(plumbing behaviors, implemented interfaces)"""
        ci = self.cinfo(q)
        st, ctx = self.mod_ctx(ci.mod.name)
        plb, ifs = [], []
        for d in ci.node.decorator_list:
            rs = [r for r in self.ev(d, st.copy(), ctx) if r.ok]
            if not rs:
                continue
            v = rs[0].val
            if is_app(v, 'deco'):
                if v.a[1] == const('plumbing'):
                    plb = list(v.a[2].a)
                elif v.a[1] == const('implementer'):
                    ifs += list(v.a[2].a)
        return plb, ifs

    def is_behavior(self, q, seen=()):
        for b in self.class_bases(q):
            if b.tag == 'bi' and b.a[0] in ('plumber.Behavior',
                                            'plumber.behavior.Behavior'):
                return True
            if b.tag == 'cls' and b.a[0] in self.prog.classes and \
                    b.a[0] not in seen and \
                    self.is_behavior(b.a[0], seen + (q,)):
                return True
        return False

    def entry_value(self, q, i):
        key = (q, i)
        if key in self.entry_cache:
            return self.entry_cache[key]
        ci = self.cinfo(q)
        name, kind, node = ci.entries[i]
        st, _ = self.mod_ctx(ci.mod.name)
        ctx = Ctx(ci.mod.name, cls=q, scope=(q, i))
        if kind == 'class':
            v = mk('glob', ci.mod.name, q.split('.')[-1] + '.' + name)
        else:
            saved = self.stack, self.handlers, self.excs, self.steps
            self.stack, self.handlers, self.excs = [], [], []
            self.entry_cache[key] = mk('top', 'recursive class attribute')
            try:
                if kind == 'def':
                    rs = self.make_def(node, st, ctx, q + '.' + name)
                else:
                    rs = self.ev(node, st, ctx)
            finally:
                self.stack, self.handlers, self.excs, self.steps = saved
            oks = [r for r in rs if r.ok]
            if oks:
                v = oks[0].val
                if v.tag == 'instr':
                    pv = self._globalize(oks[0].st, v.a[1], ci.mod.name,
                                         q.split('.')[-1] + '.' + name)
                    v = mk('instr', v.a[0], self.descriptor(pv))
                else:
                    v = self.descriptor(self._globalize(
                        oks[0].st, v, ci.mod.name,
                        q.split('.')[-1] + '.' + name))
            else:
                v = mk('top', 'class attribute %s.%s' % (q, name))
        self.entry_cache[key] = v
        return v

    def descriptor(self, v):
        """A class attribute whose class defines ``__get__`` is read and
        written by it."""
        view = self.globinfo.get(v, (None, None))[1] \
            if v.tag == 'glob' else None
        if view is None or view.members.get('__get__', NONE).tag not in \
                ('fn', 'pipe'):
            return v
        self.descrs.add(v)
        m = view.members
        w = m.get('__set__', NONE)
        d = m.get('__delete__', NONE)
        return mk('prop', app('dget', m['__get__'], v),
                  mk('bound', w, v) if w.tag in ('fn', 'pipe') else NONE,
                  mk('bound', d, v) if d.tag in ('fn', 'pipe') else NONE)

    def own_entries(self, q):
        """Last binding wins; returns ordered dict name -> V (may be instr)."""
        ci = self.cinfo(q)
        out = {}
        for i, (name, kind, node) in enumerate(ci.entries):
            out.pop(name, None)
            out[name] = self.entry_value(q, i)
        return out

    def instructions(self, q):
        """List of (name, kind, payload, owner) as plumber collects them."""
        key = ('instr', q)
        if key in self.entry_cache:
            return self.entry_cache[key]
        out = []
        for name, v in self.own_entries(q).items():
            if v.tag == 'instr':
                out.append((name, v.a[0], v.a[1], q))
        for b in self.class_bases(q):
            if b.tag != 'cls' or b.a[0] not in self.prog.classes:
                continue
            for ins in self.instructions(b.a[0]):
                if any(x[:3] == ins[:3] for x in out):
                    continue
                if ins[0] in [x[0] for x in out if x[1] != 'plumb']:
                    continue
                out.append(ins)
        self.entry_cache[key] = out
        return out

    def iface_closure(self, v):
        out = set()
        todo = [v]
        while todo:
            x = todo.pop()
            if x in out:
                continue
            out.add(x)
            if x.tag == 'cls' and x.a[0] in self.prog.classes:
                todo += self.class_bases(x.a[0])
        return out

    def iface_names(self, iface):
        """Names an interface of the library promises."""
        cache = self.__dict__.setdefault('_iface_names', {})
        if iface not in cache:
            out = set()
            for x in self.iface_closure(iface):
                cd = x.tag == 'cls' and self.prog.classes.get(x.a[0])
                for n in cd.node.body if cd else ():
                    if isinstance(n, ast.FunctionDef):
                        out.add(n.name)
                    elif isinstance(n, ast.Assign):
                        out |= set(t.id for t in n.targets
                                   if isinstance(t, ast.Name))
            cache[iface] = out
        return cache[iface]

    OBJECT_MEMBERS = frozenset(dir(object))

    def compose(self, vname, behaviors, own=None, bases=(), opaque=(),
                endpoints=(), qname=None, inherited=None):
        """Build the view of a class plumbed from ``behaviors`` (class q's)."""
        view = View(vname)
        view.opaque = set(opaque)
        own = dict(own or {})
        members = {}
        owners = {}
        inherited = {n: (v, view, None)
                     for n, v in (inherited or {}).items()}
        for b in bases:
            if b.tag == 'cls' and b.a[0] in self.prog.classes:
                bv = self.class_view(b.a[0])
                for n, v in bv.members.items():
                    inherited.setdefault(n, (v, bv, bv.owners.get(n)))
                view.bases |= bv.bases
                view.ext |= bv.ext
                view.provides |= bv.provides
            elif b.tag == 'bi':
                view.ext.add(b.a[0])
        members.update(own)
        for n in own:
            owners[n] = qname
        stage1 = {}
        stage2 = {}
        seen = []
        rank = {'default': 0, 'override': 1, 'finalize': 2}
        for q in behaviors:
            view.behaviors.append(q)
            for ins in self.instructions(q):
                name, kind, payload, owner = ins
                if any(x[:3] == ins[:3] for x in seen):
                    continue
                seen.append(ins)
                if kind in ('plumb', 'plumbifexists'):
                    stage2.setdefault(name, []).append((payload, owner))
                else:
                    prev = stage1.get(name)
                    if prev is None or rank[kind] > rank[prev[0]]:
                        stage1[name] = (kind, payload, owner)
            view.bases.add(q)
            todo = [q]
            while todo:
                x = todo.pop()
                plb, ifs = self.class_decos(x)
                for i in ifs:
                    view.provides |= self.iface_closure(i)
                for b in self.class_bases(x):
                    if b.tag == 'cls' and b.a[0] in self.prog.classes:
                        todo.append(b.a[0])
        for name, (kind, payload, owner) in stage1.items():
            if kind == 'default':
                if name in members or name in inherited or \
                        name in self.OBJECT_MEMBERS:
                    continue
            elif name in own:
                continue
            members[name] = payload
            owners[name] = owner
        for n, (v, bv, owner) in inherited.items():
            if n not in members:
                members[n] = v
                owners[n] = owner
                if n in bv.pipes:
                    view.pipes[n] = bv.pipes[n]
        for name, fns in stage2.items():
            endpoint = members.get(name)
            if endpoint is None and name not in endpoints and \
                    name not in self.OBJECT_MEMBERS:
                if any(True for q in behaviors) and vname.startswith('mixin:'):
                    pass
            view.pipes[name] = ([f for f, o in fns], endpoint)
            owners[name] = fns[0][1]
            members[name] = mk('pipe', vname, name, 0)
        view.members = members
        view.owners = owners
        view.bases.add(vname)
        self.views[vname] = view
        return view

    def class_view(self, q):
        if q in self.views:
            return self.views[q]
        ci = self.cinfo(q)
        if ci is None:
            return None
        v = View(q)
        self.views[q] = v       # recursion guard
        plb, ifs = self.class_decos(q)
        own = {}
        for n, x in self.own_entries(q).items():
            own[n] = x.a[1] if x.tag == 'instr' else x
        bases = self.class_bases(q)
        del self.views[q]
        v = self.compose(q, [b.a[0] for b in plb if b.tag == 'cls' and
                             b.a[0] in self.prog.classes],
                         own, bases, qname=q)
        for i in ifs:
            v.provides |= self.iface_closure(i)
        v.bases.add(q)
        return v

    def mixin_view(self, q):
        """Behavior on its own: stage1 members resolved, protocol opaque."""
        name = 'mixin:' + q
        if name in self.views:
            return self.views[name]
        v = self.compose(name, [q])
        v.mixin = True
        # members plumbed by the behavior are entries, seen from self they
        # are some unknown pipeline
        for n in list(v.pipes):
            v.opaque.add(n)
        for n in ('__getitem__', '__setitem__', '__delitem__', '__iter__'):
            v.opaque.add(n)
        return v

    def plumb_fn(self, q, name):
        """The plumb function of behavior q for name."""
        for n, kind, payload, owner in self.instructions(q):
            if n == name and kind == 'plumb':
                return payload
        return None

    def view_of(self, st, v):
        if v.tag == 'ref':
            q = v.a[1] if len(v.a) > 1 else None
            if q in self.prog.classes:
                return self.class_view(q)
            return None
        if v.tag == 'sym':
            return self.views.get(v.a[2]) if v.a[2] else None
        if v.tag == 'glob':
            info = self.globinfo.get(v)
            return info[1] if info else None
        if v in st.kinds and st.kinds[v].startswith('view:'):
            return self.views.get(st.kinds[v][5:])
        return None

    # ======================================================================
    # kinds, facts
    # ======================================================================

    def kind(self, st, v):
        t = v.tag
        if t == 'const':
            return {'NoneType': 'none'}.get(v.a[0], v.a[0])
        if t == 'sym':
            return v.a[1] if v.a[1] != 'any' else self.known_kind(st, v)
        if t == 'ref':
            k = v.a[1] if len(v.a) > 1 else None
            return k if k in ('dict', 'list', 'set') else 'inst'
        if t in ('tup', 'seq'):
            return 'tuple' if t == 'tup' or v.a[0] == 'tuple' else 'iter'
        if t in ('fn', 'bound', 'pipe'):
            return 'function'
        if t == 'cls':
            return 'class'
        if t == 'exc':
            return 'exc'
        if t == 'glob':
            info = self.globinfo.get(v)
            return info[0] if info and info[0] else 'obj'
        if v in st.kinds and not st.kinds[v].startswith('view:'):
            return st.kinds[v]
        if t == 'app':
            op = v.a[0]
            if op in BOOL_OPS or op == 'not':
                return 'bool'
            if op in ('cat', 'slice', 'str', 'fmt', 'repr', 'fstr', 'join',
                      'after', 'before'):
                return 'str'
            if op in ('int', 'len', 'add', 'neg', 'id', 'hash', 'num'):
                return 'int'
            if op == 'ret' and v.a[1] in MAKES_OBJECT:
                return 'obj'
            if op == 'item' and is_app(v.a[1], 'attr') and \
                    is_const(v.a[1].a[2], 'str'):
                k = self.prog.item_kinds.get(cval(v.a[1].a[2]))
                if k is not None:
                    return k
            if op == 'attr' and is_const(v.a[2], 'str'):
                name = cval(v.a[2])
                o = v.a[1]
                view = self.view_of(st, o)
                if view is not None:
                    for q in sorted(view.bases):
                        k = self.prog.class_attr_kinds.get((q, name))
                        if k:
                            return k
                k = self.prog.attr_kinds.get(name)
                if k is not None:
                    return k[0] if not k[1] else k[0] + '?'
            return self.known_kind(st, v)
        return 'any'

    KNOWN_KINDS = tuple((bi(n), n) for n in (
        'str', 'bytes', 'dict', 'list', 'int', 'set', 'tuple'))

    def known_kind(self, st, v):
        """Kind established by a type test on the path."""
        for c, n in self.KNOWN_KINDS:
            if st.facts.get(app('isinstance', v, c)) is True:
                return n
        return 'any'

    def nonnull(self, st, v):
        if v.tag in ('ref', 'fn', 'bound', 'cls', 'tup', 'seq', 'bi', 'mod',
                     'exc', 'pipe', 'glob', 'prop', 'cm'):
            return True
        if v.tag == 'const':
            return cval(v) is not None
        k = self.kind(st, v)
        if k in ('str', 'bytes', 'int', 'bool', 'dict', 'list', 'set', 'node',
                 'callable', 'exc', 'obj', 'tuple', 'iter', 'function'):
            return True
        f = st.facts.get(app('is', v, NONE))
        if f is False:
            return True
        for p in ('truthy', ):
            if st.facts.get(app(p, v)) is True:
                return True
        if is_app(v, 'type') or is_app(v, 'attr') and \
                is_const(v.a[2], 'str') and \
                cval(v.a[2]) in self.only_methods():
            return True
        # a positive type fact excludes None
        for (pred, val) in st.facts.items():
            if val and pred.tag == 'app' and \
                    pred.a[0] in ('isinstance', 'hasattr', 'isclass',
                                  'isfunction', 'ismethod', 'callable') and \
                    pred.a[1] is v:
                return True
            if val and pred.tag == 'app' and pred.a[0] == 'providedBy' and \
                    pred.a[2] is v:
                return True
        return False

    def only_methods(self):
        """Names the repository defines as methods and as nothing else."""
        if self._methods is None:
            out, other = set(), set()
            for ci in self.prog.classes.values():
                for name, kind, n in ci.entries:
                    (out if kind == 'def' and not any(
                        isinstance(x, ast.Name) and x.id == 'property' or
                        isinstance(x, ast.Attribute) and x.attr == 'setter'
                        for d in n.decorator_list for x in ast.walk(d))
                     else other).add(name)
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and not isinstance(
                            n.ctx, ast.Load):
                        other.add(n.attr)
            self._methods = out - other
        return self._methods

    _methods = None

    def pred2(self, op, a, b):
        if op == 'eq':
            for x, y in ((a, b), (b, a)):
                if not is_app(x, 'slice'):
                    continue
                n = self.text_len(None, y)
                if x.a[2] in (NONE, const(0)) and x.a[3] is n:
                    return app('startswith', x.a[1], y)
                if x.a[3] is NONE and n.tag == 'const' and cval(n) and \
                        x.a[2] is const(-cval(n)):
                    return app('endswith', x.a[1], y)
        if op in ('is', 'eq'):
            # constants to the right, else by interning order
            if a.tag == 'const' and b.tag != 'const':
                a, b = b, a
            elif b.tag != 'const' and repr(b) < repr(a):
                a, b = b, a
        return app(op, a, b)

    ALLOC = ('ref', 'fn', 'cls', 'glob', 'bi', 'mod')

    def d_is(self, st, a, b):
        if a is b:
            return True
        if a.tag == 'const' and b.tag == 'const':
            if a.a[0] in ('NoneType', 'bool') or b.a[0] in ('NoneType', 'bool'):
                return False
            return cval(a) == cval(b) if a.a[0] == b.a[0] else False
        for x, y in ((a, b), (b, a)):
            if y is NONE and self.nonnull(st, x):
                return False
            if x.tag == 'ref':
                # fresh objects are only identical to themselves
                if y.tag == 'app' and (y.a[0] in ('loopvar',) or (
                        y.a[0] in ('mret', 'ret') and mentions(y, x))):
                    continue        # or if they were handed over
                if y.tag == 'app' and y.a[0] in ('attr', 'item') and any(
                        is_app(z, 'mret') for z in subterms(y)) and any(
                            isinstance(e, Ev) and e.kind == 'setattr' and
                            e.args[1] is x and e.f.tag != 'ref'
                            for e in st.trace):
                    continue        # or stored, and got from elsewhere
                return False
            if x.tag == 'glob' and y.tag in ('const', 'glob', 'cls', 'fn',
                                             'tup', 'ref'):
                return False
            if x.tag == 'glob' and (
                    is_app(y, 'item') or is_app(y, 'ret') and
                    y.a[1].tag == 'sym') and not mentions(y, x) and \
                    self.private_marker(x):
                return False
            if x.tag in ('cls', 'bi', 'fn') and y.tag in (
                    'cls', 'bi', 'fn', 'const', 'glob'):
                return False
        if b is NONE or a is NONE:
            if st.facts.get(app('truthy', a if b is NONE else b)) is True:
                return False
        return st.facts.get(self.pred2('is', a, b))

    def private_marker(self, g):
        """An object of a module which is only compared, returned and given
        as default, thus nothing which may be stored anywhere."""
        mod, name = g.a[0], g.a[1]
        m = self.prog.modules.get(mod)
        if m is None or not name.startswith('_') or name not in m.bindings \
                or len(m.bindings[name]) != 1:
            return False
        key = ('marker', g)
        if key not in self.entry_cache:
            v = getattr(m.bindings[name][0][1], 'value', None)
            ok = isinstance(v, ast.Call) and isinstance(v.func, ast.Name) \
                and v.func.id == 'object' and not v.args
            n = total = 0
            for x in ast.walk(m.tree) if ok else ():
                if isinstance(x, ast.Name) and x.id == name and \
                        isinstance(x.ctx, ast.Load):
                    total += 1
                if isinstance(x, ast.Compare):
                    n += sum(isinstance(y, ast.Name) and y.id == name
                             for y in [x.left] + x.comparators)
                elif isinstance(x, ast.Return):
                    n += isinstance(x.value, ast.Name) and x.value.id == name
                elif isinstance(x, ast.arguments):
                    n += sum(isinstance(y, ast.Name) and y.id == name
                             for y in x.defaults + x.kw_defaults)
                elif isinstance(x, ast.Call) and x.args and (
                        isinstance(x.func, ast.Name) and
                        x.func.id in ('next', 'getattr') or
                        isinstance(x.func, ast.Attribute) and
                        x.func.attr in ('get', 'pop')):
                    n += isinstance(x.args[-1], ast.Name) and \
                        x.args[-1].id == name
            self.entry_cache[key] = ok and n == total and not any(
                isinstance(x, (ast.Import, ast.ImportFrom)) and any(
                    y.name == name for y in x.names)
                for o in self.prog.modules.values()
                for x in ast.walk(o.tree))
        return self.entry_cache[key]

    def d_eq(self, st, a, b):
        if a is b:
            return True
        if a.tag == 'const' and b.tag == 'const':
            try:
                return bool(cval(a) == cval(b))
            except Exception:
                return None
        i = self.d_is(st, a, b)
        if i is True:
            return True
        f = st.facts.get(self.pred2('eq', a, b))
        if f is not None:
            return f
        if (self.plain_object(a) or self.plain_object(b)) and (
                a.tag not in ('sym', 'app') and b.tag not in ('sym', 'app')):
            return False
        ka, kb = self.kind(st, a), self.kind(st, b)
        if a.tag in ('cls', 'bi') and b.tag in ('cls', 'bi'):
            return False
        if (b is NONE and self.nonnull(st, a) and ka != 'obj') or \
                (a is NONE and self.nonnull(st, b) and kb != 'obj'):
            return False
        prim = ('str', 'bytes', 'int', 'none', 'tuple', 'dict', 'list')
        if ka in prim and kb in prim and ka != kb:
            if not {ka, kb} <= {'int', 'bool'}:
                return False
        if ka == 'str' and kb == 'str':
            # same concatenation frame
            if is_app(a, 'cat') and b in a.a[1:] and is_const(a.a[1]):
                return False
            for x, y in ((a, b), (b, a)):
                if is_app(x, 'cat') and is_const(y, 'str') and (
                        is_const(x.a[1], 'str') and
                        not cval(y).startswith(cval(x.a[1])) or
                        is_const(x.a[-1], 'str') and
                        not cval(y).endswith(cval(x.a[-1]))):
                    return False
        # number facts
        d = self.numdiff(a, b)
        if d is not None:
            return d == 0
        return None

    def numdiff(self, a, b):
        """Constant difference of two linear terms or None."""
        la, lb = self.linear(a), self.linear(b)
        if la is None or lb is None:
            return None
        if la[0] == lb[0] and la[0]:
            return la[1] - lb[1]
        return None

    def linear(self, v):
        """(base terms multiset, const) for int terms."""
        if is_const(v) and v.a[0] in ('int', 'bool'):
            return ((), int(cval(v)))
        if is_app(v, 'num'):
            return (v.a[1], v.a[2])
        if isinstance(v, V) and v.tag != 'const':
            return (((v, 1),), 0)
        return None

    def num(self, terms, c):
        d = {}
        for t, k in terms:
            d[t] = d.get(t, 0) + k
        ts = tuple(sorted(((t, k) for t, k in d.items() if k),
                          key=lambda x: repr(x[0])))
        if not ts:
            return const(c)
        if len(ts) == 1 and ts[0][1] == 1 and c == 0:
            return ts[0][0]
        return app('num', ts, c)

    TYPE_OF_KIND = {'str': 'str', 'bytes': 'bytes', 'int': 'int',
                    'bool': 'bool', 'dict': 'dict', 'list': 'list',
                    'set': 'set', 'none': 'NoneType', 'tuple': 'tuple',
                    'function': 'function', 'float': 'float',
                    'class': 'type'}

    def plain_object(self, v):
        """Made by ``object()``."""
        return (v.tag == 'ref' and len(v.a) > 1 and v.a[1] == 'object') or \
            (v.tag == 'glob' and self.globcls.get(v) == 'object')

    def d_isinstance(self, st, v, c):
        """c: single class value."""
        if c.tag == 'tup':
            rs = [self.d_isinstance(st, v, x) for x in c.a]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.tag == 'bi' and c.a[0] == 'object':
            return True
        f = st.facts.get(app('isinstance', v, c))
        if f is not None:
            return f
        if v.tag == 'exc':
            r = self.exc_isa(st, v, c)
            return r
        k = self.kind(st, v)
        tn = self.TYPE_OF_KIND.get(k)
        if c.tag == 'bi':
            cn = c.a[0]
            if tn is not None:
                if cn == tn:
                    return True
                if tn == 'bool' and cn == 'int':
                    return True
                if cn in DISJOINT or cn == 'bool':
                    if tn == 'dict' and cn == 'dict':
                        return True
                    return False
                if tn in ('dict',) and cn.endswith('odict'):
                    return None
                return False
            if k in ('node', 'inst') and cn in ('str', 'bytes', 'int', 'list',
                                                'tuple', 'set', 'float',
                                                'NoneType', 'bool', 'type'):
                return False
            if self.plain_object(v):
                return False
            view = self.view_of(st, v)
            if view is not None and (v.tag in ('ref', 'glob')):
                if any(e.split('.')[-1] == cn.split('.')[-1]
                       for e in view.ext):
                    return True
                return False
            # correlation between known facts
            for (p, val) in st.facts.items():
                if p.tag == 'app' and p.a[0] == 'isinstance' and p.a[1] is v:
                    o = p.a[2]
                    if o.tag != 'bi':
                        continue
                    on = o.a[0]
                    if val:
                        if on in DISJOINT and cn in DISJOINT and on != cn:
                            return False
                        if on == 'bool' and cn == 'int':
                            return True
                        if on == 'bool' and cn in DISJOINT:
                            return False
                    else:
                        if on == 'int' and cn == 'bool':
                            return False
            if v.tag != 'const' and cn == 'NoneType':
                return self.d_is(st, v, NONE)
            if st.facts.get(app('is', v, NONE)) is True:
                return False
            return None
        if c.tag == 'cls':
            if tn is not None:
                return False
            view = self.view_of(st, v)
            if view is not None:
                if c.a[0] in view.bases:
                    return True
                if v.tag in ('ref', 'glob'):
                    return False
            if st.facts.get(app('is', v, NONE)) is True:
                return False
            return None
        return None

    # -- exceptions ----------------------------------------------------------

    def exc_mro(self, name):
        """Names of all classes an exception class derives from."""
        short = name.split('.')[-1]
        if name in self.prog.classes:
            out = [name]
            for b in self.class_bases(name):
                bn = b.a[0]
                out += self.exc_mro(bn)
            return out
        c = getattr(builtins, short, None)
        if isinstance(c, type) and issubclass(c, BaseException):
            return [x.__name__ for x in c.__mro__]
        return [name, 'Exception', 'BaseException', 'object']

    def exc_isa(self, st, e, c):
        """Is exception value e an instance of class value c?"""
        if c.tag == 'tup':
            rs = [self.exc_isa(st, e, x) for x in c.a]
            if True in rs:
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.tag not in ('bi', 'cls'):
            return st.facts.get(app('isinstance', e, c))
        cn = c.a[0]
        if cn in ('BaseException', 'object'):
            return True
        if e.tag == 'exc' and e.a[0]:
            return cn in self.exc_mro(e.a[0]) or \
                cn.split('.')[-1] in self.exc_mro(e.a[0])
        f = st.facts.get(app('isinstance', e, c))
        if f is not None:
            return f
        known = []
        for (p, val) in st.facts.items():
            if p.tag == 'app' and p.a[0] == 'isinstance' and p.a[1] is e and \
                    p.a[2].tag in ('bi', 'cls'):
                on = p.a[2].a[0]
                if val:
                    if cn in self.exc_mro(on):
                        return True
                    known.append(on)
                elif on in self.exc_mro(cn):
                    return False
        # unrelated siblings are taken as disjoint
        for on in known:
            if on not in self.exc_mro(cn):
                return False
        return None

    def exc_value(self, name, args=(), origin=None):
        return mk('exc', name, tuple(args), origin or NONE)

    # -- assume ---------------------------------------------------------------

    def decide(self, st, p):
        """Truth of a boolean term: True, False or None."""
        if p.tag == 'const':
            return bool(cval(p))
        if p.tag != 'app':
            return None
        op = p.a[0]
        if op == 'not':
            r = self.decide_truth(st, p.a[1])
            return None if r is None else not r
        if op == 'is':
            return self.d_is(st, p.a[1], p.a[2])
        if op == 'eq':
            return self.d_eq(st, p.a[1], p.a[2])
        if op == 'in' and p.a[1].tag == 'app' and p.a[1].a[0] in (
                'elem', 'found', 'first', 'last') and \
                is_app(p.a[1].a[1], 'keys') and \
                p.a[1].a[1].a[1:] == (p.a[2],):
            return True
        if op == 'isinstance':
            return self.d_isinstance(st, p.a[1], p.a[2])
        if op == 'providedBy':
            return self.d_provided(st, p.a[1], p.a[2])
        if op in ('startswith', 'endswith'):
            return self.d_affix(st, op, p.a[1], p.a[2])
        if op in ('lt', 'le'):
            d = None
            a, b = p.a[1], p.a[2]
            if a.tag == 'const' and b.tag == 'const':
                try:
                    return cval(a) < cval(b) if op == 'lt' else \
                        cval(a) <= cval(b)
                except TypeError:
                    return None
            d = self.numdiff(a, b)
            if d is not None:
                return d < 0 if op == 'lt' else d <= 0
            return st.facts.get(p)
        if op == 'hasattr':
            f = st.facts.get(p)
            if f is None and is_const(p.a[2], 'str'):
                for k, t in st.facts.items():
                    if t and is_app(k, 'providedBy') and k.a[2] is p.a[1] \
                            and k.a[1].tag == 'cls' and \
                            cval(p.a[2]) in self.iface_names(k.a[1]):
                        return True
            return f
        if op == 'truthy':
            return self.decide_truth(st, p.a[1])
        if op == 'isclass':
            v = p.a[1]
            if v.tag in ('cls',) or is_app(v, 'type'):
                return True
            if self.kind(st, v) in ('str', 'int', 'dict', 'list', 'none',
                                    'node', 'bytes', 'bool', 'function',
                                    'tuple'):
                if self.kind(st, v) != 'node':
                    return False
            return st.facts.get(p)
        if op in ('isfunction', 'ismethod'):
            v = p.a[1]
            if v.tag == 'fn':
                return op == 'isfunction'
            if v.tag == 'bound':
                return op == 'ismethod'
            if self.kind(st, v) in ('str', 'int', 'dict', 'list', 'none',
                                    'bytes', 'bool', 'tuple', 'class'):
                return False
            return st.facts.get(p)
        return st.facts.get(p)

    def d_provided(self, st, iface, v):
        if iface.tag == 'tup':
            return None
        f = st.facts.get(app('providedBy', iface, v))
        if f is not None:
            return f
        if v.tag in ('const', 'tup', 'seq', 'fn', 'cls', 'bi'):
            return False
        k = self.kind(st, v)
        if k in ('str', 'bytes', 'int', 'bool', 'list', 'dict', 'set', 'none'):
            return False
        if st.facts.get(app('is', v, NONE)) is True:
            return False
        for t in ('str', 'bytes', 'int', 'list', 'tuple', 'type'):
            if st.facts.get(app('isinstance', v, bi(t))) is True:
                return False
        view = self.view_of(st, v)
        if view is not None:
            if iface in view.provides:
                return True
            if v.tag in ('ref',) or (v.tag == 'glob'):
                return False
            if not view.mixin and v.tag == 'sym':
                return None
        if k == 'node' and iface.tag == 'cls' and \
                iface.a[0].endswith('.INode'):
            return True
        # implications between interfaces
        for (p, val) in st.facts.items():
            if p.tag == 'app' and p.a[0] == 'providedBy' and p.a[2] is v \
                    and p.a[1].tag in ('cls', 'bi') and \
                    iface.tag in ('cls', 'bi'):
                if val and iface in self.iface_closure(p.a[1]):
                    return True
                if not val and p.a[1] in self.iface_closure(iface):
                    return False
            if not val and is_app(p, 'hasattr') and p.a[1] is v and \
                    is_const(p.a[2], 'str') and \
                    cval(p.a[2]) in self.iface_names(iface):
                return False
        return None

    def strip_parts(self, v):
        """Concatenation parts of a text term."""
        if is_app(v, 'cat'):
            return list(v.a[1:])
        return [v]

    def cat(self, parts):
        out = []
        for p in parts:
            for q in self.strip_parts(p):
                if is_const(q) and q.a[0] in ('str', 'bytes') and not cval(q):
                    continue
                if out and is_const(q) and is_const(out[-1]) and \
                        q.a[0] == out[-1].a[0]:
                    out[-1] = const(cval(out[-1]) + cval(q))
                else:
                    out.append(q)
        if not out:
            return const('')
        if len(out) == 1:
            return out[0]
        return app('cat', *out)

    def d_affix(self, st, op, s, affix):
        if affix.tag == 'const' and affix.a[0] in ('str', 'bytes') and \
                not cval(affix):
            return True
        if s.tag == 'const' and affix.tag == 'const':
            try:
                return getattr(cval(s), op)(cval(affix))
            except Exception:
                return None
        sp, ap = self.strip_parts(s), self.strip_parts(affix)
        if len(ap) <= len(sp):
            if op == 'startswith' and sp[:len(ap)] == ap:
                return True
            if op == 'endswith' and sp[len(sp) - len(ap):] == ap:
                return True
        return st.facts.get(app(op, s, affix))

    def assume(self, st, p, val):
        """New state where boolean term p has value val, None if impossible."""
        if p.tag == 'const':
            return st if bool(cval(p)) == val else None
        if p.tag == 'app' and p.a[0] == 'not':
            return self.assume_truth(st, p.a[1], not val)
        d = self.decide(st, p)
        if d is not None:
            return st if d == val else None
        if p.a[0] == 'truthy':
            return self.assume_truth(st, p.a[1], val)
        st = st.copy()
        op = p.a[0]
        if op == 'isinstance' and p.a[2].tag == 'tup':
            if not val:
                for c in p.a[2].a:
                    st.facts[app('isinstance', p.a[1], c)] = False
                return st
        st.facts[p] = val
        if op == 'is' and val:
            self.same_object(st, p.a[1], p.a[2])
        if op == 'eq' and not val:
            st.facts[self.pred2('is', p.a[1], p.a[2])] = False
        return st

    def same_object(self, st, a, b):
        """An attribute is known to hold some other object."""
        for x, y in ((a, b), (b, a)):
            if is_app(x, 'attr') and is_const(x.a[2], 'str') and \
                    y.tag in ('sym', 'app', 'ref') and not mentions(y, x):
                o = x.a[1]
                if is_app(y, 'attr') and o.tag == 'sym' and (
                        o.a[0] == 'self' or y.a[1].tag != 'sym'):
                    continue
                k = (o, cval(x.a[2]))
                if st.cells.get(k, x) is x:
                    st.cells[k] = y
                    return

    def decide_truth(self, st, v):
        t = v.tag
        if t == 'const':
            return bool(cval(v))
        if t == 'app' and (v.a[0] in BOOL_OPS or v.a[0] == 'not'):
            return self.decide(st, v)
        if t == 'app' and v.a[0] == 'inter':
            return self.decide(st, app('intersects', v.a[1], v.a[2]))
        if t in ('fn', 'bound', 'cls', 'exc', 'mod', 'bi', 'pipe', 'prop'):
            return True
        if t == 'tup':
            return bool(v.a)
        if t == 'ref' or t == 'seq':
            k = self.kind(st, v)
            segs = None
            if t == 'seq':
                segs = v.a[1]
                if v.a[0] not in ('tuple', 'view', 'list'):
                    return True
            elif k in ('list', 'set') and v in st.lists:
                segs = st.lists[v]
            elif k == 'dict':
                log = st.maps.get(v, ())
                if not log:
                    return False
                if log and log[-1][0] == 'set':
                    return True
                return st.facts.get(app('truthy', v))
            if segs is not None:
                if not segs:
                    return False
                if any(s[0] == 'item' for s in segs):
                    return True
                if len(segs) == 1:
                    x = segs[0]
                    while x[0] in ('rev', 'sorted', 'unordered'):
                        x = x[1] if x[0] == 'rev' else (
                            x[1][0] if len(x[1]) == 1 else ('?',))
                    if x[0] == 'many' and all(
                            any(y[0] == 'item' for y in a[1])
                            for a in x[3]):
                        f = st.facts.get(app('nonempty', x[1]))
                        if f is not None:
                            return f
                return st.facts.get(app('truthy', v))
            return True
        if t == 'glob':
            k = self.kind(st, v)
            if k == 'dict' and self.inits.get((v, 'map')) == ():
                # module level mapping used as marker, never filled
                return False
            if k in ('list', 'set', 'dict'):
                return st.facts.get(app('truthy', v))
            view = self.view_of(st, v)
            if view is not None:
                b = view.members.get('__bool__') or \
                    view.members.get('__nonzero__')
                if b is None and '__len__' not in view.members:
                    return True
                if b is not None:
                    return None
            return None if k == 'obj' and view is None else True
        k = self.kind(st, v)
        f = st.facts.get(app('truthy', v))
        if f is not None:
            return f
        if k == 'node' and v.tag == 'ref':
            return True
        if st.facts.get(app('is', v, NONE)) is True:
            return False
        if is_app(v, 'keys'):
            f = st.facts.get(app('nonempty', v))
            if f is not None:
                return f
        if is_app(v, 'cat'):
            for x in v.a[1:]:
                if self.decide_truth(st, x) is True:
                    return True
        if k == 'str' or k == 'any':
            e = st.facts.get(self.pred2('eq', v, const('')))
            if e is True:
                return False
        if k in ('function', 'class', 'exc'):
            return True
        return None

    def assume_truth(self, st, v, val):
        d = self.decide_truth(st, v)
        if d is not None:
            return st if d == val else None
        if v.tag == 'app' and v.a[0] == 'not':
            return self.assume_truth(st, v.a[1], not val)
        if v.tag == 'app' and v.a[0] == 'truthy':
            return self.assume_truth(st, v.a[1], val)
        if v.tag == 'app' and v.a[0] == 'inter':
            return self.assume(st, app('intersects', v.a[1], v.a[2]), val)
        if v.tag == 'app' and v.a[0] in BOOL_OPS:
            return self.assume(st, v, val)
        st = st.copy()
        st.facts[app('truthy', v)] = val
        if is_app(v, 'keys'):
            st.facts[app('nonempty', v)] = val
        if v.tag in ('ref', 'seq'):
            segs = st.lists.get(v) if v.tag == 'ref' else v.a[1]
            if segs:
                for s in segs:
                    if s[0] == 'many' and (val and len(segs) == 1 or all(
                            any(y[0] == 'item' for y in a[1])
                            for a in s[3])):
                        st.facts[app('nonempty', s[1])] = val
            log = st.maps.get(v)
            if log and len(log) == 1 and log[0][0] in ('loop', 'many') and (
                    val or all(any(y[0] == 'set' for y in a[1])
                               for a in log[0][3])):
                st.facts[app('nonempty', log[0][1])] = val
        return st

    # ======================================================================
    # helpers on results
    # ======================================================================

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.MAX_STEPS:
            raise Limit('step limit')

    def then(self, results, f):
        out = []
        for r in results:
            if r.ok:
                out.extend(f(r.st, r.val))
            else:
                out.append(r)
        if len(out) > self.MAX_STATES:
            raise Limit('state limit')
        return out

    def ok(self, st, v):
        return [Res(st, True, v)]

    def throw(self, st, e):
        return [Res(st, False, e)]

    def raise_new(self, st, name, args=(), origin=None):
        return [Res(st, False, self.exc_value(name, args, origin))]

    def branch(self, st, v, ctx=None):
        """[(state, bool)] for the truth value of v."""
        d = self.decide_truth(st, v)
        if d is not None:
            return [(st, d)]
        if v.tag == 'glob' or (v.tag in ('ref', 'sym')):
            view = self.view_of(st, v)
            if view is not None:
                b = view.members.get('__bool__')
                if b is not None and '__bool__' not in view.opaque and \
                        v.tag == 'glob':
                    out = []
                    for r in self.call(st, b, [v], {}, None, None):
                        if r.ok:
                            out += self.branch(r.st, r.val)
                    if out:
                        return out
        out = []
        for val in (True, False):
            s = self.assume_truth(st, v, val)
            if s is not None:
                out.append((s, val))
        return out

    def split(self, st, p):
        """[(state, bool)] for predicate term p."""
        d = self.decide(st, p)
        if d is not None:
            return [(st, d)]
        out = []
        for val in (True, False):
            s = self.assume(st, p, val)
            if s is not None:
                out.append((s, val))
        return out

    def where(self, node, ctx):
        m = self.prog.modules.get(ctx.mod) if ctx is not None else None
        path = m.path if m else '?'
        line = getattr(node, 'lineno', 0) if node is not None else 0
        fn = ''
        if ctx is not None and ctx.fn is not None:
            fn = self.fns[ctx.fn].qual
        return (path, line, fn)

    def alloc(self, st, kind, node=None, ctx=None):
        r = mk('ref', next(self.ids), kind)
        if kind in ('list', 'set'):
            st.lists[r] = ()
        elif kind == 'dict':
            st.maps[r] = ()
        return r

    def catches(self, name, explicit=False):
        """Would an enclosing handler treat exception class ``name``?"""
        for h in self.handlers:
            if h is None:
                if not explicit:
                    return True
                continue
            for n in h:
                if n == name:
                    return True
                if not explicit and n in ('Exception', 'BaseException'):
                    return True
                if n in self.exc_mro(name) and n not in (
                        'Exception', 'BaseException', 'object'):
                    return True
        return False

    # operations on opaque objects may fail also where nothing handles it
    unroll = 1
    all_fail = False

    def in_try(self):
        return bool(self.handlers) or self.all_fail

    # ======================================================================
    # functions
    # ======================================================================

    def new_frame(self, st, parent):
        f = next(self.ids)
        st.frames[f] = ({}, parent)
        return f

    def make_fn(self, node, st, ctx, qual):
        """Closure value for a def or lambda; default values evaluated."""
        a = node.args
        rs = self.seq_ev(list(a.defaults) +
                         [d for d in a.kw_defaults if d is not None], st, ctx)

        def fin(st, vals):
            n = len(a.defaults)
            defaults = tuple(vals[:n])
            it = iter(vals[n:])
            kwd = {}
            for x, d in zip(a.kwonlyargs, a.kw_defaults):
                if d is not None:
                    kwd[x.arg] = next(it)
            key = (id(node), ctx.frame, defaults, tuple(sorted(
                (k, id(v)) for k, v in kwd.items())))
            fid = self._fn_keys.get(key) if hasattr(self, '_fn_keys') else None
            if not hasattr(self, '_fn_keys'):
                self._fn_keys = {}
            if fid is None:
                fid = next(self.ids)
                self._fn_keys[key] = fid
                self.fns[fid] = FnDef(fid, node, ctx.mod, qual, defaults, kwd,
                                      ctx.cls)
            return self.ok(st, mk('fn', fid, ctx.frame, qual))
        return self.then_list(rs, fin)

    def then_list(self, rs, f):
        out = []
        for st, ok, val in rs:
            if ok:
                out.extend(f(st, val))
            else:
                out.append(Res(st, False, val))
        if len(out) > self.MAX_STATES:
            raise Limit('state limit')
        return out

    def make_def(self, node, st, ctx, qual):
        rs = self.make_fn(node, st, ctx, qual)
        for d in reversed(node.decorator_list):
            def deco(st, v, d=d):
                return self.then(self.ev(d, st, ctx), lambda st, dv: self.call(
                    st, dv, [v], {}, node, ctx))
            rs = self.then(rs, deco)
        return rs

    def bind_args(self, fd, args, kw):
        """dict of parameters or error message."""
        a = fd.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        out = {}
        kw = dict(kw)
        star = kw.pop('*', None)        # unknown positional rest
        dstar = kw.pop('**', None)      # unknown keyword rest
        n = len(pos)
        for name, v in zip(pos, args):
            out[name] = v
        rest = args[n:]
        if rest and not a.vararg:
            return None, 'too many arguments'
        if star is not None and len(args) < n and not a.vararg:
            return None, 'unknown positional arguments'
        ponly = set(x.arg for x in a.posonlyargs)
        extra = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in pos and k not in ponly:
                if k in out:
                    return None, 'multiple values for %s' % k
                out[k] = v
            elif k in konly:
                out[k] = v
            elif a.kwarg:
                extra[k] = v
            else:
                return None, 'unexpected keyword %s' % k
        nd = len(fd.defaults)
        for i, name in enumerate(pos):
            if name not in out:
                j = i - (n - nd)
                if j >= 0:
                    if dstar is not None:
                        return None, 'unknown keyword arguments'
                    out[name] = fd.defaults[j]
                else:
                    return None, 'missing argument %s' % name
        for name in konly:
            if name not in out:
                if name in fd.kwdefaults:
                    out[name] = fd.kwdefaults[name]
                else:
                    return None, 'missing keyword %s' % name
        if a.vararg:
            if star is not None:
                segs = tuple(('item', x) for x in rest) + tuple(star)
                out[a.vararg.arg] = mk('seq', 'tuple', segs) \
                    if any(s[0] != 'item' for s in segs) else \
                    tup(*[s[1] for s in segs])
            else:
                out[a.vararg.arg] = tup(*rest)
        if a.kwarg:
            out['**'] = (a.kwarg.arg, extra, dstar)
        return out, None

    def call_fn(self, st, f, args, kw, node, ctx, ycb=None):
        fid, pframe = f.a[0], f.a[1]
        fd = self.fns[fid]
        self.tick()
        self.cover.add(fd.qual)
        key = id(fd.node)
        depth = sum(1 for k in self.stack if k == key)
        if depth >= self.unroll or len(self.stack) > 40 or fd.qual in self.opaque_fns:
            # recursion cut: an opaque activation with the same contract
            return self.opaque_call(st, app('rec', const(fd.qual)), args, kw,
                                    node, ctx)
        params, err = self.bind_args(fd, args, kw)
        if params is None:
            if err.startswith('unknown'):
                st = st.copy()
                st.taint = st.taint | {'call of %s: %s' % (fd.qual, err)}
                return self.ok(st, mk('top', 'call of ' + fd.qual))
            return self.raise_new(st, 'TypeError', (const(err),),
                                  app('badcall', const(fd.qual)))
        st = st.copy()
        frame = self.new_frame(st, pframe)
        kwinfo = params.pop('**', None)
        f = pframe
        while f is not None and f not in st.frames:
            if f not in self.gframes:
                break
            st.frames[f] = self.gframes[f]
            f = st.frames[f][1]
        for k, v in params.items():
            st.setvar(frame, k, v)
        if kwinfo is not None:
            name, extra, dstar = kwinfo
            d = self.alloc(st, 'dict')
            log = ()
            if dstar is not None:
                log += (('update', dstar),)
            for k, v in extra.items():
                log += (('set', const(k), v),)
            st.maps[d] = log
            if dstar is not None and not extra:
                # the very same unknown keywords
                st.setvar(frame, name, dstar)
            else:
                st.setvar(frame, name, d)
        c = Ctx(fd.mod, frame, fid, fd.cls)
        self.stack.append(key)
        try:
            if isinstance(fd.node, ast.Lambda):
                return self.ev(fd.node.body, st, c)
            if fd.is_gen and ycb is None:
                yl = self.alloc(st, 'list')
                c.ylist = yl
                outs = self.block(fd.node.body, st, c)
                res = []
                for s, kind, val in outs:
                    if kind == 'exc':
                        res.append(Res(s, False, val))
                    else:
                        res.append(Res(s, True, mk('seq', 'gen',
                                                   s.lists.get(yl, ()))))
                return res
            c.ycb = ycb
            outs = self.block(fd.node.body, st, c)
            res = []
            for s, kind, val in outs:
                if kind == 'exc':
                    res.append(Res(s, False, val))
                elif kind == 'ret':
                    res.append(Res(s, True, val))
                else:
                    res.append(Res(s, True, NONE))
            return self.dedupe(res, frame)
        finally:
            self.stack.pop()

    def dedupe(self, res, frame):
        return res

    def call(self, st, f, args, kw, node, ctx):
        """Call value f; returns [Res]."""
        self.tick()
        if node is not None and ctx is not None:
            self.call_sites.add(self.where(node, ctx)[:2])
        t = f.tag
        if t == 'fn':
            return self.call_fn(st, f, args, kw, node, ctx)
        if t == 'bound':
            return self.call(st, f.a[0], [f.a[1]] + list(args), kw, node, ctx)
        if t == 'pipe':
            return self.call_pipe(st, f, args, kw, node, ctx)
        if t == 'cls':
            return self.instantiate(st, f, args, kw, node, ctx)
        if t == 'bi':
            return self.call_bi(st, f.a[0], args, kw, node, ctx)
        if t == 'app':
            op = f.a[0]
            if op in ('bm',):
                return self.call_method(st, f.a[1], cval(f.a[2]), args, kw,
                                        node, ctx)
            if op == 'dget' and len(args) == 1:
                return self.call(st, f.a[1], [f.a[2], args[0],
                                              app('type', args[0])], kw,
                                 node, ctx)
            if op == 'attr' and is_const(f.a[2], 'str'):
                return self.opaque_method(st, f.a[1], cval(f.a[2]), args, kw,
                                          node, ctx)
            if op == 'deco':
                # class or function decorator without effect on the value
                return self.ok(st, args[0]) if args else self.ok(st, NONE)
            if op == 'propsetter':
                p, which = f.a[1], cval(f.a[2])
                fn = args[0]
                if fn.tag == 'instr':
                    fn = fn.a[1]
                g, s_, d = p.a
                if which == 'setter':
                    s_ = fn
                elif which == 'deleter':
                    d = fn
                else:
                    g = fn
                return self.ok(st, mk('prop', g, s_, d))
            if op == 'cmfactory':
                kwt = tuple(sorted((k, v) for k, v in kw.items()
                                   if isinstance(v, V)))
                return self.ok(st, mk('cm', f.a[1], tuple(args), kwt))
            if op == 'partial':
                return self.call(st, f.a[1], list(f.a[2].a) + list(args),
                                 dict([(cval(x.a[0]), x.a[1])
                                       for x in f.a[3].a], **kw), node, ctx)
        if t in ('ref', 'glob', 'sym'):
            view = self.view_of(st, f)
            if view is not None and '__call__' in view.members:
                return self.call(st, view.members['__call__'],
                                 [f] + list(args), kw, node, ctx)
        if t == 'instr':
            return self.call(st, f.a[1], args, kw, node, ctx)
        return self.opaque_call(st, f, args, kw, node, ctx)

    def call_pipe(self, st, f, args, kw, node, ctx):
        vname, name, idx = f.a
        view = self.views[vname]
        fns, endpoint = view.pipes[name]
        if idx < len(fns):
            nxt = mk('pipe', vname, name, idx + 1)
            return self.call(st, fns[idx], [nxt] + list(args), kw, node, ctx)
        if endpoint is None:
            return self.opaque_call(st, app('endpoint', const(name)), args, kw,
                                    node, ctx)
        return self.call(st, endpoint, args, kw, node, ctx)

    def opaque_call(self, st, f, args, kw, node, ctx, may_raise=True):
        """Unknown callable: one event, returns a fresh token or raises."""
        kwt = tuple(sorted(((k, v) for k, v in kw.items()
                            if isinstance(v, V)), key=lambda x: x[0]))
        if '*' in kw:
            kwt += (('*', mk('seq', 'tuple', tuple(kw['*']))),)
        argt = tup(*args)
        ck = (f, argt, kwt)
        st = st.copy()
        n = st.counts.get(ck, 0)
        st.counts[ck] = n + 1
        kwv = tup(*[tup(const(k), v) for k, v in kwt])
        res = app('ret', f, argt, kwv, const(n))
        w = self.where(node, ctx)
        st.add(Ev('call', f, tuple(args), kwt, res, w))
        # an unknown callable may change anything reached by protocol
        for a in args:
            if a.tag == 'sym' or (a.tag == 'app'):
                st.epochs[a] = st.epochs.get(a, 0) + 1
        states = [st]
        if f in self.hooks:
            # effects the specification assumes the callable may have
            states = states + self.hooks[f](st)
        out = []
        for st in states:
            out = out + self.ok(st, res)
            if may_raise:
                s2 = st.copy()
                e = mk('exc', '', (), app('raised', f, argt, kwv, const(n)))
                s2.add(Ev('raise', f, (e,), (), e, w))
                out = out + self.throw(s2, e)
        return out

    def ext_call(self, st, name, args, kw, node, ctx, fresh=True,
                 may_raise=None):
        """Call of a library function."""
        st = st.copy()
        kwt = tuple(sorted(((k, v) for k, v in kw.items()
                            if isinstance(v, V)), key=lambda x: x[0]))
        argt = tup(*args)
        kwv = tup(*[tup(const(k), v) for k, v in kwt])
        f = bi(name)
        ck = (f, argt, kwt)
        n = st.counts.get(ck, 0)
        st.counts[ck] = n + 1
        res = app('ret', f, argt, kwv, const(n))
        st.add(Ev('call', f, tuple(args), kwt, res, self.where(node, ctx)))
        if name in ('__import__', 'importlib.import_module'):
            # importing a module makes it an attribute of its package
            for p, v in list(st.facts.items()):
                if is_app(p, 'hasattr') and not v and not (
                        args and is_const(args[0], 'str') and
                        is_const(p.a[2], 'str') and cval(p.a[2]) not in
                        cval(args[0]).split('.')[1:]):
                    del st.facts[p]
        out = self.ok(st, res)
        if may_raise or (may_raise is None and self.in_try()):
            s2 = st.copy()
            e = mk('exc', '', (), app('raised', f, argt, kwv, const(n)))
            s2.add(Ev('raise', f, (e,), (), e, self.where(node, ctx)))
            out = out + self.throw(s2, e)
        return out

    # -- instances -----------------------------------------------------------

    def instantiate(self, st, cls, args, kw, node, ctx):
        q = cls.a[0]
        view = self.class_view(q)
        if view is None:
            return self.opaque_call(st, cls, args, kw, node, ctx)
        # exception classes
        mro = self.class_exc_name(q)
        if mro:
            return self.ok(st, mk('exc', q, tuple(args), cls))
        if self.is_iface(q):
            return self.opaque_call(st, cls, args, kw, node, ctx)
        st = st.copy()
        kind = q
        if any(e.split('.')[-1] in ('odict', 'dict', 'OrderedDict')
               for e in view.ext):
            pass
        obj = self.alloc(st, kind)
        st.add(Ev('new', cls, tuple(args), tuple(
            (k, v) for k, v in sorted(kw.items()) if isinstance(v, V)), obj,
            self.where(node, ctx)))
        init = view.members.get('__init__')
        if init is None:
            if any(e not in ('object',) for e in view.ext):
                return self.ok(st, obj)
            if args or any(isinstance(v, V) for v in kw.values()):
                if not view.behaviors:
                    return self.raise_new(st, 'TypeError', (),
                                          app('badcall', cls))
            return self.ok(st, obj)
        rs = self.call(st, init, [obj] + list(args), kw, node, ctx)
        return self.then(rs, lambda s, v: self.ok(s, obj))

    def is_iface(self, q, seen=()):
        for b in self.class_bases(q):
            if b.tag == 'bi' and (b.a[0].endswith('.Interface') or
                                  b.a[0].split('.')[-1][:1] == 'I' and
                                  b.a[0].split('.')[-1][1:2].isupper()):
                return True
            if b.tag == 'cls' and b.a[0] in self.prog.classes and \
                    b.a[0] not in seen and self.is_iface(b.a[0], seen + (q,)):
                return True
        return False

    def class_exc_name(self, q, seen=()):
        for b in self.class_bases(q):
            if b.tag == 'bi':
                c = getattr(builtins, b.a[0], None)
                if isinstance(c, type) and issubclass(c, BaseException):
                    return b.a[0]
            elif b.tag == 'cls' and b.a[0] in self.prog.classes and \
                    b.a[0] not in seen:
                r = self.class_exc_name(b.a[0], seen + (q,))
                if r:
                    return r
        return None

    # ======================================================================
    # attributes
    # ======================================================================

    def cell(self, st, o, name):
        return st.cells.get((o, name))

    def init_cell(self, o, name):
        if o.tag == 'glob':
            return self.inits.get(o, {}).get(name)
        return None

    def load(self, st, o, name, node, ctx):
        """Attribute load -> [Res]."""
        self.tick()
        t = o.tag
        if t == 'top':
            return self.ok(st, mk('top', 'attribute of ' + str(o.a[0])))
        v = st.cells.get((o, name))
        if v is not None:
            if v is DELETED:
                return self.raise_new(st, 'AttributeError', (const(name),),
                                      app('noattr', o, const(name)))
            if v.tag == 'prop' and t in ('ref', 'sym', 'glob'):
                pass
            return self.ok(st, v)
        if t == 'mod':
            mv = self.glob_value(o.a[0], name)
            if mv is None:
                return self.raise_new(st, 'AttributeError', (const(name),))
            return self.ok(st, mv)
        if t == 'bi':
            if o.a[0] == 'sys' and name == 'version_info':
                # the analysed program runs on Python 3
                return self.ok(st, tup(const(3), const(12), const(3)))
            return self.ok(st, bi(o.a[0] + '.' + name))
        if t == 'prop':
            if name in ('setter', 'deleter', 'getter'):
                return self.ok(st, app('propsetter', o, const(name)))
            if name in ('fget', 'fset', 'fdel'):
                return self.ok(st, o.a[('fget', 'fset', 'fdel').index(name)])
        if t == 'instr':
            return self.load(st, o.a[1], name, node, ctx)
        if t == 'cls':
            return self.load_cls(st, o, name, node, ctx)
        f = o.a[1] if is_app(o, 'cmfactory') else o
        if f.tag == 'fn':
            v = self.function_attr(f, name)
            if v is not None:
                return self.ok(st, v)
        if t == 'fn':
            if name in ('__name__', '__qualname__', 'func_name'):
                fd = self.fns[o.a[0]]
                other = self.renamed(fd.mod).get(
                    getattr(fd.node, 'name', None))
                if other is not None:
                    return self.ok(st, other)
                return self.ok(st, const(self.fns[o.a[0]].node.name
                                         if hasattr(self.fns[o.a[0]].node,
                                                    'name') else '<lambda>'))
            return self.ok(st, app('attr', o, const(name)))
        if t == 'exc':
            if name == 'args':
                return self.ok(st, tup(*o.a[1]) if o.a[0] else
                               app('attr', o, const(name)))
            return self.ok(st, app('attr', o, const(name)))
        if name == '__class__' and t in ('ref', 'sym', 'app', 'glob', 'const'):
            if t == 'ref' and self.view_of(st, o) is not None:
                return self.ok(st, mk('cls', o.a[1]))
            return self.ok(st, app('type', o))
        if name == '__dict__' and t in ('ref', 'sym', 'app', 'glob'):
            d = app('instdict', o)
            st.kinds.setdefault(d, 'dict')
            return self.ok(st, d)
        if is_app(o, 'super'):
            return self.load_super(st, o, name, node, ctx)
        if is_app(o, 'type') and name in ('__name__', '__qualname__',
                                          '__module__'):
            return self.ok(st, app('attr', o, const(name)))
        if is_app(o, 'type'):
            view = self.view_of(st, o.a[1])
            if view is not None and name in view.members and \
                    name not in view.opaque:
                m = view.members[name]
                if m.tag in ('fn', 'pipe'):
                    return self.ok(st, m)
            return self.ok(st, app('attr', o, const(name)))
        view = self.view_of(st, o)
        if view is not None:
            if name in view.members and name not in view.opaque:
                m = view.members[name]
                if m.tag == 'prop':
                    if m.a[0] is NONE:
                        return self.raise_new(st, 'AttributeError',
                                              (const(name),))
                    return self.call(st, m.a[0], [o], {}, node, ctx)
                if m.tag in ('fn', 'pipe'):
                    return self.ok(st, mk('bound', m, o))
                if is_app(m, 'static'):
                    return self.ok(st, m.a[1])
                if is_app(m, 'classm'):
                    return self.ok(st, mk('bound', m.a[1], app('type', o)))
                if is_app(m, 'cmfactory'):
                    return self.ok(st, app('cmfactory', mk(
                        'bound', m.a[1], o)))
                # class level data: shared default, may be shadowed
                if t == 'ref':
                    return self.ok(st, m)
                if m.tag == 'glob':
                    if self.globinfo.get(m, (None,))[0] is None or \
                            not view.mixin:
                        if self.assigned_on_instances(name):
                            return self.opaque_load(st, o, name, node, ctx,
                                                    has=True)
                        return self.ok(st, m)
                    if not self.assigned_on_instances(name) and \
                            self.globinfo.get(m, (None, None))[1] is not None:
                        return self.ok(st, m)
                if m.tag in ('bi', 'cls') and not self.is_config(view, name):
                    return self.ok(st, m)
                return self.opaque_load(st, o, name, node, ctx, has=True)
            if t in ('ref', 'glob'):
                if self.is_tlocal(view) and t == 'glob':
                    return self.load_tlocal(st, o, view, name, node, ctx)
                ic = self.init_cell(o, name)
                if ic is not None and t == 'glob':
                    return self.opaque_load(st, o, name, node, ctx, has=True)
                if '__getattr__' in view.members and \
                        '__getattr__' not in view.opaque and t == 'ref':
                    return self.call(st, view.members['__getattr__'],
                                     [o, const(name)], {}, node, ctx)
                if view.ext:
                    if self.base_kind(view) == 'dict' and \
                            name in DICT_METHODS:
                        return self.ok(st, app('bm', o, const(name)))
                    return self.opaque_load(st, o, name, node, ctx, has=True)
                if t == 'ref':
                    return self.raise_new(st, 'AttributeError',
                                          (const(name),),
                                          app('noattr', o, const(name)))
            return self.opaque_load(st, o, name, node, ctx)
        if t == 'glob' and self.is_plain_tlocal(o):
            return self.load_tlocal(st, o, None, name, node, ctx)
        k = self.kind(st, o).rstrip('?')
        if (k == 'dict' and name in DICT_METHODS) or \
                (k == 'list' and name in LIST_METHODS) or \
                (k == 'set' and name in SET_METHODS) or \
                (k in ('str', 'bytes') and name in STR_METHODS) or \
                (t in ('tup', 'seq') and (name in LIST_METHODS or
                                         name == 'isdisjoint')):
            return self.ok(st, app('bm', o, const(name)))
        if t == 'const' and cval(o) is None:
            return self.raise_new(st, 'AttributeError', (const(name),),
                                  app('noattr', o, const(name)))
        if st.facts.get(app('is', o, NONE)) is True:
            return self.raise_new(st, 'AttributeError', (const(name),),
                                  app('noattr', o, const(name)))
        return self.opaque_load(st, o, name, node, ctx)

    def is_config(self, view, name):
        return True

    _assigned = None

    def assigned_on_instances(self, name):
        if self._assigned is None:
            s = set()
            for m in self.prog.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and \
                            isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
            self._assigned = s
        return name in self._assigned

    def assigned_later(self, q, name):
        """Whether methods of a class other than the constructor change an
        attribute of its instances."""
        if q not in self._later:
            self._later[q] = set(
                x.attr for f in self.cinfo(q).node.body
                if isinstance(f, ast.FunctionDef) and f.name != '__init__'
                for x in ast.walk(f) if isinstance(x, ast.Attribute) and
                isinstance(x.ctx, (ast.Store, ast.Del)))
        return name in self._later[q]

    def base_kind(self, view):
        for e in view.ext:
            if e.split('.')[-1] in ('odict', 'dict', 'OrderedDict'):
                return 'dict'
        return None

    def is_tlocal(self, view):
        return any(e == 'threading.local' for e in view.ext)

    def is_plain_tlocal(self, o):
        info = self.globinfo.get(o)
        return bool(info and info[0] == 'tlocal')

    def load_tlocal(self, st, o, view, name, node, ctx):
        """State of a thread that never touched the object before exists only
        if the class declares or initializes it."""
        if view is not None:
            inited = self.tlocal_inits(view)
            if name in inited:
                return self.opaque_load(st, o, name, node, ctx, has=True)
        p = app('hasattr', o, const(name))
        out = []
        for s, val in self.split(st, p):
            if val:
                out += self.ok(s, app('attr', o, const(name)))
            else:
                s = s.copy()
                w = self.where(node, ctx)
                if o.tag != 'ref':
                    s.add(Ev('tlmiss', o, (const(name),), (), NONE, w))
                out += self.raise_new(s, 'AttributeError', (const(name),),
                                      app('noattr', o, const(name)))
        return out

    def tlocal_inits(self, view):
        """Attributes initialised for every thread: class level values and
        those assigned to the first parameter by __init__."""
        out = set(n for n, m in view.members.items()
                  if m.tag not in ('fn', 'pipe'))
        init = view.members.get('__init__')
        if init is not None and init.tag == 'fn':
            found = self.inited_by(view)
            if found is not None:
                return out | found
            fd = self.fns[init.a[0]]
            a = fd.node.args
            me = (a.posonlyargs + a.args)[0].arg if a.args else None
            for n in ast.walk(fd.node):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Store) and \
                        isinstance(n.value, ast.Name) and n.value.id == me:
                    out.add(n.attr)
                if isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Name) and \
                        n.func.id == 'setattr' and len(n.args) == 3 and \
                        isinstance(n.args[1], ast.Constant):
                    out.add(n.args[1].value)
                if isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Attribute) and \
                        n.func.attr == 'update':
                    for kwd in n.keywords:
                        if kwd.arg:
                            out.add(kwd.arg)
        return out

    def inited_by(self, view):
        """Attributes every run of __init__ without arguments leaves set."""
        known, key = self.__dict__.setdefault('_inited', {}), view.name
        if key not in known:
            known[key] = frozenset()     # while it is running
            saved = self.steps, self.stack, self.handlers, self.excs
            found = None
            try:
                self.steps = 0
                self.stack, self.handlers, self.excs = [], [], []
                rs = self.instantiate(State(), mk('cls', view.name), [], {},
                                      None, Ctx('node'))
                done = [r for r in rs if r.ok]
                if done:
                    found = frozenset.intersection(*[frozenset(
                        n for (o, n), v in r.st.cells.items() if o is r.val)
                        for r in done])
            except (Limit, RecursionError):
                pass
            self.steps, self.stack, self.handlers, self.excs = saved
            known[key] = found
        return known[key]

    # INode.name and INode.parent are read only views of the location
    ALIAS_LOADS = {'name': '__name__', 'parent': '__parent__'}

    def opaque_load(self, st, o, name, node, ctx, has=False):
        view = self.view_of(st, o)
        if name in self.ALIAS_LOADS and o.tag in ('sym', 'app') and (
                view is None or view.mixin and name not in view.members):
            name = self.ALIAS_LOADS[name]
            v = st.cells.get((o, name))
            if v is not None and v is not DELETED:
                return self.ok(st, v)
        v = self.inits.get(o, {}).get(name) if o in self.descrs else None
        if v is not None and v.tag in (
                'const', 'bi', 'cls', 'fn', 'glob') and \
                not self.assigned_later(view.name, name):
            return self.ok(st, v)
        v = app('attr', o, const(name))
        p = app('hasattr', o, const(name))
        f = st.facts.get(p)
        if f is False and not has:
            return self.raise_new(st, 'AttributeError', (const(name),),
                                  app('noattr', o, const(name)))
        if has or f is True or not self.catches('AttributeError', True):
            return self.ok(st, v)
        s1, s2 = st.copy(), st.copy()
        s1.facts[p] = True
        s2.facts[p] = False
        return self.ok(s1, v) + self.raise_new(
            s2, 'AttributeError', (const(name),), app('noattr', o, const(name)))

    def function_attr(self, f, name):
        """Value of an attribute of a function of a module, set once when
        the module is imported."""
        fd = self.fns[f.a[0]]
        own = getattr(fd.node, 'name', None)
        m = self.prog.modules.get(fd.mod)
        if own is None or m is None or name.startswith('__'):
            return None
        key = (fd.mod, own + '.' + name)
        if key not in self.globs:
            ns = [n for n in m.tree.body
                  if isinstance(n, ast.Assign) and len(n.targets) == 1 and
                  isinstance(n.targets[0], ast.Attribute) and
                  n.targets[0].attr == name and
                  isinstance(n.targets[0].value, ast.Name) and
                  n.targets[0].value.id == own]
            self.globs[key] = self._eval_binding(
                m, own + '.' + name, 'assign', ns[0], None) \
                if len(ns) == 1 and fd.node in m.tree.body else None
        return self.globs[key]

    def renamed(self, mod):
        """Functions of a module given other names by assignment."""
        if mod not in self.renames:
            self.renames[mod] = out = {}
            m = self.prog.modules.get(mod)
            for n in m.tree.body if m else ():
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Attribute) and \
                        n.targets[0].attr in ('__name__', '__qualname__') \
                        and isinstance(n.targets[0].value, ast.Name):
                    out[n.targets[0].value.id] = const(n.value.value) \
                        if isinstance(n.value, ast.Constant) else \
                        mk('top', 'name of a function')
        return self.renames[mod]

    def load_cls(self, st, o, name, node, ctx):
        q = o.a[0]
        if name in ('providedBy', 'implementedBy') and self.is_iface(q):
            return self.ok(st, app('bm', o, const(name)))
        if name in ('__name__', '__qualname__'):
            return self.ok(st, const(q.split('.')[-1]))
        if name == '__module__':
            return self.ok(st, const(q.rsplit('.', 1)[0]))
        view = self.class_view(q)
        if view is not None and name in view.members:
            m = view.members[name]
            if is_app(m, 'classm'):
                return self.ok(st, mk('bound', m.a[1], o))
            if is_app(m, 'static'):
                return self.ok(st, m.a[1])
            return self.ok(st, m)
        return self.ok(st, app('attr', o, const(name)))

    def load_super(self, st, o, name, node, ctx):
        cls, me = o.a[1], o.a[2]
        if cls.tag == 'cls' and cls.a[0] in self.prog.classes:
            for b in self.class_bases(cls.a[0]):
                if b.tag == 'cls' and b.a[0] in self.prog.classes:
                    bv = self.class_view(b.a[0])
                    if name in bv.members:
                        m = bv.members[name]
                        if m.tag in ('fn', 'pipe'):
                            return self.ok(st, mk('bound', m, me))
                        return self.ok(st, m)
        return self.ok(st, app('superattr', o, const(name)))

    def store(self, st, o, name, val, node, ctx):
        """Attribute store -> [Res]."""
        self.tick()
        view = self.view_of(st, o)
        if view is not None:
            m = view.members.get(name)
            if m is not None and m.tag == 'prop' and name not in view.opaque:
                if m.a[1] is NONE:
                    return self.raise_new(st, 'AttributeError', (const(name),))
                return self.call(st, m.a[1], [o, val], {}, node, ctx)
            if '__setattr__' in view.members and \
                    '__setattr__' not in view.opaque:
                return self.call(st, view.members['__setattr__'],
                                 [o, const(name), val], {}, node, ctx)
        return self.raw_store(st, o, name, val, node, ctx)

    def raw_store(self, st, o, name, val, node, ctx):
        st = st.copy()
        if o.tag in ('fn', 'prop', 'bound'):
            return self.ok(st, NONE)
        st.cells[(o, name)] = val
        st.facts.pop(app('hasattr', o, const(name)), None)
        st.add(Ev('setattr', o, (const(name), val), (), NONE,
                  self.where(node, ctx)))
        return self.ok(st, NONE)

    def delete(self, st, o, name, node, ctx):
        st = st.copy()
        out = []
        has = st.facts.get(app('hasattr', o, const(name)))
        cur = st.cells.get((o, name))
        if cur is None and has is None and self.catches('AttributeError', True):
            s2 = st.copy()
            s2.facts[app('hasattr', o, const(name))] = False
            out += self.raise_new(s2, 'AttributeError', (const(name),))
        if cur is DELETED:
            return self.raise_new(st, 'AttributeError', (const(name),))
        st.cells[(o, name)] = DELETED
        st.facts[app('hasattr', o, const(name))] = False
        st.add(Ev('delattr', o, (const(name),), (), NONE,
                  self.where(node, ctx)))
        return out + self.ok(st, NONE)

    def has_attr(self, st, o, name, node, ctx):
        """[(state, bool)]"""
        cur = st.cells.get((o, name))
        if cur is not None:
            return [(st, cur is not DELETED)]
        view = self.view_of(st, o)
        if view is not None:
            if name in view.members and name not in view.opaque:
                return [(st, True)]
            if o.tag == 'glob' and name in self.inits.get(o, {}) and \
                    not (self.is_tlocal(view)):
                return [(st, True)]
            if o.tag == 'ref' and not view.ext:
                return [(st, False)]
        k = self.kind(st, o).rstrip('?')
        if k == 'dict' and (name in DICT_METHODS):
            return [(st, True)]
        if k in ('list', 'tuple', 'iter'):
            return [(st, name in LIST_METHODS)]
        if k in ('int', 'none', 'bool', 'str', 'bytes'):
            pyt = {'int': int, 'none': type(None), 'bool': bool, 'str': str,
                   'bytes': bytes}[k]
            return [(st, hasattr(pyt, name))]
        if o.tag == 'cls':
            cv = self.class_view(o.a[0])
            if cv is not None:
                return [(st, name in cv.members)] if not cv.ext else \
                    self.split(st, app('hasattr', o, const(name)))
        if k == 'node' and name in DICT_METHODS:
            return [(st, True)]
        if st.facts.get(app('is', o, NONE)) is True:
            return [(st, False)]
        return self.split(st, app('hasattr', o, const(name)))


DELETED = mk('deleted', '')

from .interp_ops import Ops            # noqa: E402
from .interp_stmt import Stmts         # noqa: E402


class Analyzer(Ops, Stmts, Interp):
    """Complete interpreter."""
