"""Program model: modules, names, classes and the static plumbing resolver."""
import ast
import os

from .normal import normal

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')


class AnalysisBroken(Exception):
    """Anchor vanished or program not analysable at all."""


class Module(object):
    def __init__(self, name, path):
        self.name = name
        self.path = path
        with open(path, 'rb') as f:
            text = f.read()
        self.tree = normal(ast.parse(text, path))
        self.lines = text.count(b'\n')
        self.bindings = {}      # name -> list of (kind, node, extra)
        self.star = []
        self._scan(self.tree.body)

    def _bind(self, name, kind, node, extra=None):
        self.bindings.setdefault(name, []).append((kind, node, extra))

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self._bind(a.asname, 'import', n, a.name)
                    else:
                        self._bind(a.name.split('.')[0], 'import', n,
                                   a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                mod = n.module or ''
                if n.level:
                    parts = self.name.split('.')
                    is_pkg = self.path.endswith('__init__.py')
                    cut = n.level - (1 if is_pkg else 0)
                    base = parts[:len(parts) - cut] if cut else parts
                    mod = '.'.join(base + ([mod] if mod else []))
                for a in n.names:
                    if a.name == '*':
                        self.star.append(mod)
                    else:
                        self._bind(a.asname or a.name, 'from', n, (mod, a.name))
            elif isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self._bind(n.name, 'def', n)
            elif isinstance(n, ast.ClassDef):
                self._bind(n.name, 'class', n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self._bind(t.id, 'assign', n)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self._bind(e.id, 'assign', n, i)
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    self._bind(n.target.id, 'assign', n)
            elif isinstance(n, ast.If):
                # conditional definitions: the later of both, first preferred
                self._scan(n.orelse)
                self._scan(n.body)
            elif isinstance(n, ast.Try):
                for h in n.handlers:
                    self._scan(h.body)
                self._scan(n.orelse)
                self._scan(n.body)
                self._scan(n.finalbody)
            elif isinstance(n, ast.With):
                self._scan(n.body)


class ClassInfo(object):
    def __init__(self, q, mod, node):
        self.q = q
        self.mod = mod
        self.node = node
        self.entries = []           # ordered (name, kind, node)
        for n in node.body:
            self._scan(n)

    def _scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            self.entries.append((n.name, 'def', n))
        elif isinstance(n, ast.ClassDef):
            self.entries.append((n.name, 'class', n))
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    self.entries.append((t.id, 'assign', n.value))
                elif isinstance(t, ast.Attribute):
                    pass
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            if isinstance(n.target, ast.Name):
                self.entries.append((n.target.id, 'assign', n.value))
        elif isinstance(n, ast.If):
            for x in n.orelse + n.body:
                self._scan(x)
        elif isinstance(n, ast.Try):
            for x in n.body:
                self._scan(x)


class Program(object):

    def __init__(self, src=None, skip=('tests',)):
        self.src = src or SRC
        self.modules = {}
        root = os.path.join(self.src, 'node')
        if not os.path.isdir(root):
            raise AnalysisBroken('no package at %s' % root)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in skip and x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.src)[:-3].replace(os.sep, '.')
                if rel.endswith('.__init__'):
                    rel = rel[:-len('.__init__')]
                self.modules[rel] = Module(rel, path)
        self.classes = {}
        for m in self.modules.values():
            for name, bs in m.bindings.items():
                for kind, node, extra in bs:
                    if kind == 'class':
                        q = m.name + '.' + name
                        self.classes[q] = ClassInfo(q, m, node)
            # attributes set after the definition
            for n in m.tree.body:
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                        isinstance(n.targets[0], ast.Attribute) and \
                        isinstance(n.targets[0].value, ast.Name):
                    ci = self.classes.get(
                        m.name + '.' + n.targets[0].value.id)
                    if ci is not None:
                        ci.entries.append((n.targets[0].attr, 'assign',
                                           n.value))
        self._learn_scopes()
        self.attr_kinds = self._learn_attr_kinds()
        self.item_kinds = self._learn_item_kinds()
        self.class_attr_kinds = {}
        for q, ci in self.classes.items():
            self._learn_class_kinds(q, ci)

    # -- binding lookup ----------------------------------------------------

    def find(self, mod, name, seen=()):
        """Follow imports; returns ('def'|'class'|'assign', module, node, extra)
        or ('ext', dotted) or ('mod', name) or None."""
        key = (mod, name)
        if key in seen:
            return None
        m = self.modules.get(mod)
        if m is None:
            return ('ext', mod + '.' + name)
        bs = m.bindings.get(name)
        if not bs:
            for s in m.star:
                r = self.find(s, name, seen + (key,))
                if r is not None:
                    return r
            if mod + '.' + name in self.modules:
                return ('mod', mod + '.' + name)
            return None
        kind, node, extra = bs[-1]
        if kind == 'import':
            if extra in self.modules:
                return ('mod', extra)
            return ('extmod', extra)
        if kind == 'from':
            m2, n2 = extra
            if m2 in self.modules:
                r = self.find(m2, n2, seen + (key,))
                if r is not None:
                    return r
                return ('ext', m2 + '.' + n2)
            if m2 + '.' + n2 in self.modules:
                return ('mod', m2 + '.' + n2)
            return ('ext', m2 + '.' + n2)
        return (kind, m, node, extra)

    # -- kinds of attributes by name ----------------------------------------

    @staticmethod
    def ctor_kind(n):
        if isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else \
                f.attr if isinstance(f, ast.Attribute) else None
            if name in ('default', 'override', 'finalize') and n.args:
                return Program.ctor_kind(n.args[0])
            return {'dict': 'dict', 'odict': 'dict', 'OrderedDict': 'dict',
                    'defaultdict': 'dict', 'WeakValueDictionary': 'dict',
                    'list': 'list', 'set': 'set'}.get(name)
        if isinstance(n, (ast.Dict, ast.DictComp)):
            return 'dict'
        if isinstance(n, (ast.List, ast.ListComp)):
            return 'list'
        if isinstance(n, (ast.Set, ast.SetComp)):
            return 'set'
        if isinstance(n, ast.Constant):
            if type(n.value) in (int,):
                return 'int'
            if type(n.value) in (bool,):
                return 'bool'
        if isinstance(n, ast.UnaryOp) and isinstance(n.operand, ast.Constant) \
                and type(n.operand.value) is int:
            return 'int'
        return None

    @staticmethod
    def made_kind(n):
        """Kind named by the arguments of what makes a class attribute."""
        if not isinstance(n, ast.Call):
            return None
        ks = set()
        for a in n.args + [k.value for k in n.keywords]:
            if isinstance(a, ast.Name):
                ks.add({'dict': 'dict', 'odict': 'dict', 'OrderedDict': 'dict',
                        'list': 'list', 'set': 'set'}.get(a.id))
            elif isinstance(a, ast.Lambda):
                ks.add(Program.ctor_kind(a.body))
            else:
                ks.add(Program.made_kind(a))
        ks.discard(None)
        return ks.pop() if len(ks) == 1 else None

    # locals and helper functions the value comes from

    def value_kind(self, n, depth=0):
        k = self.ctor_kind(n)
        if k or depth > 3:
            return k
        ks = set()
        if isinstance(n, ast.IfExp):
            ks = set(self.value_kind(x, depth + 1)
                     for x in (n.body, n.orelse)
                     if not (isinstance(x, ast.Constant) and
                             x.value is None))
        elif isinstance(n, ast.Name):
            fn = self.scopes.get(n)
            if not isinstance(fn, (ast.FunctionDef, ast.AsyncFunctionDef)):
                return None
            a = fn.args
            if n.id in [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]:
                return None
            for x in ast.walk(fn):
                if isinstance(x, ast.Assign) and any(
                        isinstance(t, ast.Name) and t.id == n.id
                        for t in x.targets):
                    if isinstance(x.value, ast.Constant) and \
                            x.value.value is None or isinstance(
                                x.value, ast.Attribute):
                        continue
                    ks.add(self.value_kind(x.value, depth + 1))
                elif isinstance(x, ast.Name) and x.id == n.id and \
                        isinstance(x.ctx, ast.Store) and \
                        not isinstance(self.parents.get(x), ast.Assign):
                    return None
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.id if isinstance(f, ast.Name) else \
                f.attr if isinstance(f, ast.Attribute) else None
            fns = self.fns_named.get(name, ())
            for fn in fns:
                for r in ast.walk(fn):
                    if isinstance(r, (ast.Yield, ast.YieldFrom)):
                        return None
                    if isinstance(r, ast.Return) and \
                            self.scopes.get(r) is fn:
                        ks.add(self.value_kind(r.value, depth + 1)
                               if r.value is not None else None)
        if len(ks) == 1:
            return ks.pop()
        return None

    def _learn_scopes(self):
        self.scopes = {}
        self.parents = {}
        self.fns_named = {}

        def walk(n, fn):
            for x in ast.iter_child_nodes(n):
                self.scopes[x] = fn
                self.parents[x] = n
                if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    self.fns_named.setdefault(x.name, []).append(x)
                    walk(x, x)
                elif isinstance(x, (ast.ClassDef, ast.Lambda)):
                    walk(x, x)
                else:
                    walk(x, fn)
        for m in self.modules.values():
            walk(m.tree, None)

    def _learn_class_kinds(self, q, ci):
        seen = {}
        for name, kind, node in ci.entries:
            if kind == 'assign':
                k = self.ctor_kind(node)
                v = node
                if isinstance(v, ast.Call) and v.args and isinstance(
                        v.func, ast.Name) and v.func.id in (
                            'default', 'override', 'finalize'):
                    v = v.args[0]
                if k or isinstance(v, ast.Constant) and v.value is None:
                    seen.setdefault(name, set()).add(k or '?')
        for n in ast.walk(ci.node):
            if isinstance(n, ast.Assign):
                k = self.value_kind(n.value)
                if isinstance(n.value, ast.Constant) and n.value.value is None:
                    k = '?'
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and \
                            isinstance(t.value, ast.Name) and k:
                        seen.setdefault(t.attr, set()).add(k)
        for name, ks in seen.items():
            none = '?' in ks
            ks = ks - {'?'}
            if len(ks) == 1:
                self.class_attr_kinds[(q, name)] = next(iter(ks)) + (
                    '?' if none else '')

    def _learn_item_kinds(self):
        """Attributes holding mappings all values of which are of a kind."""
        seen = {}
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else \
                        [n.target]
                    for t in ts:
                        if isinstance(t, ast.Subscript) and \
                                isinstance(t.value, ast.Attribute):
                            if isinstance(n, ast.AugAssign):
                                continue
                            seen.setdefault(t.value.attr, set()).add(
                                self.ctor_kind(n.value))
                elif isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Attribute) and \
                        n.func.attr == 'setdefault' and len(n.args) == 2 and \
                        isinstance(n.func.value, ast.Attribute):
                    seen.setdefault(n.func.value.attr, set()).add(
                        self.ctor_kind(n.args[1]))
        return dict((a, next(iter(ks))) for a, ks in seen.items()
                    if len(ks) == 1 and None not in ks)

    def _learn_attr_kinds(self):
        seen = {}

        def note(name, kind):
            seen.setdefault(name, set()).add(kind)

        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Assign):
                    k = self.value_kind(n.value)
                    none = isinstance(n.value, ast.Constant) and \
                        n.value.value is None
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and (k or none):
                            note(t.attr, k)
                        elif isinstance(t, ast.Attribute):
                            pass
                elif isinstance(n, ast.ClassDef):
                    for x in n.body:
                        if isinstance(x, ast.Assign):
                            k = self.ctor_kind(x.value)
                            v = x.value
                            if isinstance(v, ast.Call) and v.args and \
                                    not k and isinstance(v.func, ast.Name) \
                                    and v.func.id in ('default', 'override',
                                                      'finalize'):
                                v = v.args[0]
                            none = isinstance(v, ast.Constant) and \
                                v.value is None
                            if k or none:
                                for t in x.targets:
                                    if isinstance(t, ast.Name):
                                        note(t.id, k)
                            elif self.made_kind(x.value):
                                for t in x.targets:
                                    if isinstance(t, ast.Name):
                                        note(t.id, self.made_kind(x.value))
                                        note('_' + t.id,
                                             self.made_kind(x.value))
                        elif isinstance(x, ast.FunctionDef) and \
                                x.decorator_list:
                            names = set()
                            for dec in x.decorator_list:
                                for y in ast.walk(dec):
                                    if isinstance(y, ast.Name):
                                        names.add(y.id)
                            if any('property' in z for z in names):
                                rs = [r for r in ast.walk(x)
                                      if isinstance(r, ast.Return) and r.value]
                                ks = set(self.value_kind(r.value) for r in rs)
                                if len(ks) == 1 and None not in ks:
                                    k = ks.pop()
                                    note(x.name, k)
                                    note('_' + x.name, k)
        out = {}
        for name, ks in seen.items():
            nn = ks - {None}
            if len(nn) == 1:
                k = next(iter(nn))
                # may be None if it was None anywhere
                out[name] = (k, None in ks)
        return out
