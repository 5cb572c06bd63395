"""Systematic syntax tree mutants of the repository, run against the stable
tests and, if these still pass, against the checks.

    python3 tools/mutate.py [-o OUT] [file ...]     (files relative to src/node)

Development tool, not part of any check.  Works in scratch copies below /tmp.
"""
import ast
import concurrent.futures
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)

EXC = {'KeyError': ['Exception', 'ValueError'], 'Exception': ['KeyError'],
       'AttributeError': ['Exception'], 'ValueError': ['KeyError'],
       'IndexError': ['Exception'], 'UnicodeDecodeError': ['Exception'],
       'TypeError': ['Exception']}
CMP = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.Eq: ast.NotEq,
       ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Lt: ast.LtE, ast.LtE: ast.Lt}


def functions(tree):
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef,)):
            yield n


def mutants(src):
    """(description, new source) of all mutants."""
    base = ast.parse(src)
    nodes = list(ast.walk(base))
    infn = set()
    params = {}
    for f in functions(base):
        a = f.args
        ps = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for n in ast.walk(f):
            infn.add(id(n))
            params[id(n)] = ps
    index = {id(n): i for i, n in enumerate(nodes)}

    def make(i, f):
        t = ast.parse(src)
        n = list(ast.walk(t))[i]
        if f(n, t) is False:
            return None
        ast.fix_missing_locations(t)
        try:
            out = ast.unparse(t)
            compile(out, 'x', 'exec')
        except Exception:
            return None
        return out

    def replace(t, old, new):
        for p in ast.walk(t):
            for field, v in ast.iter_fields(p):
                if v is old:
                    setattr(p, field, new)
                    return
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is old:
                            v[k] = new
                            return

    for n in nodes:
        i = index[id(n)]
        line = getattr(n, 'lineno', 0)
        muts = []
        inside = id(n) in infn
        if isinstance(n, ast.stmt) and inside and not isinstance(
                n, (ast.FunctionDef, ast.ClassDef, ast.Pass, ast.Import,
                    ast.ImportFrom)):
            if not (isinstance(n, ast.Expr) and isinstance(
                    n.value, ast.Constant)):
                muts.append(('delete statement', lambda m, t: replace(
                    t, m, ast.Pass())))
        for field in ('body', 'orelse', 'finalbody'):
            body = getattr(n, field, None)
            if inside and isinstance(body, list) and len(body) > 1:
                for k in range(len(body) - 1):
                    if any(isinstance(x, ast.Expr) and isinstance(
                            x.value, ast.Constant) for x in body[k:k + 2]):
                        continue

                    def sw(m, t, k=k, field=field):
                        b = getattr(m, field)
                        b[k], b[k + 1] = b[k + 1], b[k]
                    muts.append(('swap statements at line %d' %
                                 body[k].lineno, sw))
        if inside and isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def neg(m, t):
                m.test = ast.UnaryOp(ast.Not(), m.test)
            muts.append(('negate test', neg))
            if isinstance(n, (ast.If, ast.IfExp)):
                for b in (True, False):
                    def cst(m, t, b=b):
                        m.test = ast.Constant(b)
                    muts.append(('test is %s' % b, cst))
        if inside and isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = CMP.get(type(n.ops[0]))
            if o:
                def cmp(m, t, o=o):
                    m.ops = [o()]
                muts.append(('comparison', cmp))
            if isinstance(n.ops[0], (ast.Is, ast.IsNot)):
                pos = isinstance(n.ops[0], ast.Is)

                def truthy(m, t, pos=pos):
                    replace(t, m, ast.UnaryOp(ast.Not(), m.left) if pos
                            else m.left)
                muts.append(('truthiness instead of identity', truthy))

                def eq(m, t, pos=pos):
                    m.ops = [ast.Eq() if pos else ast.NotEq()]
                muts.append(('equality instead of identity', eq))
        if inside and isinstance(n, ast.BoolOp):
            def bo(m, t):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            muts.append(('and/or', bo))
            for k in range(len(n.values)):
                def dropv(m, t, k=k):
                    v = m.values[:k] + m.values[k + 1:]
                    replace(t, m, v[0] if len(v) == 1 else
                            ast.BoolOp(m.op, v))
                muts.append(('drop operand %d' % k, dropv))
        if inside and isinstance(n, ast.UnaryOp) and isinstance(n.op,
                                                                ast.Not):
            muts.append(('drop not', lambda m, t: replace(t, m, m.operand)))
        if isinstance(n, ast.Constant) and (inside):
            v = n.value
            alts = []
            if v is True:
                alts = [False]
            elif v is False:
                alts = [True]
            elif v is None:
                alts = [0]
            elif isinstance(v, int):
                alts = [v + 1, v - 1]
            elif isinstance(v, str) and len(v) < 25 and '\n' not in v:
                alts = [v + 'x']
            for x in alts:
                def cn(m, t, x=x):
                    m.value = x
                muts.append(('constant %r -> %r' % (v, x), cn))
        if inside and isinstance(n, ast.ExceptHandler):
            if isinstance(n.type, ast.Name) and n.type.id in EXC:
                for x in EXC[n.type.id]:
                    def ex(m, t, x=x):
                        m.type = ast.Name(x, ast.Load())
                    muts.append(('except %s -> %s' % (n.type.id, x), ex))

            def swallow(m, t):
                m.body = [ast.Pass()]
            muts.append(('handler does nothing', swallow))

            def rer(m, t):
                m.body = [ast.Raise()]
            muts.append(('handler reraises', rer))
        if inside and isinstance(n, ast.Raise) and isinstance(
                n.exc, ast.Call) and isinstance(n.exc.func, ast.Name) and \
                n.exc.func.id in EXC:
            for x in EXC[n.exc.func.id][:1]:
                def rx(m, t, x=x):
                    m.exc.func.id = x if x != 'Exception' else 'RuntimeError'
                muts.append(('raise other class', rx))
        if inside and isinstance(n, ast.Try):
            if n.finalbody:
                def seq(m, t):
                    fb = m.finalbody
                    if m.handlers:
                        m.finalbody = []
                        b = [m] + fb
                    else:
                        b = m.body + fb
                    for p in ast.walk(t):
                        for fld, v in ast.iter_fields(p):
                            if isinstance(v, list) and m in v:
                                k = v.index(m)
                                v[k:k + 1] = b
                                return
                muts.append(('finally -> sequence', seq))
            if n.handlers:
                def nohand(m, t):
                    if m.finalbody:
                        m.handlers = []
                        return
                    for p in ast.walk(t):
                        for fld, v in ast.iter_fields(p):
                            if isinstance(v, list) and m in v:
                                k = v.index(m)
                                v[k:k + 1] = m.body + m.orelse
                                return
                muts.append(('no handlers', nohand))
        if inside and isinstance(n, ast.Call):
            if len(n.args) >= 2:
                for k in range(len(n.args) - 1):
                    def sa(m, t, k=k):
                        m.args[k], m.args[k + 1] = m.args[k + 1], m.args[k]
                    muts.append(('swap arguments', sa))
            if n.args:
                def da(m, t):
                    m.args.pop()
                muts.append(('drop last argument', da))
            for k in range(len(n.keywords)):
                def dk(m, t, k=k):
                    m.keywords.pop(k)
                muts.append(('drop keyword argument', dk))
            if isinstance(n.func, ast.Name) and n.func.id in (
                    'list', 'tuple', 'set', 'reversed', 'sorted', 'int',
                    'str', 'iter', 'dict', 'odict') and n.args:
                muts.append(('drop %s()' % n.func.id, lambda m, t: replace(
                    t, m, m.args[0])))
            if isinstance(n.func, ast.Attribute) and not n.args and \
                    n.func.attr in ('keys', 'items', 'values', 'copy'):
                def it(m, t):
                    replace(t, m, m.func.value)
                muts.append(('drop .%s()' % n.func.attr, it))
        if inside and isinstance(n, ast.Name) and isinstance(
                n.ctx, ast.Load) and n.id in params[id(n)]:
            for x in params[id(n)]:
                if x != n.id and x not in ('_next', 'cls'):
                    def nm(m, t, x=x):
                        m.id = x
                    muts.append(('%s -> %s' % (n.id, x), nm))
        if inside and isinstance(n, ast.Return) and n.value is not None and \
                not (isinstance(n.value, ast.Constant)):
            def rn(m, t):
                m.value = ast.Constant(None)
            muts.append(('return None', rn))
        if inside and isinstance(n, ast.Attribute) and n.attr in (
                '__name__', '__parent__', 'name', 'parent'):
            other = {'__name__': '__parent__', '__parent__': '__name__',
                     'name': 'parent', 'parent': 'name'}[n.attr]

            def at(m, t, other=other):
                m.attr = other
            muts.append(('attribute', at))
        if inside and isinstance(n, ast.AugAssign):
            def aug(m, t):
                m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()
            muts.append(('augmented operator', aug))
        if inside and isinstance(n, ast.BinOp) and isinstance(
                n.op, (ast.Add, ast.Sub)):
            def bop(m, t):
                m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()
            muts.append(('operator', bop))
        if isinstance(n, ast.ClassDef):
            for k, d in enumerate(n.decorator_list):
                if isinstance(d, ast.Call) and len(d.args) > 1:
                    for j in range(len(d.args)):
                        def dd(m, t, k=k, j=j):
                            m.decorator_list[k].args.pop(j)
                        muts.append(('class decorator without argument %d' %
                                     j, dd))
                    for j in range(len(d.args) - 1):
                        def ds(m, t, k=k, j=j):
                            a = m.decorator_list[k].args
                            a[j], a[j + 1] = a[j + 1], a[j]
                        muts.append(('class decorator arguments %d swapped' %
                                     j, ds))
            if len(n.bases) > 1:
                for j in range(len(n.bases)):
                    def db(m, t, j=j):
                        m.bases.pop(j)
                    muts.append(('class without base %d' % j, db))
        if isinstance(n, ast.FunctionDef):
            for k, d in enumerate(n.decorator_list):
                if isinstance(d, ast.Name):
                    def dr(m, t, k=k):
                        m.decorator_list.pop(k)
                    muts.append(('%s without @%s' % (n.name, d.id), dr))
                    alt = {'override': 'default', 'default': 'override',
                           'plumb': 'override'}.get(d.id)
                    if alt:
                        def dx(m, t, k=k, alt=alt):
                            m.decorator_list[k].id = alt
                        muts.append(('%s: @%s -> @%s' % (n.name, d.id, alt),
                                     dx))
            for k in range(len(n.args.defaults)):
                d = n.args.defaults[k]
                if isinstance(d, ast.Constant) and d.value in (None, True,
                                                               False):
                    def df(m, t, k=k):
                        m.args.defaults[k].value = {
                            None: 0, True: False, False: True}[
                                m.args.defaults[k].value]
                    muts.append(('default of %s' % n.name, df))
        seen = set()
        for desc, f in muts:
            out = make(i, f)
            if out is None or out in seen:
                continue
            seen.add(out)
            yield '%s:%s' % (line, desc), out


STABLE = None


def stable():
    global STABLE
    if STABLE is None:
        STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    return STABLE


RUN = '''
import sys
src = sys.argv[1]
for n in [x for x in sys.modules if x == 'node' or x.startswith('node.')]:
    del sys.modules[n]
sys.path[:] = [src] + [p for p in sys.path if p != '/repo/src']
import node.base
assert node.base.__file__.startswith(src), node.base.__file__
import pytest
sys.exit(pytest.main(sys.argv[2:]))
'''
BASE = None


def setup():
    w = tempfile.mkdtemp(prefix='mut-', dir=BASE)
    shutil.copytree(REPO + '/src', w + '/src', ignore=shutil.ignore_patterns(
        '__pycache__', '*.pyc'))
    return w


def tests_pass(w):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
               PYTHONPATH=w + '/src')
    try:
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN, w + '/src', '-q', '-x', '-p',
             'no:cacheprovider', '--timeout=20', '--deselect', FAILING,
             'src/node/tests'],
            cwd=w, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            timeout=60)
    except subprocess.TimeoutExpired:
        return False
    return r.returncode == 0


FAILING = None      # test to leave out


def checks(w):
    """Properties whose check reports a violation on the copy."""
    from sa import main as M
    from sa.source import Program
    hit, und = [], 0
    first = ''
    for pid, fn in sorted(M.specs().items()):
        try:
            c = M.run(pid, fn, Program(w + '/src'))
            new, listed = M.report(c, pid)
        except Exception as e:
            hit.append('CRASH %s %s: %s' % (pid, type(e).__name__, e))
            continue
        if new:
            hit.append(pid)
            first = first or new[0].what
        und += len(set(c.undecided)) + len(c.missing)
    return hit, und, first


_W = None


def init(base, failing):
    global BASE, FAILING
    BASE, FAILING = base, failing


def work(job):
    global _W
    rel, desc, text = job
    if _W is None:
        _W = setup()
    p = '%s/src/node/%s' % (_W, rel)
    orig = open('%s/src/node/%s' % (REPO, rel)).read()
    with open(p, 'w') as f:
        f.write(text)
    try:
        if not tests_pass(_W):
            return (rel, desc, None, 0, '')
        hit, und, first = checks(_W)
        return (rel, desc, hit, und, first)
    finally:
        with open(p, 'w') as f:
            f.write(orig)


def main(argv):
    global FAILING, BASE
    BASE = tempfile.mkdtemp(prefix='mutants-')
    out = None
    if argv[:1] == ['-o']:
        out, argv = argv[1], argv[2:]
    files = argv
    FAILING = 'src/node/tests/test_testing.py::TestFullmapping::' \
        'test___setitem__'
    jobs = []
    for rel in files:
        src = open('%s/src/node/%s' % (REPO, rel)).read()
        for desc, text in mutants(src):
            jobs.append((rel, desc, text))
    n = surv = caught = 0
    fh = open(out, 'w') if out else sys.stdout
    with concurrent.futures.ProcessPoolExecutor(
            8, initializer=init, initargs=(BASE, FAILING)) as ex:
        for rel, desc, hit, und, first in ex.map(work, jobs, chunksize=4):
            n += 1
            if hit is None:
                continue
            surv += 1
            if hit:
                caught += 1
            print('%s %s:%s %s und=%d %s' % (
                'CAUGHT' if hit else 'MISSED', rel, desc, ','.join(hit), und,
                first[:100]), file=fh, flush=True)
    print('%d mutants, %d pass the tests, %d caught' % (n, surv, caught),
          file=fh)
    shutil.rmtree(BASE, ignore_errors=True)


if __name__ == '__main__':
    main(sys.argv[1:])
