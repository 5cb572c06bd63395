"""Realistic bugs written from the statements of the properties, to measure
the checks with: (property, file, old, new, …).  Development tool.

    python3 tools/bugs.py [PART]

Reports bugs the tests catch (TESTS), the check of the property does not catch
(MISSED, with what other checks say) and those which match nothing.
"""
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)

BUGS = []
B = 'behaviors/'


def b(pid, rel, *edits):
    BUGS.append((pid, rel, edits))


COMMON, NODIFY, REFERENCE, ORDER = (
    B + x + '.py' for x in ('common', 'nodify', 'reference', 'order'))
MAPPING, STORAGE, NODESPACE, ATTRIBUTES, CACHE = (
    B + x + '.py' for x in ('mapping', 'storage', 'nodespace', 'attributes',
                            'cache'))
ALIAS, LIFECYCLE, EVENTS, FALLBACK = (
    B + x + '.py' for x in ('alias', 'lifecycle', 'events', 'fallback'))
UTILS, SERIALIZER, LOCKING, BASE = ('utils.py', 'serializer.py', 'locking.py',
                                    'base.py')

ATTRS = ATTRIBUTES

for _f in ('bugdefs.py', 'bugdefs2.py', 'bugdefs3.py', 'bugdefs4.py',
           'bugdefs5.py', 'bugdefs6.py', 'bugdefs7.py',
           'bugdefs8.py', 'bugdefs9.py', 'bugdefs10.py', 'bugdefs11.py'):
    exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)),
                           _f)).read())


def one(i):
    from mutate import RUN
    from sa import main as M
    from sa.source import Program
    pid, rel, edits = BUGS[i]
    w = tempfile.mkdtemp(prefix='bug-')
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns(
            '__pycache__', '*.pyc', '.git'))
        p = '%s/r/src/node/%s' % (w, rel)
        s = open(p).read()
        for k in range(0, len(edits), 2):
            if edits[k] not in s:
                return i, 'NOMATCH', edits[k]
            s = s.replace(edits[k], edits[k + 1], 1)
        try:
            compile(s, p, 'exec')
        except SyntaxError as e:
            return i, 'SYNTAX', str(e)
        open(p, 'w').write(s)
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN, w + '/r/src', '-q', '-x',
             '-p', 'no:cacheprovider', '--timeout=20', '--deselect',
             'src/node/tests/test_testing.py::TestFullmapping::'
             'test___setitem__', 'src/node/tests'],
            cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, env=dict(
                os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                PYTHONPATH=w + '/r/src'))
        if r.returncode:
            return i, 'TESTS', ' | '.join(
                r.stdout.strip().splitlines()[-2:])[:200]
        fns = M.specs()
        got = {}
        for x in [pid] + [y for y in sorted(fns) if y != pid]:
            c = M.run(x, fns[x], Program(w + '/r/src'))
            new, listed = M.report(c, x)
            if new:
                got[x] = sorted(set(v.what for v in new))[0]
            if x == pid:
                if new:
                    return i, 'CAUGHT', got[x]
                und = sorted(set(c.undecided))[:3]
        if got:
            return i, 'OTHER', str(got)[:300] + ' UND %s' % (und,)
        return i, 'MISSED', 'undecided %s' % (und,)
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    from multiprocessing import Pool
    part = sys.argv[1] if len(sys.argv) > 1 else ''
    ids = [i for i, x in enumerate(BUGS) if part in x[0] or part in x[1] or
           part == str(i) or part[:1] == '+' and i >= int(part)]
    n = {}
    with Pool(8) as pool:
        for i, kind, text in pool.imap(one, ids):
            n[kind] = n.get(kind, 0) + 1
            if kind != 'CAUGHT' or '-v' in sys.argv:
                print('%3d %s %s %s: %s' % (
                    i, kind, BUGS[i][0], BUGS[i][1], text[:500]))
                if kind in ('MISSED', 'OTHER'):
                    print('\n'.join('      ' + l for l in BUGS[i][2][
                        1].strip('\n').splitlines()[:12]))
    print(n)
