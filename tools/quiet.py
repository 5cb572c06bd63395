"""Behaviour preserving variants of the code: every check has to stay quiet.

tools/quiet.py [NAME-PART]   Development tool; variants in tools/variants.py.
"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
os.environ['SA_DEBUG'] = '1'
from mutate import RUN
from sa import main as M
from sa.source import Program
from variants import VARIANTS
from variants2 import REFACTORINGS
from variants3 import REFACTORINGS3
from variants4 import REFACTORINGS4
from variants5 import REFACTORINGS5
from variants6 import REFACTORINGS6
from variants7 import REFACTORINGS7
from variants8 import REFACTORINGS8
from variants9 import REFACTORINGS9
VARIANTS = [(r, ((o, n),)) for r, o, n in VARIANTS] + REFACTORINGS + REFACTORINGS3 + \
    REFACTORINGS4 + REFACTORINGS5 + REFACTORINGS6 + REFACTORINGS7 + \
    REFACTORINGS8 + REFACTORINGS9


def one(i):
    rel, edits = VARIANTS[i]
    out = []
    w = tempfile.mkdtemp(prefix='quiet-')
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns(
            '__pycache__', '*.pyc', '.git'))
        p = '%s/r/src/node/%s' % (w, rel)
        s = open(p).read()
        for old, new in edits:
            if old not in s:
                return i, ['NO MATCH: ' + old]
            s = s.replace(old, new)
        open(p, 'w').write(s)
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN, w + '/r/src', '-q', '-x',
             '-p', 'no:cacheprovider', '--timeout=20', '--deselect',
             'src/node/tests/test_testing.py::TestFullmapping::'
             'test___setitem__', 'src/node/tests'],
            cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, env=dict(
                os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                PYTHONPATH=w + '/r/src'))
        if r.returncode:
            out.append('TESTS FAIL: ' + ' | '.join(
                r.stdout.strip().splitlines()[-4:])[:400])
        fns = M.specs()
        for pid in sorted(fns):
            try:
                c = M.run(pid, fns[pid], Program(w + '/r/src'))
            except Exception as e:
                out.append('CRASH %s %s: %s' % (pid, type(e).__name__, e))
                continue
            new_, listed = M.report(c, pid)
            for u in sorted(set(c.undecided)):
                out.append('undecided %s %s' % (pid, u))
            for v in sorted(set(v.what for v in new_)):
                out.append('ALARM %s %s' % (pid, v))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return i, out


if __name__ == '__main__':
    from multiprocessing import Pool
    part = sys.argv[1] if len(sys.argv) > 1 else ''
    ids = [i for i, v in enumerate(VARIANTS) if part in v[0] or
           part in v[1][0][1] or part == str(i) or
           part == '2' and i >= len(VARIANTS) - len(REFACTORINGS)]
    with Pool(8) as pool:
        for i, out in pool.imap(one, ids):
            if out:
                print('--- %d %s' % (i, VARIANTS[i][0]))
                print('\n'.join('    ' + l for l in VARIANTS[i][1][0][1].strip(
                    '\n').splitlines()[:8]))
                for o in out:
                    print('   ', o[:260])
    print('%d variants' % len(ids))
