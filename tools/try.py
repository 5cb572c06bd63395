"""Run checks on a scratch variant: tools/try.py FILE LINE-REGEX REPLACEMENT IDs...

FILE is relative to src/node; the first match of the regular expression
(multi line) is replaced.  Development tool.
"""
import os, re, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
os.environ['SA_DEBUG'] = '1'
sys.setrecursionlimit(20000)
from sa import main as M
from sa.source import Program


def main(rel, pat, rep, pids):
    w = tempfile.mkdtemp(prefix='try-')
    try:
        shutil.copytree('/repo/src', w + '/src', ignore=shutil.ignore_patterns(
            '__pycache__', '*.pyc'))
        p = '%s/src/node/%s' % (w, rel)
        s = open(p).read()
        n, k = re.subn(pat, rep, s, count=1)
        if not k:
            print('NO MATCH')
            return
        compile(n, p, 'exec')
        open(p, 'w').write(n)
        fns = M.specs()
        for pid in pids or sorted(fns):
            c = M.run(pid, fns[pid], Program(w + '/src'))
            new, listed = M.report(c, pid)
            if new or c.undecided or c.missing or pids:
                print('%s: held %d, undecided %d, violated %d' % (
                    pid, c.held, len(c.undecided), len(new)))
            for u in sorted(set(c.undecided)):
                print('   UNDECIDED', u)
            for m in c.missing:
                print('   MISSING', m)
            for v in sorted(set(v.what for v in new)):
                print('   ', v[:400])
    finally:
        shutil.rmtree(w, ignore_errors=True)


main(sys.argv[1], sys.argv[2], sys.argv[3], sys.argv[4:])
