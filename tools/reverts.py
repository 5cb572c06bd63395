"""Reverts each fix commit of /repo in a scratch copy and runs the checks.

tools/reverts.py [COMMIT...]   Development tool.
"""
import os, shutil, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from multiprocessing import Pool
from sa import main as M
from sa.source import Program


def git(*a, **kw):
    return subprocess.run(('git', '-C', '/repo') + a, stdout=subprocess.PIPE,
                          text=True, **kw).stdout


def one(rev):
    w = tempfile.mkdtemp(prefix='revert-')
    out = []
    try:
        subprocess.run(['git', 'clone', '-q', '/repo', w + '/r'], check=True)
        g = ['git', '-C', w + '/r', '-c', 'user.name=x',
             '-c', 'user.email=x@x']
        r = subprocess.run(g + ['revert', '--no-edit', rev],
                           stdout=subprocess.DEVNULL,
                           stderr=subprocess.DEVNULL)
        if r.returncode:
            # later fixes touch the same lines: look at the tree it broke
            subprocess.run(g + ['revert', '--abort'],
                           stderr=subprocess.DEVNULL)
            subprocess.run(g + ['checkout', '-q', rev + '^'], check=True)
            out.append('(parent of the commit)')
        fns = M.specs()
        for pid in sorted(fns):
            c = M.run(pid, fns[pid], Program(w + '/r/src'))
            new, listed = M.report(c, pid)
            for v in sorted(set(v.what for v in new)):
                out.append('%s %s' % (pid, v))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return rev, out


if __name__ == '__main__':
    revs = sys.argv[1:] or [
        l.split()[0] for l in git('log', '--format=%h %s').splitlines()
        if l.split(' ', 1)[1].startswith('fix:')]
    with Pool(8) as pool:
        for rev, out in pool.imap(one, revs):
            print('%s %s' % ('NOT DETECTED' if not [
                o for o in out if not o.startswith('(')] else 'detected', git(
                    'log', '-1', '--format=%h %s', rev).strip()))
            for o in out[:4]:
                print('      ' + o[:160])
