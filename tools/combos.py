"""Several behaviour preserving variants at once: checks have to stay quiet.

tools/combos.py SEED [N]   Development tool; variants in tools/variants*.py,
put together at random, every variant in one of the N combinations at least.
"""
import os, random, shutil, subprocess, sys, tempfile
from quiet import M, Program, RUN, VARIANTS
from moves import MOVES


def combination(rng, first):
    """Contents of the changed files, numbers of the variants applied."""
    texts, used = {}, []

    def apply(edits):
        new = dict(texts)
        for rel, old, repl in edits:
            if rel not in new:
                new[rel] = open('/repo/src/node/' + rel).read()
            orig = open('/repo/src/node/' + rel).read()
            if old not in new[rel] or new[rel].count(old) != orig.count(old):
                return False
            new[rel] = new[rel].replace(old, repl)
        for rel in new:
            try:
                compile(new[rel], rel, 'exec')
            except SyntaxError:
                return False
        texts.update(new)
        return True
    order = [first] + rng.sample(range(len(VARIANTS)), 60)
    for i in order:
        rel, edits = VARIANTS[i]
        if apply([(rel, o, n) for o, n in edits]):
            used.append(i)
        if len(used) >= 8:
            break
    return texts, used


def one(a):
    seed, first = a
    texts, used = combination(random.Random(seed * 10007 + first), first)
    out = []
    w = tempfile.mkdtemp(prefix='combo-')
    try:
        shutil.copytree('/repo', w + '/r', ignore=shutil.ignore_patterns(
            '__pycache__', '*.pyc', '.git'))
        for rel, s in texts.items():
            open('%s/r/src/node/%s' % (w, rel), 'w').write(s)
        r = subprocess.run(
            ['/opt/venv/bin/python', '-c', RUN, w + '/r/src', '-q', '-x',
             '-p', 'no:cacheprovider', '--timeout=20', '--deselect',
             'src/node/tests/test_testing.py::TestFullmapping::'
             'test___setitem__', 'src/node/tests'],
            cwd=w + '/r', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
            text=True, env=dict(
                os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0',
                PYTHONPATH=w + '/r/src'))
        if r.returncode:
            return a, used, ['TESTS FAIL: ' + ' | '.join(
                r.stdout.strip().splitlines()[-3:])[:300]]
        fns = M.specs()
        for pid in sorted(fns):
            try:
                c = M.run(pid, fns[pid], Program(w + '/r/src'))
            except Exception as e:
                out.append('CRASH %s %s: %s' % (pid, type(e).__name__, e))
                continue
            new_, listed = M.report(c, pid)
            for v in sorted(set(v.what for v in new_)):
                out.append('ALARM %s %s' % (pid, v))
    finally:
        shutil.rmtree(w, ignore_errors=True)
    return a, used, out


if __name__ == '__main__':
    from multiprocessing import Pool
    seed = int(sys.argv[1])
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 10 ** 6
    todo = list(range(len(VARIANTS)))
    random.Random(seed).shuffle(todo)
    left, jobs = set(todo), []
    for first in todo:
        if first in left and len(jobs) < n:
            jobs.append((seed, first))
            left -= set(combination(random.Random(
                seed * 10007 + first), first)[1])
            left.discard(first)
    bad = 0
    with Pool(8) as pool:
        for a, used, out in pool.imap(one, jobs):
            if out:
                bad += 1
                print('---', a, used)
                for o in out:
                    print('   ', o[:260])
                sys.stdout.flush()
    print('%d combinations, %d reported' % (len(jobs), bad))
