"""Generates and validates the planted bugs of /verif/seeded.

Usage: seed.py [ID...]; definitions are in tools/seeds.py.
"""
import json
import os
import re
import shutil
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from seeds import SEEDS  # noqa

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = 'ff5d7c3'
WORK = '/tmp/seedwork'
PY = '/opt/venv/bin/python'
DEMO = '''#!/bin/sh
# {what}
here="$(cd "$(dirname "$0")" && pwd)"
PYTHONDONTWRITEBYTECODE=1 exec timeout 120 \\
    /opt/venv/bin/python "$here/demo.py"
'''
PRE = '''import os
import sys
# the library of the working directory
for name in [n for n in sys.modules if n.split('.')[0] == 'node']:
    del sys.modules[name]
sys.path.insert(0, os.path.join(os.getcwd(), 'src'))
'''


def sh(cmd, cwd=None, env=None):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
    e.update(env or {})
    return subprocess.run(cmd, cwd=cwd, env=e, shell=isinstance(cmd, str),
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True)


def tests(work):
    import mutate
    r = sh([PY, '-c', mutate.RUN, work + '/src', '-q', '-p',
            'no:cacheprovider', '--timeout=60', '--deselect',
            'src/node/tests/test_testing.py::TestFullmapping::'
            'test___setitem__',
            'src/node/tests'], work, {'PYTHONPATH': work + '/src'})
    failed = re.findall(r'^FAILED (\S+)', r.stdout, re.M)
    if '110 passed' not in r.stdout:
        failed.append('run: ' + r.stdout[-300:])
    return failed


def blame_ok(diff):
    """Every removed line stems from the original commit."""
    bad = []
    f = None
    n = 0
    for l in diff.splitlines():
        if l.startswith('--- a/'):
            f = l[6:]
        m = re.match(r'@@ -(\d+)', l)
        if m:
            n = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            b = sh(['git', 'blame', '-l', '-s', '-L', '%d,%d' % (n, n), f],
                   '/repo').stdout
            if not b.lstrip('^').startswith(FULL[:39]):
                bad.append('%s:%d %s' % (f, n, l))
            n += 1
        elif l.startswith(' '):
            n += 1
    return bad


FULL = sh(['git', 'rev-parse', BASE], '/repo').stdout.strip()


def main(ids):
    ok = True
    for s in SEEDS:
        if ids and s['id'] not in ids:
            continue
        shutil.rmtree(WORK, ignore_errors=True)
        sh(['git', 'clone', '-q', '/repo', WORK])
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        open(d + '/demo.py', 'w').write(PRE + s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO.format(what=s['breaks']))
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': s['property'], 'needs': s['needs'],
                   'what_it_breaks': s['breaks']},
                  open(d + '/meta.json', 'w'), indent=1)
        before = sh([d + '/demo.sh'], WORK)
        prob = []
        if before.returncode:
            prob.append('demo fails unpatched:\n' + before.stdout[-600:])
        for f, old, new in s['edits']:
            p = os.path.join(WORK, 'src/node', f)
            t = open(p).read()
            if t.count(old) != 1:
                prob.append('%d matches of %r' % (t.count(old), old))
                continue
            open(p, 'w').write(t.replace(old, new))
        diff = sh(['git', 'diff'], WORK).stdout
        open(d + '/patch.diff', 'w').write(diff)
        after = sh([d + '/demo.sh'], WORK)
        if not after.returncode:
            prob.append('demo passes patched')
        elif '-v' in sys.argv:
            print(after.stdout[-400:])
        f = tests(WORK)
        if f:
            prob.append('tests fail: %s' % f[:4])
        if not re.search(r'^-[^-]', diff, re.M):
            prob.append('no original line is changed')
        b = blame_ok(diff)
        if b:
            prob.append('changes own lines: %s' % b)
        caught = '-'
        if not prob:
            from sa import main as M
            from sa.source import Program
            fns = M.specs()
            hits = []
            for pid in sorted(fns):
                c = M.run(pid, fns[pid], Program(WORK + '/src'))
                if M.report(c, pid)[0]:
                    hits.append(pid)
            caught = 'CAUGHT' if s['property'] in hits else 'MISSED'
            caught += ' ' + ','.join(hits)
        else:
            ok = False
        print('%-28s %-5s %-24s %s' % (s['id'], s['property'], caught,
                                       '; '.join(prob)))
    shutil.rmtree(WORK, ignore_errors=True)
    return 0 if ok else 1


if __name__ == '__main__':
    sys.exit(main([a for a in sys.argv[1:] if a != '-v']))
