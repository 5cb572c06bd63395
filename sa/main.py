"""Runs the checks: python3 -m sa.main [--thorough] C01 [C02 ...]"""
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def specs():
    import importlib
    import pkgutil
    from . import specs as pkg
    out = {}
    for m in pkgutil.iter_modules(pkg.__path__):
        mod = importlib.import_module('sa.specs.' + m.name)
        for n in dir(mod):
            if len(n) == 3 and n[0] == 'C' and n[1:].isdigit():
                out[n] = getattr(mod, n)
    return out


def load_known():
    p = os.path.join(HERE, 'known-findings.txt')
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                rest = line[len('known: '):]
                prop, key, what = [x.strip() for x in rest.split('|', 2)]
                out.append((prop.split('=')[1], key, what))
    return out


def run(pid, fn, prog=None, thorough=False):
    from .lib import Analyzer, Checker, Missing, Program, Skip
    t0 = time.time()
    A = Analyzer(prog or Program())
    c = Checker(A, pid)
    c.thorough = thorough
    try:
        fn(c)
        if thorough:
            from .specs.stacks import DEEP
            if pid in DEEP:
                c.part(DEEP[pid], c)
    except Missing as e:
        c.missing.append(str(e))
    except Skip:
        pass
    except Exception as e:
        if os.environ.get('SA_DEBUG'):
            raise
        c.undecided.append(('internal', '', '%s: %s' % (type(e).__name__, e)))
    c.wall = time.time() - t0
    return c


def report(c, pid):
    known = [(k, w) for p, k, w in load_known() if p == pid]
    new, listed = [], []
    for v in c.violations:
        sig = signature(v)
        for k, w in known:
            if sig == k:
                listed.append((k, w))
                break
        else:
            new.append(v)
    return new, sorted(set(listed))


def signature(v):
    return '%s @ %s' % (v.what.split(':')[0], v.where[2])


def evidence(c, pid, new, listed):
    d = {
        'property_id': pid,
        'tier': os.environ.get('VERIF_TIER', 'quick'),
        'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other',
        'technique': 'path sensitive abstract interpretation of the source '
                     '(no execution, no solver)',
        'coverage': {
            'explanation': 'obligations are (function, abstract path, rule) '
                           'triples decided from the syntax tree of the '
                           'current source; every returning and raising '
                           'abstract path of the functions listed was '
                           'enumerated',
            'functions_analysed': sorted(c.functions),
            'functions_inlined': len(c.A.cover),
            'call_sites': len(c.A.call_sites),
            'abstract_paths': c.paths,
            'obligations_held': c.held,
            'obligations_undecided': len(c.undecided),
            'rules': c.rules,
            'undecided': [list(u) for u in sorted(set(c.undecided))][:50],
            'missing_anchors': c.missing,
        },
        'assumptions': ASSUMPTIONS,
        'violations': [dict(what=v.what, file=v.where[0], line=v.where[1],
                            function=v.where[2]) for v in new],
        'known_findings': [w for k, w in listed],
        'wall_s': round(c.wall, 3),
    }
    p = os.path.join(HERE, 'evidence')
    os.makedirs(p, exist_ok=True)
    with open(os.path.join(p, pid + '.json'), 'w') as f:
        json.dump(d, f, indent=1, sort_keys=True)
        f.write('\n')


ASSUMPTIONS = [
    'library code outside of the repository (plumber, odict, zope.interface, '
    'the standard library) behaves as documented',
    'objects providing INode are true values and their name and parent are '
    'those of __name__ and __parent__',
    'attribute access of opaque objects does not fail unless an enclosing '
    'handler names AttributeError',
]


def main(argv):
    fns = specs()
    thorough = '--thorough' in argv
    pids = [a for a in argv if a != '--thorough'] or sorted(fns)
    rc = 0
    for pid in pids:
        c = run(pid, fns[pid], thorough=thorough)
        new, listed = report(c, pid)
        evidence(c, pid, new, listed)
        print('%s: %d functions, %d abstract paths, %d obligations hold, %d '
              'undecided, %d violated, %.2fs' % (
                  pid, len(c.functions), c.paths, c.held, len(c.undecided),
                  len(new), c.wall))
        for u in sorted(set(c.undecided)):
            print('UNDECIDED: %s in %s: %s' % u)
        for m in c.missing:
            print('MISSING ANCHOR: %s' % m)
        for k, w in listed:
            print('KNOWN-FINDING: property=%s %s' % (pid, w))
        if new:
            rp = os.path.join(HERE, 'evidence', pid + '.violations.txt')
            seen = set()
            with open(rp, 'w') as f:
                for v in new:
                    text = '%s:%s %s\n    %s' % (v.where[0], v.where[1],
                                                 v.where[2], v.what)
                    if text not in seen:
                        seen.add(text)
                        print(text)
                    f.write(text + '\n')
                    if v.path is not None:
                        for l in v.path.describe():
                            f.write('        ' + l + '\n')
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
        elif not c.held and rc == 0:
            rc = 2
    return rc


if __name__ == '__main__':
    sys.setrecursionlimit(20000)
    sys.exit(main(sys.argv[1:]))
