#!/usr/bin/env python3
"""Runs checks on changed copies of /repo, each in a mount namespace of its own, so that /repo and /verif stay as they are.

  quiet.py refactors [ID..]     the edits of refactors.py that change no behaviour: every check has to stay quiet
  quiet.py seeded [ID..]        the planted bugs: the check of its property has to report each one
"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/quiet'


def trial(name, change, props):
    d = os.path.join(SCRATCH, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    shutil.copytree(ROOT, d + '/verif', ignore=shutil.ignore_patterns('work', '.git', 'seeded', 'evidence'))
    change(d + '/repo')
    out = []
    for p in props:
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif %s && '
                            'cd %s && exec python3 check.py %s' % (d, d, ROOT, ROOT, p)], capture_output=True, text=True)
        lines = [l[:300] for l in r.stdout.splitlines() if l.startswith(('VIOLATION', 'UNDECIDED', 'what fails'))]
        out.append((p, r.returncode, lines))
    shutil.rmtree(d, ignore_errors=True)
    return name, out


def edited(edits):
    def change(repo):
        for f, e in edits:
            p = os.path.join(repo, f)
            s = open(p).read()
            t = e(s)
            assert s != t
            open(p, 'w').write(t)
    return change


def patched(patch):
    return lambda repo: subprocess.run(['git', '-C', repo, 'apply', patch], check=True)


def main():
    what, ids = sys.argv[1], sys.argv[2:]
    jobs = []
    if what == 'refactors':
        sys.path.insert(0, os.path.join(ROOT, 'tools'))
        from refactors import REFACTORS
        from refactors2 import BIGGER
        for name, props, edits in REFACTORS + BIGGER:
            if not ids or name in ids or ids == ['bigger'] and (name, props, edits) in BIGGER:
                jobs.append((name, edited(edits), props))
    else:
        for name in sorted(os.listdir(ROOT + '/seeded')):
            if not ids or name in ids:
                b = os.path.join(ROOT, 'seeded', name)
                jobs.append((name, patched(b + '/patch.diff'), [json.load(open(b + '/meta.json'))['property']]))
    bad = 0
    with ThreadPoolExecutor(2) as ex:
        for name, out in ex.map(lambda j: trial(*j), jobs):
            for p, rc, lines in out:
                ok = rc == (0 if what == 'refactors' else 1)
                bad += not ok
                print('%s %s %s exit %d' % ('ok ' if ok else 'BAD', name, p, rc))
                for l in lines:
                    print('      ' + l)
            sys.stdout.flush()
    return 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
