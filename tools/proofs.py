#!/usr/bin/env python3
"""proofs.py [ID..]: which obligations fail on each planted bug, the search set aside; writes work/proofs.json."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'tools'), os.path.join(ROOT, 'lib')]
SCRATCH = '/tmp/proofs'

ONE = '''
import json, os, sys
sys.path.insert(0, %r)
from common import *
from config import CONFIG
from kani import Kani
from probes import Probes
from verus import Verus
c = CONFIG[sys.argv[1]]
work = os.path.join(ROOT, 'work', sys.argv[1])
os.makedirs(work, exist_ok=True)
v, k, p = Verus(work, c.get('verus', {}), 420), Kani(work, c.get('kani', []), c.get('contracts'), 480), Probes(work, c.get('probes', False))
v.go(); k.go(); p.go()
print('RESULT' + json.dumps(dict(verus=[x['obligation'] for x in v.violations], kani=[h for h, _ in k.violations], probes=len(p.violations),
                        undecided=[u[:300] for u in v.undecided + k.undecided + p.undecided])))
''' % os.path.join(ROOT, 'lib')


def one(name):
    b = os.path.join(ROOT, 'seeded', name)
    prop = json.load(open(b + '/meta.json'))['property']
    d = os.path.join(SCRATCH, name)
    os.makedirs(d)
    subprocess.run(['cp', '-a', '/repo', d + '/repo'], check=True)
    subprocess.run(['rsync', '-a', '--exclude', 'work', '--exclude', '.git', '--exclude', 'seeded', ROOT + '/', d + '/verif'], check=True) \
        if os.path.exists('/usr/bin/rsync') else __import__('shutil').copytree(ROOT, d + '/verif', ignore=__import__('shutil').ignore_patterns('work', '.git', 'seeded'))
    subprocess.run(['git', '-C', d + '/repo', 'apply', b + '/patch.diff'], check=True)
    open(d + '/verif/one.py', 'w').write(ONE)
    r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s/repo /repo && mount --bind %s/verif %s && cd %s && exec python3 one.py %s'
                        % (d, d, ROOT, ROOT, prop)], capture_output=True, text=True)
    subprocess.run(['find', d, '-delete'])
    out = [l for l in r.stdout.splitlines() if l.startswith('RESULT')]
    return name, prop, json.loads(out[0][6:]) if out else {'error': (r.stdout + r.stderr)[-500:]}


def main():
    names = sys.argv[1:] or sorted(os.listdir(ROOT + '/seeded'))
    res = {}
    with ThreadPoolExecutor(3) as ex:
        for name, prop, r in ex.map(one, names):
            res[name] = dict(r, property=prop)
            print(name, prop, json.dumps(r)[:700], flush=True)
    os.makedirs(ROOT + '/work', exist_ok=True)
    json.dump(res, open(ROOT + '/work/proofs.json', 'w'), indent=1)


if __name__ == '__main__':
    main()
