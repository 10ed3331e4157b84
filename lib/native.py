"""The search on the real crate: looks for a failing input, never decides that a property holds."""
import json, os, re, subprocess
from common import *


class Native:
    def __init__(self, work, prop, seed, derived=None):
        self.work, self.prop, self.seed, self.derived = work, prop, seed, derived
        self.profile = 'plain' if prop in ('C01', 'C02', 'C03') else 'release'
        self.bin = os.path.join(work, 'nt', self.profile, 'search')
        self.rs = os.path.join(work, 'derived.rs')
        self.dict = os.path.join(work, 'dict.txt')
        self.stats = None
        self.failures = []
        self.undecided = None
        self.build_error = None

    def build(self):
        dictionary(self.dict)
        cmd = ['cargo', 'build', '--profile', self.profile, '--offline', '--target-dir', os.path.join(self.work, 'nt')]
        extra = {}
        if self.derived:
            gen = subprocess.run(['python3', os.path.join(ROOT, 'native/gen_derived.py'), str(self.seed),
                                  str(self.derived), self.rs], capture_output=True, text=True)
            if gen.returncode:
                self.build_error = gen.stderr
                return False
            extra['DERIVED_RS'] = self.rs
            cmd += ['--features', 'derived']
        if self.prop == 'C11':
            cmd += ['--features', 'wrapped']
        r = run(cmd, os.path.join(self.work, 'native-build.log'), cwd=os.path.join(ROOT, 'native'),
                timeout=600, extra=extra)
        if r.rc:
            self.build_error = r.out
            return False
        return True

    def search(self, secs, seed=None, timeout=None, name='native'):
        seed = self.seed if seed is None else seed
        base = [self.bin, self.prop, '--seed', str(seed), '--secs', str(secs), '--dict', self.dict]
        r = run(base, os.path.join(self.work, name + '.log'), cwd=self.work, timeout=timeout or secs + 240)
        if r.timed_out:
            self.undecided = 'the search did not end in time'
            return
        for l in r.out.splitlines():
            if l.startswith('STATS '):
                s = json.loads(l[6:])
                if self.stats:
                    s['evaluations'] += self.stats['evaluations']
                    s['distinct_nontrivial'] += self.stats['distinct_nontrivial']
                self.stats = s
            m = re.match(r'FAILURE case=(\S+) (.*)', l)
            if m:
                self.failures.append({'case': m[1], 'what': m[2], 'seed': seed})
        if r.rc not in (0, 1) and not self.failures:
            # The process died: a stack overflow, an abort, or a kill. Find the case.
            trace = os.path.join(self.work, 'trace.txt')
            run(base + ['--trace', trace], os.path.join(self.work, name + '-trace.log'), cwd=self.work,
                timeout=timeout or secs + 240)
            seen = []
            if os.path.exists(trace):
                for l in open(trace, errors='replace'):
                    m = re.match(r'(\S+)\s*:0*(\d+)$', l.strip('\0\n'))
                    if m:
                        seen.append('%s:%s' % (m[1], m[2]))
            for c in seen:
                q = self.case(c)
                if q.rc != 0:
                    self.failures.append({'case': c, 'what': 'the process dies (exit %s): %s'
                                          % (q.rc, q.out.strip()[-300:]), 'seed': seed})
                    break
            else:
                self.undecided = 'the search died (exit %s) and no single case repeats it' % r.rc

    def case(self, case):
        return run([self.bin, self.prop, '--case', case, '--dict', self.dict],
                   os.path.join(self.work, 'case.log'), cwd=self.work, timeout=180)
