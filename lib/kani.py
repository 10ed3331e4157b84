"""Kani: contracts on the crate-private primitives and complete harnesses on the public API."""
import os, re, shutil
from common import *

# What a verifier reports when it gives up, as opposed to when it finds a violation.
GIVES_UP = re.compile(r'unwinding assertion|not currently supported|unsupported|is not supported|'
                      r'recursion unwinding|reached assert!\(false\) stub|foreign function', re.I)


def parse(out):
    """Harness -> {ok, failed: [description], checks, secs, covers}"""
    cur, res, th = {}, {}, '0'
    for l in out.splitlines():
        m = re.match(r'(?:Thread (\d+): )?Checking harness (\S+?)\.\.\.', l)
        if m:
            th = m[1] or '0'
            cur[th] = m[2]
            res[m[2]] = {'ok': None, 'failed': [], 'checks': 0, 'secs': 0.0, 'covers': [0, 0]}
            continue
        m = re.match(r'Thread (\d+):', l)
        if m:
            th = m[1]
        h = res.get(cur.get(th))
        if h is None:
            continue
        m = re.match(r'\s*\*\* (\d+) of (\d+) failed(.*)', l)
        if m:
            h['checks'] = int(m[2])
        m = re.match(r'\s*\*\* (\d+) of (\d+) cover properties satisfied', l)
        if m:
            h['covers'] = [int(m[1]), int(m[2])]
        m = re.match(r'Failed Checks: (.*)', l)
        if m:
            h['failed'].append(m[1])
        m = re.match(r'VERIFICATION:- (\S+)', l)
        if m:
            h['ok'] = m[1] == 'SUCCESSFUL'
        m = re.match(r'Verification Time: ([\d.]+)s', l)
        if m:
            h['secs'] = float(m[1])
    return res


class Kani:
    def __init__(self, work, patterns, contracts, timeout, crate='kani', harness_timeout=240):
        self.work, self.patterns, self.contracts, self.timeout = work, patterns, contracts, timeout
        self.crate, self.harness_timeout = crate, harness_timeout
        self.harnesses = {}
        self.undecided = []
        self.violations = []  # (harness, [failed check])
        self.cmds = []
        self.secs = 0.0

    def _one(self, cmd, cwd, name, extra):
        self.cmds.append('cd %s && %s%s' % (cwd, ''.join('%s=%r ' % kv for kv in extra.items()), ' '.join(cmd)))
        r = run(cmd, os.path.join(self.work, name + '.log'), cwd=cwd, timeout=self.timeout, extra=extra)
        self.secs += r.secs
        found = parse(r.out)
        if not found:
            self.undecided.append('%s: no harness was checked (%s)' % (name, tail(r.out)))
        for h, v in found.items():
            self.harnesses[h] = v
            if v['ok'] and v['checks'] == 0:
                self.undecided.append(h + ': no obligation was generated')
            elif v['ok'] and v['covers'][0] < v['covers'][1]:
                self.undecided.append('%s: only %d of %d covers are reachable' % (h, *v['covers']))
            elif v['ok']:
                pass
            else:
                real = [c for c in v['failed'] if not GIVES_UP.search(c)]
                gave_up = [c for c in v['failed'] if GIVES_UP.search(c)]
                if real and not gave_up:
                    self.violations.append((h, real))
                else:
                    self.undecided.append('%s: %s' % (h, '; '.join(gave_up) or 'no answer (time, memory or tool limit)'))

    def complete(self):
        return bool(self.harnesses) and not self.undecided and all(v['ok'] for v in self.harnesses.values())

    def go(self):
        if self.contracts:
            self._one(['cargo', 'kani', '-Z', 'function-contracts', '-Z', 'stubbing', '--harness', self.contracts,
                       '--target-dir', os.path.join(self.work, 'kc'), '--output-format', 'terse', '-j', '8',
                       '--harness-timeout', '240s', '-Z', 'unstable-options'],
                      os.path.join(REPO, 'dlhn'), 'kani-contracts', {'RUSTFLAGS': '--cfg dlhn_contracts'})
        if self.patterns:
            cmd = ['cargo', 'kani']
            for p in self.patterns:
                cmd += ['--harness', p]
            cmd += ['--target-dir', os.path.join(self.work, 'kt' if self.crate == 'kani' else 'ka'), '--output-format', 'terse',
                    '-j', '8' if self.crate == 'kani' else '4', '--harness-timeout', '%ds' % self.harness_timeout, '-Z', 'unstable-options']
            self._one(cmd, os.path.join(ROOT, self.crate), self.crate, {})

    def playback(self, harness):
        """Replays the counterexample of a harness on the real code. The input if it fails there."""
        if '::proofs::' in harness or harness.startswith('contracts::'):
            return None, None
        copy = os.path.join(self.work, 'playback')
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree(os.path.join(ROOT, 'kani'), copy)
        r = run(['cargo', 'kani', '--harness', harness, '--exact', '-Z', 'concrete-playback',
                 '--concrete-playback=inplace', '--target-dir', os.path.join(self.work, 'kt'),
                 '--output-format', 'terse'], os.path.join(self.work, 'playback1.log'), cwd=copy, timeout=300)
        test = None
        for d, _, fs in os.walk(copy + '/src'):
            for f in fs:
                t = open(os.path.join(d, f)).read()
                m = re.search(r'fn (kani_concrete_playback_\w+)\(\) \{(.*?)\n\s*\}', t, re.S)
                if m:
                    test = m[1], m[0]
        if not test:
            return None, tail(r.out)
        r = run(['cargo', 'kani', 'playback', '-Z', 'concrete-playback', '--target-dir',
                 os.path.join(self.work, 'kp'), '--', test[0]], os.path.join(self.work, 'playback2.log'),
                cwd=copy, timeout=300)
        if 'test result: FAILED' in r.out:
            return test[1], tail(r.out, 40)
        return None, tail(r.out)


def tail(t, n=8):
    return ' | '.join(l for l in t.strip().splitlines()[-n:])[-1500:]
