#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property of /repo's working tree: exit 0 if it held, exit 1 and a VIOLATION line if not.
"""
import argparse, json, os, shutil, sys, threading, time

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
from common import *
from config import CONFIG, DISCHARGED, ELSEWHERE
from kani import Kani
from native import Native
from probes import Probes
from verus import Verus

QUICK, THOROUGH = 'quick', 'thorough'


def known_findings(prop):
    """The committed findings of one property: [(case, what)]."""
    found = []
    for l in open(os.path.join(ROOT, 'known-findings.txt')):
        m = re.match(r'finding: property=(\S+) case=(\S+) (.*)', l)
        if m and m[1] == prop:
            found.append((m[2], m[3]))
    return found


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or QUICK)
    ap.add_argument('--replay')
    a = ap.parse_args()
    prop = a.property
    if prop not in CONFIG:
        sys.exit('no such property: ' + prop)
    c = CONFIG[prop]
    tier = THOROUGH if a.tier == THOROUGH else QUICK
    thorough = tier == THOROUGH
    try:
        seed = int(os.environ.get('VERIF_SEED') or 1)
    except ValueError:
        seed = 1
    t0 = time.time()
    work = os.path.join(ROOT, 'work', prop)
    replays = os.path.join(ROOT, 'work', 'replays')
    if a.replay:
        return replay(a.replay, prop, work)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    os.makedirs(replays, exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    derived = (c.get('derived', 0) * (4 if thorough else 1)) or None
    secs = c['secs'] * (15 if thorough else 1)
    native = Native(work, prop, seed, derived)
    kani = Kani(work, c.get('kani', []) + (c.get('kani_thorough', []) if thorough else []),
                c.get('contracts'), 2400 if thorough else 480)
    assumed = Kani(work, c.get('assumed', []) + (c.get('assumed_thorough', []) if thorough else []),
                   None, 2400 if thorough else 300, 'assumed', 1200 if thorough else 150)
    verus = Verus(work, c.get('verus', {}), 1200 if thorough else 420)
    probes = Probes(work, c.get('probes', False))
    errors = []
    findings = []

    def guarded(f):
        def g():
            try:
                f()
            except Exception as e:
                if not STOPPING.is_set():
                    errors.append('%s: %s: %s' % (f.__name__, type(e).__name__, e))
        return g

    def do_native():
        if not native.build():
            return
        native.search(secs)
        if native.failures:
            stop_all()
            return
        for case, what in known_findings(prop):
            known = Native(work, 'KNOWN', seed, derived)
            known.bin = native.bin
            r = known.case(case)
            if r.rc == 2:
                raise RuntimeError('no such case: ' + case)
            findings.append((case, what, r.rc != 0))

    def do_kani():
        kani.go()

    def do_assumed():
        assumed.go()

    def do_verus():
        verus.go()

    def do_probes():
        probes.go()

    threads = [threading.Thread(target=guarded(f)) for f in (do_native, do_kani, do_assumed, do_verus, do_probes)]
    for t in threads:
        t.start()
    for t in threads:
        t.join()
    undecided = list(errors)
    if native.build_error:
        undecided.append('the search crate does not build against this tree: ' + native.build_error[-800:])
    if native.undecided:
        undecided.append(native.undecided)
    undecided += kani.undecided + verus.undecided + probes.undecided

    if kani.complete() and not errors:
        # What Verus does not show of the scalar layer, Kani does: by its contracts in place and for every input there is.
        for v in [v for v in verus.violations if v['unit'] == 'u0_varint']:
            verus.violations.remove(v)
            undecided.append('u0_varint: %s: %s (by Verus; Kani discharges every obligation of the scalar layer)'
                             % (v['obligation'], v['message']))

    suspicious = not native.failures and (kani.violations or verus.violations) and not native.build_error
    if suspicious and not STOPPING.is_set():
        # A proof failed: look longer for an input that shows it.
        native.search(60 if thorough else 45, seed=seed + 1000003, name='native-more')
        if native.undecided and native.undecided not in undecided:
            undecided.append(native.undecided)

    # What is reported.
    violation = None
    if native.failures:
        f = native.failures[0]
        violation = {'kind': 'input', 'case': f['case'], 'what': f['what'], 'seed': seed, 'derived': derived}
    elif probes.violations:
        violation = {'kind': 'program', 'what': probes.violations[0]}
    elif kani.violations:
        h, failed = kani.violations[0]
        test, out = kani.playback(h)
        violation = {'kind': 'kani', 'obligation': h, 'failed': failed, 'concrete': test, 'output': out}
    elif verus.violations:
        v = verus.violations[0]
        violation = {'kind': 'verus', 'obligation': v['obligation'], 'failed': v['message'], 'output': v['output'],
                     'all': [x['obligation'] for x in verus.violations]}

    ev = evidence(prop, c, tier, seed, native, kani, assumed, verus, probes, undecided, work)
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = 1 if violation else 0
    dump(os.path.join(ROOT, 'evidence', prop + '.json'), ev)
    clean(work)

    for u in undecided:
        print('UNDECIDED: ' + u)
    cov = ev['coverage']
    print('%s %s: %s of %s obligations discharged, %s cases searched, %.0f s'
          % (prop, tier, cov.get('discharged', 0), cov.get('obligations', 0), cov.get('evaluations', 0), ev['wall_s']))
    if violation:
        violation['property'] = prop
        if os.path.exists(native.dict):
            violation['dict'] = open(native.dict).read()
        path = os.path.join(replays, prop + '.json')
        dump(path, violation)
        no_input = violation['kind'] == 'verus' or violation['kind'] == 'kani' and not violation['concrete']
        print('what fails: %s' % (violation.get('what') or '%s: %s' % (violation['obligation'], violation['failed'])))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, ' no-failing-input-found' if no_input else ''))
        return 1
    for case, what, still in findings:
        if still:
            print('KNOWN-FINDING: property=%s %s' % (prop, what))
        else:
            print('note: the known finding %s no longer shows' % case)
    nothing = native.build_error and not cov.get('discharged')
    return 2 if nothing else 0


def clean(work):
    """The build output is not needed any more; logs and generated sources stay for reading."""
    for d in ('nt', 'kt', 'ka', 'kc', 'kp', 'playback', 'probes', 'xt'):
        shutil.rmtree(os.path.join(work, d), ignore_errors=True)


def shown(verus, assumed):
    """The contracts that are assumed where they are used: (what is left on trust, what is shown and by what)."""
    left, done = [], []
    ok = [h.split('::')[-1] for h, v in assumed.harnesses.items() if v['ok']]
    bad = [h.split('::')[-1] for h, v in assumed.harnesses.items() if not v['ok']]
    for t in verus.trusted:
        unit = next((u for rx, u in ELSEWHERE if re.search(rx, t)), None)
        by = next(((h, note) for rx, h, note in DISCHARGED if re.search(rx, t)), None)
        hs = [h for h in ok if by and h.startswith(by[0])]
        if unit:
            done.append('%s; shown in %s' % (t.replace('not verified, its contract is assumed: ', ''), unit))
        elif hs and not [h for h in bad if h.startswith(by[0])]:
            done.append('%s; shown on the code of the library by Kani, %s%s' % (t.replace('not verified, its contract is assumed: ', ''), ', '.join(hs), by[1] and '; ' + by[1]))
        else:
            left.append(t)
    return left, done


def evidence(prop, c, tier, seed, native, kani, assumed, verus, probes, undecided, work):
    s = native.stats or {}
    left, done = shown(verus, assumed)
    kani_ok = {h: v for h, v in kani.harnesses.items() if v['ok']}
    obligations = sum(v['checks'] for v in kani.harnesses.values()) + verus.obligations
    discharged = sum(v['checks'] for v in kani_ok.values()) + verus.discharged
    cov = {
        'evaluations': s.get('evaluations', 0),
        'distinct_nontrivial': s.get('distinct_nontrivial', 0),
        'rule': c['rule'],
        'samples': ['%s: %d cases%s' % (g, v['cases'], ', enumerated completely' if v['enumerated'] else '')
                    for g, v in s.get('groups', {}).items()],
        'obligations': obligations,
        'discharged': discharged,
        'checker_cmd': '; '.join(kani.cmds + assumed.cmds + verus.cmds) or 'no verifier ran for this property',
        'trusted_base': c['trusted'] + left,
        'assumed_here_and_shown': done,
        'assumed_kani': {h: {'discharged': bool(v['ok']), 'checks': v['checks'], 'solver_s': v['secs']} for h, v in sorted(assumed.harnesses.items())},
        'kani': {h: {'discharged': bool(v['ok']), 'checks': v['checks'], 'solver_s': v['secs'],
                     'covers_reached': '%d of %d' % tuple(v['covers'])} for h, v in sorted(kani.harnesses.items())},
        'kani_wall_s': round(kani.secs, 1),
        'verus': verus.report,
        'functions_under_contract': verus.functions + c.get('kani_functions', []),
        'undecided': undecided,
    }
    if probes.enabled:
        cov['programs'] = probes.count
    return {'property': prop, 'tier': tier, 'seed': seed,
            # A proof only if nothing was left undecided on this run.
            'level': 'exploration' if undecided else c['level'], 'coverage': cov,
            'assumptions': c['assumptions'] + verus.assumptions}


def replay(path, prop, work):
    v = json.load(open(path))
    if v['kind'] != 'input':
        print(json.dumps({k: x for k, x in v.items() if k != 'dict'}, indent=1))
        print('not an input of the search: run the check itself to repeat it')
        return 0
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    n = Native(work, prop, v['seed'], v['derived'])
    if not n.build():
        print(n.build_error)
        return 2
    with open(n.dict, 'w') as f:
        f.write(v['dict'])
    r = n.case(v['case'])
    print(r.out)
    clean(work)
    if r.rc:
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0


if __name__ == '__main__':
    code = main()
    stop_all()
    sys.exit(code)
