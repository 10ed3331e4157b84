"""Verus: the functions of /repo, extracted on every run, under the contracts of verus/*.rs."""
import os, re, threading
from common import *
from extract import Extractor, Lost, Source, TOKEN, OPEN, CLOSE

TEMPLATES = os.path.join(ROOT, 'verus')

# What Verus says when an obligation is false or cannot be shown, as opposed to source it does not accept.
FAILED = re.compile(r'postcondition not satisfied|precondition not (?:satisfied|met)|bitvector assertion not satisfied|fail to meet its declared type invariant|assertion failed|invariant not satisfied|'
                    r'possible arithmetic|possible division by zero|possible bit shift|decreases not satisfied|'
                    r'could not prove termination|loop must have a decreases|requires not satisfied|unable to prove|'
                    r'could not show|constructed value may fail|index out of bounds|unreachable', re.I)
GIVES_UP = re.compile(r'resource limit|rlimit|timed? ?out', re.I)


class Places:
    """What function of the generated text a line is in."""

    def __init__(self, text, extracted):
        self.fns = []
        self.extracted = extracted
        toks = list(with_lines(text))
        close, stack = {}, []
        for k, (t, _) in enumerate(toks):
            if t in OPEN:
                stack.append(k)
            elif t in CLOSE and stack:
                close[stack.pop()] = k
        path, k = [], 0
        while k < len(toks):
            t, at = toks[k]
            if t == 'mod' and k + 2 < len(toks) and toks[k + 2][0] == '{':
                path.append((toks[k + 1][0], close[k + 2]))
            elif t == 'fn' and re.match(r'[A-Za-z_]', toks[k + 1][0]):
                end = self.end(toks, close, k + 2)
                if end:
                    self.fns.append((at, toks[end][1], '::'.join(n for n, e in path if e > k), toks[k + 1][0]))
            k += 1

    @staticmethod
    def end(toks, close, k):
        """The closing brace of the body of the function whose signature goes on at k: the first group in braces
        that the signature's clauses do not go on after."""
        while k < len(toks):
            t = toks[k][0]
            if t == ';':
                return None
            if t in OPEN:
                e = close.get(k)
                if e is None:
                    return None
                after = toks[e + 1][0] if e + 1 < len(toks) else '}'
                if t == '{' and (after in ('}', '#') or re.match(r'[A-Za-z_]', after) and
                                 after not in ('else', 'decreases', 'requires', 'ensures', 'by', 'via', 'when', 'is', 'as', 'recommends')):
                    return e
                k = e
            k += 1

    def called(self, module, name):
        module = '' if module == '(root)' or module == 'crate' else module.split('::', 1)[1] if module.startswith('crate::') else module
        return [self.at(last) for _, last, mods, n in self.fns if n == name and mods == module] or \
               ['%s :: spec %s' % (module, name)]

    def function(self, line):
        """The extracted function at a line."""
        for path, header, name, _, first, last in self.extracted:
            if first <= line <= last:
                return path, header, name
        return None

    def mentions(self, line, names, text):
        for _, _, name, _, first, last in self.extracted:
            if first <= line <= last:
                inside = '\n'.join(text.split('\n')[first - 1:last])
                return name in names or bool(set(re.findall(r'\w+', inside)) & set(names))
        return False

    def at(self, line):
        best = None
        for first, last, mods, name in self.fns:
            if first <= line <= last and (best is None or first > best[0]):
                best = (first, last, mods, name)
        if best is None:
            return None
        for path, header, name, _, first, last in self.extracted:
            if first <= line <= last:
                return '%s :: %s %s: %s' % (best[2], path, header or 'fn', name)
        return '%s :: lemma %s' % (best[2], best[3])


def with_lines(text):
    line = 1
    i = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if m['bc']:
            depth, j = 1, m.end()
            while depth and j < len(text):
                if text.startswith('/*', j):
                    depth, j = depth + 1, j + 2
                elif text.startswith('*/', j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            line += text.count('\n', i, j)
            i = j
            continue
        if not m['ws'] and not m['lc']:
            yield m[0], line
        line += m[0].count('\n')
        i = m.end()


class Verus:
    def __init__(self, work, units, timeout):
        self.work, self.units, self.timeout = work, units, timeout
        self.obligations = self.discharged = 0
        self.undecided, self.violations, self.trusted, self.assumptions = [], [], [], []
        self.functions, self.cmds, self.report, self.why = [], [], {}, {}
        self.lock = threading.Lock()

    def go(self):
        ts = [threading.Thread(target=self.guarded, args=(u, s)) for u, s in self.units.items()]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def guarded(self, unit, scope):
        try:
            self.unit(unit, scope)
        except Lost as e:
            with self.lock:
                self.undecided.append('%s: the source has no place for a contract: %s' % (unit, e))
                self.report[unit] = {'lost': str(e)}
        except Exception as e:
            if not STOPPING.is_set():
                with self.lock:
                    self.undecided.append('%s: %s: %s' % (unit, type(e).__name__, e))

    def unit(self, unit, scope):
        want = re.compile(scope or '.')
        assumed, n = [], 0
        while True:
            # Where the source of a function is not accepted, its contract is assumed and the rest verified.
            x = Extractor(TEMPLATES, assumed)
            x.expand(unit + '.rs')
            x.flush_rules()
            text = ''.join(x.out)
            src = os.path.join(self.work, unit + '.rs')
            with open(src, 'w') as f:
                f.write(text)
            places = Places(text, x.functions)
            answer = self.verify(unit, src, [])
            more = {f for f in (places.function(l) for l in answer['bad_lines']) if f} - set(assumed)
            if not answer['bad'] or not more or STOPPING.is_set() or n == 8:
                break
            self.why.update({f: answer['bad'] for f in more})
            assumed += sorted(more)
            n += 1
        if answer['errors'] and not answer['bad']:
            # A proof that fails may only have run out of luck: once more, with more effort and another seed.
            again = self.verify(unit + '-again', src, ['--rlimit', '40', '-V', 'no-solver-version-check',
                                                       '--smt-option', 'smt.random_seed=7'])
            if not again['bad'] and again['functions']:
                answer = again
        rep = {'solver_s': round(answer['smt_ms'] / 1000.0, 2), 'wall_s': round(answer['secs'], 1),
               'failed': []}
        bad = answer['bad']
        in_scope = []
        for module, name, mode, ok, micros in answer['functions']:
            if any(want.search(l) for l in places.called(module, name.rsplit('::', 1)[-1])):
                in_scope.append((name.split('::', 1)[1] if name.startswith(unit) else name, mode, ok, micros))
        with self.lock:
            self.report[unit] = rep
            if STOPPING.is_set():
                return
            if bad:
                self.undecided.append('%s: the verifier does not accept the source: %s' % (unit, bad))
                rep['not_accepted'] = bad
                return
            lost = []
            for path, header, name, why in x.given_up:
                labels = [places.at(b) for p, h, m, _, a, b in x.functions if (p, h, m) == (path, header, name)]
                if any(want.search(l or '') for l in labels):
                    lost.append(name)
                    self.undecided.append('%s: %s %s: %s is not verified, its contract is assumed: %s'
                                          % (unit, path, header, name, self.why.get((path, header, name), why)))
            if not in_scope and not lost:
                self.undecided.append('%s: no obligation was generated' % unit)
                return
            failures, unsettled, undone = [], [], []
            inlined = Source.local.inlined
            for message, lines, rendered in answer['errors']:
                where = [p for p in (places.at(l) for l in lines) if p]
                # The function the failure is in: the last extracted one named, else any.
                label = None
                for w in where:
                    if ' :: lemma ' not in w:
                        label = w
                label = label or (where[0] if where else None)
                if GIVES_UP.search(message) and not FAILED.search(message):
                    if not label or want.search(label):
                        self.undecided.append('%s: %s: %s' % (unit, label, message))
                    continue
                if x.uncontracted and any(places.mentions(l, x.uncontracted_names, text) for l in lines):
                    # It calls a function that no contract is written for, so its proof says nothing.
                    if not label or want.search(label):
                        unsettled.append(label or unit)
                elif label and ' :: lemma ' not in label and label.rsplit(': ', 1)[-1] in inlined:
                    # New functions were put in the place of their calls there: that the same proof goes through is not certain.
                    if want.search(label):
                        undone.append(label)
                elif not label or want.search(label):
                    failures.append({'unit': unit, 'obligation': label or unit, 'message': message, 'output': rendered})
            ok = sum(1 for f in in_scope if f[2])
            self.obligations += len(in_scope)
            self.discharged += ok
            rep.update({
                'obligations': len(in_scope), 'discharged': ok,
                'exec_functions': sum(1 for f in in_scope if f[1] == 'exec'),
                'lemmas': sum(1 for f in in_scope if f[1] == 'proof'),
                'failed': [f[0] for f in in_scope if not f[2]],
                'slowest': ['%s %.2f s' % (f[0], f[3] / 1e6) for f in sorted(in_scope, key=lambda f: -f[3])[:3]],
                'rewrites': x.applied, 'left_out': x.skipped, 'new_functions': x.uncontracted,
                'not_verified': ['%s %s: %s' % g[:3] for g in x.given_up],
            })
            for path, header, name, contracted, a, b in x.functions:
                label = places.at(b) or places.at(a) or ''
                if contracted and want.search(label):
                    self.functions.append('%s: %s%s' % (path, header + ' :: ' if header else '', name))
            for t in trusted(text):
                if t not in self.trusted:
                    self.trusted.append(t)
            if unsettled:
                self.undecided.append('%s: not shown, as there are functions without a contract (%s): %s'
                                      % (unit, '; '.join(x.uncontracted), ', '.join(sorted(set(unsettled)))))
            if undone:
                self.undecided.append('%s: not shown after putting new functions in the place of their calls: %s' % (unit, ', '.join(sorted(set(undone)))))
            self.violations += failures

    def verify(self, name, src, extra):
        cmd = ['verus', src, '--crate-type=lib', '--output-json', '--time-expanded', '--error-format=json',
               '--multiple-errors', '4', '--num-threads', '4'] + extra
        log = os.path.join(self.work, name + '.log')
        out = os.path.join(self.work, name + '.json')
        r = run(['bash', '-c', 'exec "$@" > "$0"', out] + cmd, log, cwd=self.work, timeout=self.timeout)
        if not extra:
            with self.lock:
                self.cmds.append(' '.join(cmd[:5]))
        a = {'errors': [], 'functions': [], 'bad': None, 'bad_lines': [], 'smt_ms': 0, 'secs': r.secs}
        if r.timed_out:
            a['bad'] = 'no answer within %d s' % self.timeout
            return a
        try:
            j = json.load(open(out))
        except ValueError:
            j = None
        for l in r.out.splitlines():
            try:
                d = json.loads(l)
            except ValueError:
                continue
            if d.get('level') != 'error' or d['message'].startswith('aborting due to'):
                continue
            if FAILED.search(d['message']) or GIVES_UP.search(d['message']):
                spans = sorted(d['spans'], key=lambda s: s['is_primary'])
                a['errors'].append((d['message'], [s['line_start'] for s in spans], d['rendered']))
            else:
                a['bad'] = a['bad'] or d['message'].split('\n')[0] + ''.join(' (line %d)' % s['line_start'] for s in d['spans'][:1])
                a['bad_lines'] += [s['line_start'] for s in d['spans'] if s['is_primary']]
        if not j or 'verification-results' not in j:
            a['bad'] = a['bad'] or 'no answer: ' + r.out[-300:]
            return a
        if j['verification-results'].get('encountered-vir-error'):
            a['bad'] = a['bad'] or 'it is outside of the accepted subset'
            return a
        for m in j['times-ms']['smt']['smt-run-module-times']:
            for f in m['function-breakdown']:
                a['functions'].append((m['module'], f['function'], f['mode:'], f['success'], f['time-micros']))
        a['smt_ms'] = j['times-ms']['smt']['total']
        if not a['errors'] and not j['verification-results']['success']:
            a['bad'] = a['bad'] or 'the verifier reports an error without saying which'
        return a


def trusted(text):
    """What the generated text takes on trust."""
    found = []
    headers, since, trust = [], [], None
    for t, _ in with_lines(text):
        since.append(t)
        if t in '{};' and len(t) == 1:
            header = tidy(since)
            if t == '{':
                headers.append(header)
            elif t == '}' and headers:
                headers.pop()
            around = next((h for h in reversed(headers[:-1] if t == '{' else headers) if re.match(r'(pub )?(unsafe )?(impl|trait)\b', plain(h))), '')
            what = plain(header)
            m = re.search(r'assume_specification\s*(?:<.*?>)?\s*\[(.*?)\]\s*\(', header)
            if m:
                found.append('assumed contract: ' + m[1].strip())
            elif 'external_trait_specification' in header:
                found.append('assumed trait contract: ' + what)
            elif re.search(r'external_body|external_type_specification', header):
                m = re.search(r'\b(fn|struct|enum) (\w+)', what)
                if m:
                    found.append('not verified, its contract is assumed: %s%s %s' % (plain(around) + ' :: ' if around else '', m[1], m[2]))
            elif re.search(r'\baxiom fn (\w+)', what):
                found.append('axiom: ' + re.search(r'\baxiom fn (\w+)', what)[1])
            since = []
    for m in re.finditer(r'\b(assume|admit)\s*\(', text):
        found.append('assumption in a proof: ' + text[m.start():m.start() + 60])
    return sorted(set(found))


def tidy(tokens):
    out = ''
    for t in tokens:
        if out and re.match(r'\w', t) and re.search(r'[\w>)\]]$', out) or t in ('=>', '->'):
            out += ' '
        out += t
    return out


def plain(header):
    """Without attributes and contract."""
    header = re.sub(r'#!?\[[^\]]*\]\s*', '', header).rstrip('{;').strip()
    return re.split(r'\b(?:ensures|requires)\b', header)[0].strip()
