"""Brings a source file back to the names that the contracts are written against, where it says the same in other words.

What the contracts know of a file (verus/vocabulary.json, written by this script from a tree: the functions, structs with
their fields, constants, macros and modules outside of the tests) is compared with what it has now. Where they differ:

  - a module that is new is taken as if its items stood in the file itself
  - a macro_rules macro that is new is expanded where it stands for items
  - a type alias or a constant that is new is replaced by what it stands for
  - a private field, struct or free function that has another name than before gets the name it had,
    if only one is missing of its kind and only one is new
  - a function that is new is put in the place of its calls, where that means the same (see Inline)
  - .try_for_each(|x| e)? and .for_each(|x| e) become loops, .map_or(a, |x| e) and .is_some_and(|x| e) a match,
    .ok_or_else(|| e) of an e that only names and builds a value .ok_or(e)

Each of these is a step that keeps the meaning of the code whatever the code is; the compiler's and the verifier's
acceptance of the outcome is still needed, so a step that goes wrong can lose a proof. On a file with nothing new, nothing is done.
"""
import json, os, re
import extract as X

VOCABULARY = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus', 'vocabulary.json')
FILES = ['dlhn/src/' + f + '.rs' for f in (
    'ser de date date_time big_decimal big_int big_uint prefix_varint zigzag body/mod header/mod header/de header/ser '
    'format/date format/date_time format/big_decimal format/big_int format/big_uint').split()] + ['dlhn_derive/src/lib.rs']
IDENT = re.compile(r'(?:r#)?[A-Za-z_]\w*$')


def ident(t):
    return bool(IDENT.match(t))


def walk(items):
    """Every item, and those inside of impl blocks and traits."""
    for it in items:
        yield it
        if it.kind in ('impl', 'trait') and it.body:
            for sub in X.items(it.body):
                yield sub


def fields(it):
    """The names of the fields of a struct."""
    if it.kind != 'struct' or it.body is None:
        return []
    out, depth, start, toks = [], 0, True, X.strip_attrs(it.body)
    for k, (t, _) in enumerate(toks):
        if start and depth == 0 and ident(t) and t != 'pub' and toks[k + 1][0] == ':':
            out.append(t)
            start = False
        if t in X.OPEN or t == '<':
            depth += 1
        elif t in X.CLOSE or t == '>':
            depth -= 1
        elif t == ',' and depth == 0:
            start = True
    return out


def inherent(it):
    return it.kind == 'impl' and 'for' not in X.texts(it.head)


def vocabulary(items):
    return {
        'fns': sorted(i.name for i in items if i.kind == 'fn'),
        'methods': sorted({s.name for i in items if inherent(i) for s in X.items(i.body) if s.kind == 'fn'}),
        'structs': {i.name: fields(i) for i in items if i.kind == 'struct'},
        'consts': sorted(i.name for i in items if i.kind in ('const', 'static')),
        'types': sorted(i.name for i in items if i.kind == 'type'),
        'macros': sorted(i.name for i in items if i.kind == 'macro_rules'),
        'mods': sorted(i.name for i in items if i.kind == 'mod'),
    }


class Normal:
    def __init__(self, path, items, known, load):
        self.path, self.items, self.known, self.load = path, items, known, load
        self.notes, self.inlined = [], set()

    def run(self):
        for step in (self.modules, self.macros, self.aliases, self.constants, self.structs, self.fields, self.functions, self.adapters, self.inline):
            step()
        return self.items

    def each(self, f):
        """Every item's tokens through f."""
        for it in self.items:
            it.head = f(it.head)
            if it.body is not None:
                it.body = f(it.body)

    def new(self, kind, key):
        return [i for i in self.items if i.kind == kind and i.name not in self.known[key]]

    # -- modules

    def modules(self):
        gone = set()
        for _ in range(4):
            mods = self.new('mod', 'mods')
            if not mods:
                break
            for m in mods:
                body = m.body
                if body is None:
                    body = self.load(self.path, m.name)
                if body is None:
                    return
                at = self.items.index(m)
                self.items[at:at + 1] = [i for i in X.items(body) if X.wanted(i)]
                gone.add(m.name)
                self.notes.append('the items of module %s taken as items of %s' % (m.name, self.path))
        if gone:
            def f(toks):
                out, i = [], 0
                while i < len(toks):
                    if toks[i][0] in gone and i + 1 < len(toks) and toks[i + 1][0] == '::':
                        while out and len(out) > 1 and out[-1][0] == '::' and out[-2][0] in ('self', 'super'):
                            out = out[:-2]
                        i += 2
                        continue
                    if toks[i][0] == 'pub' and i + 1 < len(toks) and toks[i + 1][0] == '(':
                        out.append(toks[i])
                        i = X.match(toks, i + 1)
                        continue
                    out.append(toks[i])
                    i += 1
                return out
            self.each(f)

    # -- macros

    def macros(self):
        new = {m.name: m for m in self.new('macro_rules', 'macros')}
        if not new:
            return
        try:
            defs = {n: X.Macro(m) for n, m in new.items()}
        except X.Lost:
            return

        def expand(toks, depth=0):
            out, i = [], 0
            while i < len(toks):
                t = toks[i][0]
                if t in defs and i + 2 < len(toks) and toks[i + 1][0] == '!' and toks[i + 2][0] in X.OPEN and depth < 5 and (
                        not out or out[-1][0] in ('}', ';', ']')):
                    e = X.match(toks, i + 2)
                    out += [(a, b or ' ') for a, b in expand(defs[t].expand(toks[i + 3:e - 1]), depth + 1)]
                    i = e + 1 if e < len(toks) and toks[e][0] == ';' else e
                    self.used_macro.add(t)
                else:
                    out.append(toks[i])
                    i += 1
            return out
        self.used_macro = set()
        items = []
        try:
            for it in self.items:
                if it.kind == 'macro' and it.name in defs:
                    items += [i for i in X.items(expand(it.head)) if X.wanted(i)]
                    continue
                if it.kind in ('impl', 'trait', 'mod') and it.body:
                    it.body = expand(it.body)
                items.append(it)
        except X.Lost:
            return
        self.items = [i for i in items if i not in new.values()]
        if self.used_macro:
            self.each(unqualified)
        self.notes += ['macro %s expanded' % n for n in sorted(self.used_macro)]

    # -- type aliases and constants

    def aliases(self):
        for a in self.new('type', 'types'):
            h = X.texts(a.head)
            if '=' not in h:
                continue
            eq = h.index('=')
            params = []
            if h[2] == '<':
                params = [t for t in h[3:eq - 1] if t != ',']
                if not all(ident(p) for p in params):
                    continue
            to = a.head[eq + 1:]

            def f(toks):
                out, i = [], 0
                while i < len(toks):
                    if toks[i][0] != a.name or i and toks[i - 1][0] in ('.', '::'):
                        out.append(toks[i])
                        i += 1
                        continue
                    e, args = i + 1, []
                    if params:
                        if e >= len(toks) or toks[e][0] != '<':
                            raise X.Lost('alias without arguments')
                        args, e = angle(toks, e)
                        if len(args) != len(params):
                            raise X.Lost('alias with other arguments')
                    binds = dict(zip(params, args))
                    for k, (t, sp) in enumerate(to):
                        sp = toks[i][1] if k == 0 else sp
                        out += [(x, s or (sp if n == 0 else s)) for n, (x, s) in enumerate(f(binds[t]))] if t in binds else [(t, sp)]
                    i = e
                return out
            try:
                others = [i for i in self.items if i is not a]
                made = [(f(i.head), None if i.body is None else f(i.body)) for i in others]
            except X.Lost:
                continue
            for i, (h2, b2) in zip(others, made):
                i.head, i.body = h2, b2
            self.items = others
            self.notes.append('the type %s replaced by what it stands for' % a.name)

    def constants(self):
        for c in self.new('const', 'consts'):
            h = X.texts(c.head)
            if '=' not in h or h[2] != ':':
                continue
            eq = h.index('=')
            ty, value = ''.join(h[3:eq]), c.head[eq + 1:]
            number = re.fullmatch(r'[ui](8|16|32|64|128|size)', ty)
            to = [('(', ' ')] + value + ([('as', ' '), (ty, ' ')] if number else []) + [(')', False)]

            def f(toks):
                out = []
                for k, (t, sp) in enumerate(toks):
                    if t == c.name and not (k and toks[k - 1][0] in ('.', '::', 'const')):
                        out += [(to[0][0], sp or ' ')] + to[1:]
                    else:
                        out.append((t, sp))
                return out
            uses = sum(t == c.name for i in self.items if i is not c for t in X.texts(i.head) + X.texts(i.body or []))
            if not uses:
                continue
            # In a pattern or the length of an array, the number itself.
            self.items = [i for i in self.items if i is not c]
            self.each(f)
            self.notes.append('the constant %s replaced by its value' % c.name)

    # -- names

    def renamed(self, was, now):
        """{new name: old name} where one is missing and one is new."""
        missing, extra = [n for n in was if n not in now], [n for n in now if n not in was]
        return {extra[0]: missing[0]} if len(missing) == 1 and len(extra) == 1 else {}

    def taken(self, name):
        return any(name == t for i in self.items for t in X.texts(i.head) + X.texts(i.body or []))

    def structs(self):
        for new, old in self.renamed(self.known['structs'], [i.name for i in self.items if i.kind == 'struct']).items():
            if not self.taken(old):
                self.rename(new, old, 'struct')

    def functions(self):
        for new, old in self.renamed(self.known['fns'], [i.name for i in self.items if i.kind == 'fn']).items():
            if not self.taken(old):
                self.rename(new, old, 'function')
        methods = sorted({s.name for i in self.items if inherent(i) for s in X.items(i.body) if s.kind == 'fn'})
        for new, old in self.renamed(self.known['methods'], methods).items():
            if not self.taken(old):
                self.rename(new, old, 'function')

    def rename(self, new, old, what):
        self.each(lambda toks: [(old if t == new else t, sp) for t, sp in toks])
        for i in self.items:
            if i.name == new:
                i.name = old
        self.notes.append('the %s %s under the name %s' % (what, new, old))

    def fields(self):
        for it in [i for i in self.items if i.kind == 'struct' and i.body]:
            if it.name not in self.known['structs']:
                continue
            for new, old in self.renamed(self.known['structs'][it.name], fields(it)).items():
                self.rename_field(it, new, old)

    def rename_field(self, it, new, old):
        """All fields of that name: of a struct in which it stays another one, the compiler says so."""
        others = [s for s in self.items if s.kind == 'struct' and s is not it and new in fields(s)]
        if any(old not in self.known['structs'].get(s.name, []) or old in fields(s) for s in others):
            return

        def f(toks):
            out, opened = [], []
            for k, (t, sp) in enumerate(toks):
                prev = toks[k - 1][0] if k else ''
                nxt = toks[k + 1][0] if k + 1 < len(toks) else ''
                if t in X.OPEN:
                    opened.append(bool(t == '{' and k and (ident(prev) and prev not in ('else', 'loop', 'unsafe', 'move') or prev == '>')))
                elif t in X.CLOSE and opened:
                    opened.pop()
                if t == new and prev == '.' and nxt != '(' and nxt != '::':
                    out.append((old, sp))
                elif t == new and opened and opened[-1] and prev in ('{', ',') and nxt in (':', ',', '}'):
                    out += [(old, sp)] + ([] if nxt == ':' else [(':', False), (new, ' ')])
                else:
                    out.append((t, sp))
            return out
        for i in self.items:
            if i is it or i in others:
                i.body = [(old if t == new and nxt == ':' else t, sp) for (t, sp), nxt in zip(i.body, X.texts(i.body)[1:] + [''])]
            elif i.body is not None:
                i.body = f(i.body)
        self.notes.append('the field %s of %s under the name %s' % (new, it.name, old))

    # -- adapters that take a closure

    def adapters(self):
        for it in self.items:
            if it.kind in ('impl', 'trait') and it.body:
                it.body = functions_of(it.body, self.adapted)
            elif it.kind == 'fn' and it.body:
                it.body = self.adapted(it.body, it.head)

    def adapted(self, body, head):
        i = 0
        while i + 2 < len(body):
            f = {'try_for_each': loop, 'for_each': loop, 'map_or': choice, 'is_some_and': choice, 'ok_or_else': eager}.get(body[i][0])
            if f and i and body[i - 1][0] == '.' and body[i + 1][0] == '(':
                made = f(body, i)
                if made:
                    self.notes.append('.%s(..) said in another way' % body[i][0])
                    body, i = made
                    continue
            i += 1
        return body

    # -- functions that are new

    def inline(self):
        for _ in range(6):
            helpers = {}
            for i in self.items:
                if i.kind == 'fn' and i.name not in self.known['fns']:
                    helpers[('', i.name)] = i
                elif inherent(i):
                    for s in X.items(i.body):
                        if s.kind == 'fn' and s.name not in self.known['methods']:
                            helpers[('method', s.name)] = s
            if not helpers:
                return
            before = len(self.notes)
            for key, h in helpers.items():
                try:
                    one = Inline(key, h)
                except X.Lost:
                    continue
                left = 0
                for i in self.items:
                    if i.body is None or i is h:
                        continue
                    if i.kind == 'fn':
                        i.body = one.fn(i.body, i.head)
                    elif i.kind in ('impl', 'trait'):
                        i.body = one.block(i.body)
                if one.count and not one.left:
                    self.drop(key)
                if one.count:
                    self.notes.append('the function %s put in the place of its calls in %s' % (h.name, ', '.join(sorted(one.into))))
                    self.inlined |= one.into
            if len(self.notes) == before:
                return

    def drop(self, key):
        """The helper has no calls left."""
        if key[0] == '':
            self.items = [i for i in self.items if not (i.kind == 'fn' and i.name == key[1])]
            return
        for i in self.items:
            if inherent(i):
                at = function_at(i.body, key[1])
                if at:
                    i.body = i.body[:at[0]] + i.body[at[1]:]


def unqualified(toks):
    """<T>::f as T::f, where T is a name."""
    out, i = [], 0
    while i < len(toks):
        if (toks[i][0] == '<' and i + 3 < len(toks) and ident(toks[i + 1][0]) and toks[i + 2][0] == '>' and toks[i + 3][0] == '::'
                and not (out and (out[-1][0] == '::' or ident(out[-1][0])) and toks[i][1] is False)):
            out.append((toks[i + 1][0], toks[i][1]))
            i += 3
            continue
        out.append(toks[i])
        i += 1
    return out


def opener(toks, k):
    """The index of the token that opens the group that closes at k."""
    depth = 0
    while k >= 0:
        depth += (toks[k][0] in X.CLOSE) - (toks[k][0] in X.OPEN)
        if depth == 0:
            return k
        k -= 1
    raise X.Lost('unbalanced source')


def chain_start(toks, dot):
    """Where the expression starts that the method call with its dot there is of; None if it is of another form."""
    k = dot - 1
    while k >= 0:
        t = toks[k][0]
        if t == '?':
            k -= 1
            continue
        if t in (')', ']'):
            k = opener(toks, k)
            before = toks[k - 1][0] if k else ''
            if before == '>' or before == '!':
                return None
            if ident(before) and before not in ('in', 'return', 'match', 'if', 'while', 'let', 'else'):
                k -= 1
            elif before in ('?', ')', ']'):
                k -= 1
                continue
            else:
                return k
        elif not ident(t) and not re.match(r'[0-9"]', t):
            return None
        if k and toks[k - 1][0] in ('.', '::'):
            k -= 2
            continue
        return k
    return None


def closure(toks):
    """The parameter and the body of |p| body; None if it is of another form."""
    ts = X.texts(toks)
    if ts[:1] == ['||']:
        return [], toks[1:]
    if ts[:2] == ['|', '|']:
        return [], toks[2:]
    if ts[:1] != ['|'] or '|' not in ts[1:]:
        return None
    e = ts.index('|', 1)
    if '->' in ts[e + 1:e + 2]:
        return None
    return toks[1:e], toks[e + 1:]


def unbraced(toks):
    return toks[1:-1] if toks and toks[0][0] == '{' and X.match(toks, 0) == len(toks) else None


def loop(body, i):
    """ITER.try_for_each(|p| e)? as a loop; ITER.for_each(|p| e) too."""
    e = X.match(body, i + 1)
    c = closure(body[i + 2:e - 1])
    trying = body[i][0] == 'try_for_each'
    start = chain_start(body, i - 1)
    if c is None or start is None or not c[0] or 'return' in X.texts(c[1]) or ':' in X.texts(c[0]):
        return None
    if start and body[start - 1][0] not in ('{', ';', '}'):
        return None
    after = body[e][0] if e < len(body) else ''
    tail = []
    if trying:
        if after == '?' and e + 1 < len(body) and body[e + 1][0] == ';':
            e += 2
        elif after in ('', '}') and Inline.is_tail(body, start, e):
            tail = [('Ok', '\n'), ('(', False), ('(', False), (')', False), (')', False)]
        else:
            return None
    elif '?' in X.texts(c[1]):
        return None
    elif after == ';':
        e += 1
    inner = unbraced(c[1])
    text = ' '.join(X.texts(inner or []))
    m = re.search(r'(?:^|[;}] )(Ok (?::: < .* > )?\( \( \) \))$', text)
    if inner is not None and not trying:
        pass
    elif m:
        inner = inner[:len(inner) - len(m[1].split(' '))]
    else:
        inner = list(c[1]) + ([('?', False)] if trying else []) + [(';', False)]
    made = [('for', body[start][1] or '\n')] + [(t, ' ' if k == 0 else s) for k, (t, s) in enumerate(c[0])] + [('in', ' ')]
    over = body[start:i - 1]
    if over[0][0] == '(' and X.match(over, 0) == len(over):
        over = over[1:-1]
    made += [(over[0][0], ' ')] + over[1:] + [('{', ' ')] + inner + [('}', '\n')] + tail
    return body[:start] + made + body[e:], start + 1


def choice(body, i):
    """OPTION.map_or(a, |p| e) and OPTION.is_some_and(|p| e) as a match."""
    e = X.match(body, i + 1)
    args = split(body[i + 2:e - 1])
    if body[i][0] == 'is_some_and':
        args = [[('false', False)]] + args
    start = chain_start(body, i - 1)
    if len(args) != 2 or start is None or not plain(args[0]):
        return None
    c = closure(args[1])
    if c is None or not c[0] or set(X.texts(c[1])) & {'return', '?'}:
        return None
    made = [('(', body[start][1] or ' '), ('match', False), (body[start][0], ' ')] + body[start + 1:i - 1] + [('{', ' '), ('Some', '\n'), ('(', False)]
    made += c[0] + [(')', False), ('=>', ' ')] + [(c[1][0][0], ' ')] + c[1][1:] + [(',', False), ('None', '\n'), ('=>', ' ')] + [(args[0][0][0], ' ')] + args[0][1:]
    made += [(',', False), ('}', '\n'), (')', False)]
    return body[:start] + made + body[e:], start + 1


def eager(body, i):
    """.ok_or_else(|| e) and .ok_or_else(f) as .ok_or(..)."""
    e = X.match(body, i + 1)
    arg = body[i + 2:e - 1]
    if all(ident(t) or t == '::' for t in X.texts(arg)):
        made = arg + [('(', False), (')', False)]
    else:
        c = closure(arg)
        if c is None or c[0] or not plain(c[1]):
            return None
        made = c[1]
    return body[:i] + [('ok_or', body[i][1]), ('(', False)] + made + [(')', False)] + body[e:], i + 1


def plain(toks):
    """It only names and builds a value."""
    return all(ident(t) and t not in ('self', 'if', 'match', 'loop', 'while', 'for', 'return', 'unsafe') or t in ('::', '(', ')', '&', ',')
               or re.match(r'[0-9"]', t) for t in X.texts(toks))


def functions_of(body, f, but=None):
    """The tokens of an impl block with the bodies of its functions through f."""
    out, i = [], 0
    while i < len(body):
        if body[i][0] == 'fn' and body[i + 1][0] != but:
            j = i
            while j < len(body) and body[j][0] not in ('{', ';'):
                j = X.match(body, j) if body[j][0] in ('(', '[') else j + 1
            if j < len(body) and body[j][0] == '{':
                e = X.match(body, j)
                out += body[i:j + 1] + f(body[j + 1:e - 1], body[i:j]) + [body[e - 1]]
                i = e
                continue
        out.append(body[i])
        i += 1
    return out


def function_at(body, name):
    """Where a function of an impl block stands: (first token, end)."""
    i = start = 0
    while i < len(body):
        t = body[i][0]
        if t == 'fn' and body[i + 1][0] == name:
            j = i
            while body[j][0] != '{':
                j = X.match(body, j) if body[j][0] in ('(', '[') else j + 1
            return start, X.match(body, j)
        if t in X.OPEN:
            i = X.match(body, i)
            if t == '{':
                start = i
            continue
        if t == ';':
            start = i + 1
        i += 1
    return None


def angle(toks, i):
    """The arguments of the group in angle brackets at i, and the index after it."""
    depth, args, cur = 0, [], []
    while i < len(toks):
        t = toks[i][0]
        if t in X.OPEN:
            e = X.match(toks, i)
            cur += toks[i:e]
            i = e
            continue
        if t == '<':
            depth += 1
            if depth > 1:
                cur.append(toks[i])
        elif t == '>':
            depth -= 1
            if depth == 0:
                return args + ([cur] if cur else []), i + 1
            cur.append(toks[i])
        elif t == ',' and depth == 1:
            args.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    raise X.Lost('unbalanced angle brackets')


def split(toks):
    """At the commas outside of groups."""
    out, cur, i = [], [], 0
    while i < len(toks):
        if toks[i][0] in X.OPEN:
            e = X.match(toks, i)
            cur += toks[i:e]
            i = e
        elif toks[i][0] == ',':
            out.append(cur)
            cur = []
            i += 1
        else:
            cur.append(toks[i])
            i += 1
    return out + ([cur] if cur else [])


class Inline:
    """A new function in the place of its calls.

    A call becomes the block of the function's body after its parameters are bound. That means the same where the body
    leaves by its end only, and otherwise where leaving the body means leaving the caller with the same outcome:
    the call is what the caller returns, or it is followed by ? and the body leaves early by ? or by return Err(..) only
    (no error of this crate is converted by ?).
    """

    def __init__(self, key, it):
        self.method, self.name, self.item = key[0] == 'method', key[1], it
        self.count = self.left = 0
        self.into = set()
        h = X.strip_attrs(it.head)
        at = next(k for k, (t, _) in enumerate(h) if t == 'fn') + 2
        if h[at][0] == '<':
            generics, at = angle(h, at)
            self.consts = [g[1][0] for g in generics if g and g[0][0] == 'const']
            self.generics = [g[0][0] for g in generics if g and g[0][0] != 'const']
            if self.consts and (len(self.consts) > 1 or self.generics):
                raise X.Lost('several generics')
        else:
            self.generics, self.consts = [], []
        e = X.match(h, at)
        self.returns = [t for t in X.texts(h[e:])]
        self.params, self.self_ = [], None
        for p in split(h[at + 1:e - 1]):
            ts = X.texts(p)
            if 'self' in ts and ':' not in ts:
                self.self_ = ''.join(ts)
                continue
            mut = ts[0] == 'mut'
            if mut:
                p, ts = p[1:], ts[1:]
            if not ident(ts[0]) or ts[1] != ':':
                raise X.Lost('a pattern as a parameter')
            self.params.append((ts[0], mut, p[2:]))
        self.body = X.strip_attrs(it.body)
        bt = X.texts(self.body)
        if set(bt) & set(self.generics) or self.name in bt:
            raise X.Lost('it mentions its generics or itself')
        self.exits = '?' in bt or 'return' in bt
        self.only_errors = all(bt[k + 1:k + 2] == ['Err'] for k, t in enumerate(bt) if t == 'return')
        self.closures = any(t in ('|', '||') and k and bt[k - 1] in ('(', ',', '=', 'move') for k, t in enumerate(bt))
        if self.exits and self.closures:
            raise X.Lost('closures and exits')

    def block(self, body):
        return functions_of(body, self.fn, self.name)

    def fn(self, body, head):
        i = 0
        while i < len(body):
            if body[i][0] == self.name and i + 1 < len(body) and (body[i + 1][0] == '(' or body[i + 1][0] == '::') and not (i and body[i - 1][0] == 'fn'):
                r = self.call(body, i)
                if r:
                    body, i = r
                    self.count += 1
                    self.into.add(next(head[k + 1][0] for k, (t, _) in enumerate(head) if t == 'fn'))
                    continue
            if body[i][0] == self.name:
                self.left += 1
            i += 1
        return body

    def call(self, body, i):
        start, recv = i, None
        if self.method:
            if i and body[i - 1][0] == '.':
                k = i - 2
                if k < 0 or not ident(body[k][0]):
                    return None
                while k >= 2 and body[k - 1][0] == '.' and ident(body[k - 2][0]):
                    k -= 2
                start, recv = k, body[k:i - 1]
                if start and body[start - 1][0] in ('.', '::', '?', ')', ']'):
                    return None
            elif i > 1 and body[i - 1][0] == '::' and ident(body[i - 2][0]):
                start = i - 2
                if start and body[start - 1][0] == '::':
                    return None
            else:
                return None
        else:
            while start > 1 and body[start - 1][0] == '::' and body[start - 2][0] in ('self', 'super', 'crate'):
                start -= 2
            if start and body[start - 1][0] in ('.', '::'):
                return None
        at, value = i + 1, None
        if body[at][0] == '::':
            if body[at + 1][0] != '<':
                return None
            given, at = angle(body, at + 1)
            if body[at][0] != '(':
                return None
            if self.consts and len(given) == 1:
                value = given[0]
        e = X.match(body, at)
        if self.consts and value is None:
            value = self.value(body, start, e)
        if self.consts and value is None:
            return None
        args = split(body[at + 1:e - 1])
        if self.self_ is not None and recv is None:
            if not args:
                return None
            recv = self.strip_borrow(args.pop(0))
            if recv is None:
                return None
        if len(args) != len(self.params):
            return None
        asked = e < len(body) and body[e][0] == '?'
        tail = self.exits and self.is_tail(body, start, e)
        mapped = None
        if self.exits and not tail and not asked and [t for t, _ in body[e:e + 3]] == ['.', 'map', '('] and self.only_errors:
            # f(..).map(G) as Ok(G(f(..)?))
            g = X.match(body, e + 2)
            mapped = body[e + 3:g - 1]
            if not mapped or not all(ident(t) or t == '::' for t in X.texts(mapped)):
                return None
            if not self.is_tail(body, start, g) and body[g][0] != '?':
                return None
        elif self.exits and not tail and not (asked and self.only_errors):
            return None
        inner = list(self.body)
        if value is not None:
            inner = [x for t, sp in inner for x in ([(value[0][0], sp)] + value[1:] if t in self.consts else [(t, sp)])]
        if recv is not None and X.texts(recv) != ['self']:
            bt = X.texts(self.body)
            if not all(ident(t) or t == '.' for t in X.texts(recv)) or any(t == recv[0][0] and (not k or bt[k - 1] != '.') for k, t in enumerate(bt)):
                return None
            inner = [x for t, sp in inner for x in (([(recv[0][0], sp)] + recv[1:]) if t == 'self' else [(t, sp)])]
        binds, names = [], [p[0] for p in self.params]
        for (n, mut, ty), a in zip(self.params, args):
            ts = X.texts(a)
            if ts == [n] and not mut:
                continue
            if any(m in ts for m in names if m != n) and len(self.params) > 1:
                return None
            if [t[0] for t in ty[:2]] == ['&', 'mut'] or len(ty) > 2 and ty[0][0] == '&' and ty[1][0].startswith("'") and ty[2][0] == 'mut':
                if all(ident(t) or t == '.' for t in ts):
                    a = [('&', False), ('mut', False), ('*', ' ')] + [(a[0][0], False)] + a[1:]
            typed = [] if any(t in ('impl', 'dyn') or t.startswith("'") or t in self.generics for t in X.texts(ty)) else [(':', False)] + [(ty[0][0], ' ')] + ty[1:]
            binds += [('let', '\n')] + ([('mut', ' ')] if mut else []) + [(n, ' ')] + typed + [('=', ' ')] + [(a[0][0], ' ')] + a[1:] + [(';', False)]
        new = binds + ([(inner[0][0], '\n')] + inner[1:] if inner else [])
        new = [('(', body[start][1] or ' '), ('{', False)] + new + [('}', '\n'), (')', False)]
        if mapped is not None:
            new = [('Ok', body[start][1] or ' '), ('(', False)] + mapped + [('(', False)] + new + [('?', False), (')', False), (')', False)]
            e = g
        # A statement or the tail of a block needs no parentheses; they do no harm in an expression.
        return body[:start] + new + body[e:], start + len(new)

    def value(self, body, start, e):
        """The value of the const parameter, from a let with a type or from uN::from_le_bytes(..) around the call."""
        m = re.match(r'-> (?:\w+ :: )*Result < \[ u8 ; %s \]' % self.consts[0], ' '.join(self.returns))
        if not m:
            return None
        before = X.texts(body[max(0, start - 9):start])
        if len(before) >= 6 and before[-6:-4] == [':', '['] or before[-7:-6] == [':']:
            k = len(before) - 1
            if before[k] == '=' and before[k - 1] == ']' and before[k - 3] == ';':
                return [(before[k - 2], False)]
        if len(before) >= 4 and before[-1] == '(' and before[-2] in ('from_le_bytes', 'from_be_bytes') and before[-3] == '::':
            m = re.fullmatch(r'[uif](8|16|32|64|128)', before[-4])
            if m:
                return [(str(int(m[1]) // 8), False)]
        return None

    @staticmethod
    def strip_borrow(a):
        ts = X.texts(a)
        while ts and ts[0] in ('&', 'mut', '*'):
            a, ts = a[1:], ts[1:]
        return a if a and all(ident(t) or t == '.' for t in ts) else None

    @staticmethod
    def is_tail(body, start, e):
        """Whether the expression from start to e is what the function returns."""
        if start and body[start - 1][0] not in ('{', ';', '}', '=>', 'return'):
            return False
        if start and body[start - 1][0] == 'return':
            return True
        while e < len(body):
            t = body[e][0]
            if t == ',' and start and body[start - 1][0] == '=>' or t == '}':
                # to the end of the group around it
                depth, k = 0, start
                while k > 0:
                    k -= 1
                    if body[k][0] in X.CLOSE:
                        depth += 1
                    elif body[k][0] in X.OPEN:
                        if depth == 0:
                            break
                        depth -= 1
                if body[k][0] != '{':
                    return False
                e = X.match(body, k)
                # where the statement of that group starts
                depth, s = 0, k
                while s > 0:
                    t = body[s - 1][0]
                    if depth == 0 and (t in (';', '{', '=>', '(', '[', ',') or t == '}' and not (body[s][0] == 'else')):
                        break
                    depth += (t in X.CLOSE) - (t in X.OPEN)
                    s -= 1
                head = X.texts(body[s:k])
                if head[:1] and head[0] not in ('match', 'if') or '|' in head:
                    return False
                start = s
                while e < len(body) and body[e][0] == 'else':
                    k = e
                    while body[k][0] != '{':
                        k = X.match(body, k) if body[k][0] in ('(', '[') else k + 1
                    e = X.match(body, k)
                if e < len(body) and body[e][0] == '}' or e >= len(body) or body[e][0] == ',' and start and body[start - 1][0] == '=>':
                    continue
                if start and body[start - 1][0] == '=>' and e < len(body):
                    # a block arm without a comma: the next arm follows
                    depth, k = 0, start
                    continue_at = None
                    while k > 0:
                        k -= 1
                        if body[k][0] in X.CLOSE:
                            depth += 1
                        elif body[k][0] in X.OPEN:
                            if depth == 0:
                                continue_at = k
                                break
                            depth -= 1
                    if continue_at is None:
                        return False
                    e = X.match(body, continue_at) - 1
                    continue
                return False
            else:
                return False
        return True


def loader(path, name):
    """The text of a module in a file of its own."""
    base = os.path.join(X.REPO, os.path.dirname(path))
    stem = os.path.splitext(os.path.basename(path))[0]
    if stem not in ('mod', 'lib'):
        base = os.path.join(base, stem)
    for p in (os.path.join(base, name + '.rs'), os.path.join(base, name, 'mod.rs')):
        if os.path.exists(p):
            return X.tokenize(open(p).read())
    return None


_known = None


def normal(path, items):
    global _known
    if _known is None:
        _known = json.load(open(VOCABULARY)) if os.path.exists(VOCABULARY) else {}
    if path not in _known:
        return items, [], set()
    n = Normal(path, items, _known[path], loader)
    try:
        return n.run(), n.notes, n.inlined
    except (X.Lost, IndexError, StopIteration) as e:
        return None, ['not normalised: %r' % e], set()


if __name__ == '__main__':
    v = {}
    X.Source.plain = True
    X.Source.reset()
    for f in FILES:
        v[f] = vocabulary(X.Source.get(f))
    with open(VOCABULARY, 'w') as out:
        json.dump(v, out, indent=1, sort_keys=True)
        out.write('\n')
