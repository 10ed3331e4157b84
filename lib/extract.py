"""Turns a template of contracts and the current source of /repo into one Verus file.

A template is Verus text with directives on lines of their own:

  FILE is a path in /repo, or @CRATE/src/.. : a file of the version of a dependency that Cargo.lock names, where cargo keeps it.

  //@include NAME [A=B ...]        another template, with B for {A}
  //@item FILE :: KIND NAME        the item as it stands (enum, struct, const)
  //@private_item FILE :: struct NAME   the same, with private fields
  //@consts FILE                   every top-level const item
  //@impl FILE :: HEADER           the whole impl block: its types, consts and functions
  //@fns FILE                      every top-level function
  //@defaults FILE :: TRAIT        (inside a trait) the functions of the trait that have a body
  //@default FILE :: TRAIT         (outside) those of them that the block names, as functions on their own
  //@quotes                        from here on, quote! { } in a function becomes what running the quoted code writes
  //@derive_serialize FILE :: NAME ... //@end   what serde's derive(Serialize) makes of the struct, with the ghost items
                                   up to the end; derive_deserialize likewise. The struct must have no serde attribute
  //@expand FILE :: MACRO          the file's own macro_rules macro, expanded: its items become items of FILE
  //@hoist PREFIX FILE :: HEADER  the structs and impls inside the functions of an impl become items of FILE, the structs with PREFIX
  //@value NAME FILE :: HEADER :: CONST   a const NAME with the value of an associated const of an impl
     //@inject                     (inside impl) ghost items put first; up to the next directive
     //@fn NAME                    (inside impl or fns) the contract of a function
     //@sig OLD => NEW             token replacement in its signature
     //@loop N                     the invariants of its N-th loop
     //@loopbody N                 ghost code put first in the body of its N-th loop
     //@loopend N                  ghost code put last in the body of its N-th loop
     //@before N, //@after N        ghost code before or after its N-th loop
                                 (in these, a line after @for or @while is for that kind of loop only; $w is what a while compares)
     //@closure N                   the signature of its N-th closure, with the contract
     //@start                      ghost code put first in its body
     //@attr TEXT                   an attribute for the verifier
     //@only                       (inside impl or fns) functions that the block does not name are left out
     //@skip                       the function is left out (said in the report)
     //@optional                   no error if the function is not there
  //@end
  //@rewrite OLD => NEW            token replacement in every function that follows (up to //@norewrites)
  //@norewrites

In OLD, $name matches a balanced run of tokens (at least one, as few as possible), and $name:ident one identifier.
Comments, attributes and visibilities of the source are dropped; everything else of a function is kept
token by token but for the listed replacements. A directive that finds nothing to apply to is an error
(Lost). Where it is one in the body of a function, the function is given up: its contract is assumed, which is
reported as undecided, and the rest is verified.
"""
import glob, os, re, threading

REPO = '/repo'


class Lost(Exception):
    """The source no longer has what a contract is attached to."""


TOKEN = re.compile(r'''
    (?P<ws>\s+)
  | (?P<lc>//[^\n]*)
  | (?P<bc>/\*)
  | (?P<raw>b?r(?P<h>\#*)".*?"(?P=h))
  | (?P<str>b?"(?:[^"\\]|\\.)*")
  | (?P<chr>b?'(?:[^'\\\n]|\\(?:[nrt0\\'"]|x[0-9a-fA-F]{2}|u\{[0-9a-fA-F_]+\}))')
  | (?P<life>'[A-Za-z_]\w*)
  | (?P<num>[0-9](?:[0-9a-zA-Z_]|\.(?=[0-9]))*)
  | (?P<id>r\#[A-Za-z_]\w*|[A-Za-z_]\w*)
  | (?P<op>->|=>|::|\.\.=|\.\.\.|\.\.|<<=|>>=|==|!=|<=|>=|&&|\|\||\+=|-=|\*=|/=|%=|\^=|&=|\|=|.)
''', re.X | re.S)
# '<<' and '>>' stay single characters: the latter also closes generics.

OPEN, CLOSE = {'(': ')', '[': ']', '{': '}'}, {')', ']', '}'}


def tokenize(text):
    """[(text, preceded_by_space)]"""
    out, i, space = [], 0, False
    while i < len(text):
        m = TOKEN.match(text, i)
        k = m.lastgroup if m.lastgroup != 'h' else 'raw'
        if m['bc']:
            depth, j = 1, m.end()
            while depth and j < len(text):
                if text.startswith('/*', j):
                    depth, j = depth + 1, j + 2
                elif text.startswith('*/', j):
                    depth, j = depth - 1, j + 2
                else:
                    j += 1
            i, space = j, True
            continue
        i = m.end()
        if m['ws'] or m['lc']:
            space = space or ('\n' if '\n' in m[0] else ' ')
            continue
        out.append((m[0], space))
        space = False
    return out


def texts(toks):
    return [t for t, _ in toks]


def render(toks):
    s = ''
    for t, sp in toks:
        if sp and s:
            s += '\n' if sp == '\n' else ' '
        s += t
    return s


def match(toks, i):
    """The index after the group that opens at i."""
    depth = 0
    while i < len(toks):
        t = toks[i][0]
        if t in OPEN:
            depth += 1
        elif t in CLOSE:
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise Lost('unbalanced source')


KEYWORDS = ('fn', 'impl', 'enum', 'struct', 'const', 'static', 'use', 'mod', 'trait', 'type', 'macro_rules', 'extern')


class Item:
    def __init__(self, kind, name, head, body, attrs):
        self.kind, self.name, self.head, self.body, self.attrs = kind, name, head, body, attrs

    def key(self):
        return ' '.join(texts(self.head))


def items(toks):
    out, i = [], 0
    while i < len(toks):
        attrs = []
        while i < len(toks) and toks[i][0] == '#':
            j = i + 1
            if toks[j][0] == '!':
                j += 1
            e = match(toks, j)
            attrs.append(''.join(texts(toks[i:e])))
            i = e
        if i >= len(toks):
            break
        if toks[i][0] == 'pub':
            i += 1
            if toks[i][0] == '(':
                i = match(toks, i)
        start = i
        # what kind of item
        k = i
        while toks[k][0] in ('async', 'unsafe', 'default') or toks[k][0] == 'const' and toks[k + 1][0] in ('fn', 'unsafe'):
            k += 1
        kind = toks[k][0]
        if kind not in KEYWORDS:
            # a macro call or something unknown: skip to its end
            j = i
            while toks[j][0] not in ('{', ';', '(', '['):
                j += 1
            j = match(toks, j) if toks[j][0] != ';' else j + 1
            if j < len(toks) and toks[j][0] == ';':
                j += 1
            out.append(Item('macro', toks[i][0], toks[start:j], [], attrs))
            i = j
            continue
        name = toks[k + 1][0] if k + 1 < len(toks) else ''
        if kind == 'macro_rules':
            name = toks[k + 2][0]
        j = k
        while toks[j][0] not in ('{', ';'):
            if toks[j][0] in ('(', '['):
                j = match(toks, j)
            elif kind in ('const', 'static', 'type', 'use') and toks[j][0] == '=':
                while toks[j][0] != ';':
                    j = match(toks, j) if toks[j][0] in OPEN else j + 1
            else:
                j += 1
        if kind == 'use':
            while toks[j][0] != ';':
                j = match(toks, j) if toks[j][0] in OPEN else j + 1
        if toks[j][0] == ';':
            out.append(Item(kind, name, toks[start:j], None, attrs))
            i = j + 1
        else:
            e = match(toks, j)
            out.append(Item(kind, name, toks[start:j], toks[j + 1:e - 1], attrs))
            i = e
    return out


def wanted(item):
    return not any('cfg(test)' in a or 'cfg(kani)' in a or 'cfg(dlhn_contracts)' in a for a in item.attrs)


def dependency(path):
    """'@serde_core/src/..': the file of the crate that Cargo.lock names, where cargo has it."""
    crate, rest = path[1:].split('/', 1)
    try:
        lock = open(os.path.join(REPO, 'Cargo.lock')).read()
    except OSError:
        lock = ''
    versions = re.findall(r'name = "%s"\nversion = "([^"]*)"' % re.escape(crate), lock) or ['[0-9]*']
    home = os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo')
    hits = sorted(h for v in versions for h in glob.glob('%s/registry/src/*/%s-%s/%s' % (home, crate, v, rest)))
    if not hits:
        raise Lost('%s: not in %s/registry' % (path, home))
    return hits[-1]


class Source:
    local = threading.local()     # one extraction at a time in a thread: expanding macros changes the lists

    @classmethod
    def reset(cls):
        cls.local.cache = {}
        cls.local.notes = []
        cls.local.inlined = set()

    @classmethod
    def get(cls, path):
        full = dependency(path) if path.startswith('@') else os.path.join(REPO, path)
        if full not in cls.local.cache:
            try:
                text = open(full).read()
            except OSError as e:
                raise Lost(str(e))
            its = [i for i in items(tokenize(text)) if wanted(i)]
            if not getattr(cls, 'plain', False) and not path.startswith('@'):
                from normal import normal
                made, notes, inlined = normal(path, its)
                cls.local.notes += notes
                cls.local.inlined |= inlined
                its = [i for i in items(tokenize(text)) if wanted(i)] if made is None else made
            cls.local.cache[full] = its
        return cls.local.cache[full]


def find(path, kind, name):
    hits = [i for i in Source.get(path) if i.kind == kind and i.name == name]
    if len(hits) != 1:
        raise Lost('%s: %d items "%s %s"' % (path, len(hits), kind, name))
    return hits[0]


def norm(s):
    return ' '.join(texts(tokenize(s)))


def pattern(s):
    out = []
    toks = texts(tokenize(s))
    i = 0
    while i < len(toks):
        if toks[i] == '$' and i + 1 < len(toks):
            name = toks[i + 1]
            if i + 3 < len(toks) and toks[i + 2] == ':' and toks[i + 3] == 'ident':
                out.append(('ident', name))
                i += 4
            else:
                out.append(('any', name))
                i += 2
        else:
            out.append(('tok', toks[i]))
            i += 1
    return out


def try_match(toks, i, pat, p, binds):
    while p < len(pat):
        kind, v = pat[p]
        if kind == 'tok':
            if i >= len(toks) or toks[i][0] != v:
                return None
            i += 1
        elif kind == 'ident':
            if i >= len(toks) or not re.match(r'[A-Za-z_]\w*$', toks[i][0]):
                return None
            binds[v] = toks[i:i + 1]
            i += 1
        else:
            j = i
            while j < len(toks) and toks[j][0] not in CLOSE and toks[j][0] != ';':
                j = match(toks, j) if toks[j][0] in OPEN else j + 1
                b = dict(binds)
                b[v] = toks[i:j]
                e = try_match(toks, j, pat, p + 1, b)
                if e is not None:
                    binds.update(b)
                    return e
            return None
        p += 1
    return i


def substitute(new, binds):
    out = []
    toks = tokenize(new)
    i = 0
    while i < len(toks):
        if toks[i][0] == '$' and i + 1 < len(toks) and toks[i + 1][0] in binds:
            b = list(binds[toks[i + 1][0]])
            if b:
                b[0] = (b[0][0], toks[i][1])
            out += b
            i += 2
        else:
            out.append(toks[i])
            i += 1
    return out


def rewrite(toks, rules, used):
    for n, (pat, new) in enumerate(rules):
        i = 0
        while i < len(toks):
            b = {}
            e = try_match(toks, i, pat, 0, b)
            if e is not None and e > i:
                sub = substitute(new, b)
                if sub:
                    sub[0] = (sub[0][0], toks[i][1] or ' ')
                toks = toks[:i] + sub + toks[e:]
                i += len(sub)
                used.add(n)
            else:
                i += 1
    return toks


def strip_attrs(toks):
    """Drops attributes inside of an item."""
    out, i = [], 0
    while i < len(toks):
        if toks[i][0] == '#' and i + 1 < len(toks) and toks[i + 1][0] == '[':
            i = match(toks, i + 1)
        else:
            out.append(toks[i])
            i += 1
    return out


def loops(body):
    """(kind, index of the body's brace) of each loop, in order."""
    out = []
    for i, (t, _) in enumerate(body):
        if t in ('for', 'while', 'loop') and (t != 'for' or i + 1 < len(body) and body[i + 1][0] != '<'):
            j = i + 1
            while body[j][0] != '{':
                j = match(body, j) if body[j][0] in ('(', '[') else j + 1
            out.append((t, i, j))
    return out


def of_kind(text, body, loop):
    """The ghost code for a loop: lines after @for or @while are for that kind of loop only; $w is the left of a while's `<`."""
    kind, i, j = loop
    out = []
    for l in text.split('\n'):
        m = re.match(r'\s*@(for|while)\b(.*)$', l)
        if not m:
            out.append(l)
        elif m[1] == kind:
            if '$w' in m[2]:
                cond = body[i + 1:j]
                k = next((k for k, (t, _) in enumerate(cond) if t in ('<', '!=')), None)
                if k is None or any(re.fullmatch(r'\d\w*', render(x)) for x in (cond[:k], cond[k + 1:])) or '&&' in texts(cond) or '||' in texts(cond):
                    raise Lost('a loop whose condition is not a comparison of a count with the count of all')
                w = render(cond[:k])
                if re.fullmatch(r'\w+', w) and not re.search(r'\blet\s+mut\s+%s\s*(:\s*\w+\s*)?=\s*0\w*\s*;' % w, render(body[:i])):
                    raise Lost('a loop whose count does not start at 0')
                m = (m[0], m[1], m[2].replace('$w', '(' + render(cond[:k]) + ')'))
            out.append(m[2])
    return '\n'.join(out)


def closures(body, contracts, where):
    """Puts a signature with a contract in the place of the closures' parameters."""
    found = []
    for i, (t, _) in enumerate(body):
        if t == '|' and i and body[i - 1][0] in ('(', ',', '=', 'move', 'return') and (not found or found[-1][1] != i):
            e = next(k for k in range(i + 1, len(body)) if body[k][0] == '|')
            found.append((i, e))
    if len(found) != max(contracts):
        raise Lost('%s: it has %d closures' % (where, len(found)))
    for n in sorted(contracts, reverse=True):
        i, e = found[n - 1]
        names = [t for t, _ in body[i + 1:e] if re.match(r'[A-Za-z_]', t)]
        j = e + 1
        while j < len(body) and body[j][0] not in CLOSE and body[j][0] not in (',', ';'):
            j = match(body, j) if body[j][0] in OPEN else j + 1
        inner = body[e + 1:j]
        if not (inner[0][0] == '{' and match(inner, 0) == len(inner)):
            inner = [('{', ' ')] + inner + [('}', ' ')]
        body = body[:i] + [(named(contracts[n].strip(), names), False)] + [(inner[0][0], ' ')] + inner[1:] + body[j:]
    return body


def quotes(body):
    """quote! { } with what the quoted code does, as a list of what it writes."""
    out, i = [], 0
    while i < len(body):
        if body[i][0] == 'quote' and i + 2 < len(body) and body[i + 1][0] == '!':
            e = match(body, i + 2)
            out.append((quoted(body[i + 3:e - 1]), ' '))
            i = e
        else:
            out.append(body[i])
            i += 1
    return out


def quoted(toks):
    at = next((k for k, (t, _) in enumerate(toks) if t == '{'), None)
    if at is None or match(toks, at) != len(toks):
        raise Lost('quoted code of another form')
    head = ' '.join(texts(toks[:at]))
    m = re.fullmatch(r'impl (?:: )?(?::: )?dlhn :: header :: ser :: SerializeHeader for # (\w+)', head)
    inner = toks[at + 1:-1]
    at = next((k for k, (t, _) in enumerate(inner) if t == '{'), None)
    if not m or at is None or match(inner, at) != len(inner):
        raise Lost('quoted code of another form')
    head = ' '.join(texts(inner[:at]))
    w = re.fullmatch(r'fn serialize_header < (\w+) : (?::: )?std :: io :: Write > \( (\w+) : & mut \1 \) -> (?::: )?std :: io :: Result < \( \) >', head)
    if not w:
        raise Lost('quoted code of another form')
    return 'quoted(Ghost(Tok::Impl(%s, %s)))' % (m[1], statements(inner[at + 1:-1], w[2], {}, 0, True))


def variables(toks):
    """The variables that are interpolated, in order."""
    out = []
    for k, (t, _) in enumerate(toks):
        if t == '#' and k + 1 < len(toks) and re.match(r'[A-Za-z_]', toks[k + 1][0]) and toks[k + 1][0] not in out:
            out.append(toks[k + 1][0])
    return out


def repetition(toks, i, env, depth):
    """#( ... ) sep *: what is repeated, the separator, how often, the variables inside, and the index after it."""
    e = match(toks, i + 1)
    inner, sep = toks[i + 2:e - 1], ''
    if toks[e][0] != '*':
        sep, e = toks[e][0], e + 1
    if e >= len(toks) or toks[e][0] != '*':
        raise Lost('quoted code repeats in another form')
    names = variables(inner)
    if not names:
        raise Lost('quoted code repeats nothing')
    count = 'None'
    for n in names:
        count = 'least(%s, (%s).count_())' % (count, env.get(n, n))
    env = dict(env)
    for n in names:
        env[n] = '(%s).at_(i%d)' % (env.get(n, n), depth)
    return inner, sep, count, env, e + 1


def statements(toks, writer, env, depth, last):
    """What quoted statements write, as a Seq<Stmt>."""
    parts, i = [], 0
    while i < len(toks):
        t = toks[i][0]
        if t == '#' and toks[i + 1][0] == '(':
            inner, sep, count, e, i = repetition(toks, i, env, depth)
            if sep:
                raise Lost('quoted statements with a separator')
            parts.append('rep(%s, |i%d: int| %s)' % (count, depth, statements(inner, writer, e, depth + 1, False)))
            continue
        j = i
        while j < len(toks) and toks[j][0] != ';':
            j = match(toks, j) if toks[j][0] in OPEN else j + 1
        s = ' '.join(texts(toks[i:j]))
        if s == 'Ok ( ( ) )' and j == len(toks) and last:
            i = j
            last = False
            break
        m = re.fullmatch(r'< # (\w+) > :: serialize_header \( %s \) \?' % writer, s)
        w = re.fullmatch(r'%s \. write_all \( & # (\w+) \) \?' % writer, s)
        if m:
            parts.append('seq![Stmt::Header((%s).ty_())]' % env.get(m[1], m[1]))
        elif w:
            parts.append('seq![Stmt::Write((%s).array_())]' % env.get(w[1], w[1]))
        elif re.fullmatch(r'%s \. write_all \( & \[ .* \] \) \?' % writer, s):
            at = next(k for k in range(i, j) if toks[k][0] == '[')
            parts.append('seq![Stmt::Write(%s)]' % elements(toks[at + 1:match(toks, at) - 1], env, depth))
        else:
            raise Lost('a quoted statement of another form: ' + s)
        i = j + 1
    if last:
        raise Lost('the quoted function does not end with Ok(())')
    return '(%s)' % ' + '.join(parts or ['Seq::<Stmt>::empty()'])


def elements(toks, env, depth):
    """The bytes of a quoted array, as a Seq<u8>."""
    parts, i = [], 0
    while i < len(toks):
        t = toks[i][0]
        if t == '#' and toks[i + 1][0] == '(':
            inner, sep, count, e, i = repetition(toks, i, env, depth)
            if sep not in ('', ','):
                raise Lost('quoted elements with another separator')
            parts.append('rep(%s, |i%d: int| %s)' % (count, depth, elements(inner, e, depth + 1)))
        elif t == '#':
            n = toks[i + 1][0]
            parts.append('(%s).bytes_()' % env.get(n, n))
            i += 2
        elif re.fullmatch(r'[0-9]+(?:u8)?', t):
            parts.append('seq![%su8]' % t.replace('u8', ''))
            i += 1
        else:
            raise Lost('a quoted element of another form: ' + t)
        if i < len(toks) and toks[i][0] == ',':
            i += 1
    return '(%s)' % ' + '.join(parts or ['Seq::<u8>::empty()'])


class Macro:
    """Expands a macro_rules macro, as far as repetitions and single tokens go."""

    def __init__(self, item):
        self.arms, rest = [], item.body
        while rest:
            e = match(rest, 0)
            pat, rest = rest[1:e - 1], rest[e:]
            if len(rest) < 2 or rest[0][0] != '=>':
                raise Lost('macro %s has another form' % item.name)
            e = match(rest, 1)
            self.arms.append((pat, rest[2:e - 1]))
            rest = rest[e:]
            if rest and rest[0][0] == ';':
                rest = rest[1:]

    def bind(self, pat, toks, i):
        """Matches pat against toks from i on: (bindings, index), or None."""
        binds, p = {}, 0
        while p < len(pat):
            t = pat[p][0]
            if t == '$' and pat[p + 1][0] == '(':
                e = match(pat, p + 1)
                inner, sep = pat[p + 2:e - 1], None
                if pat[e][0] not in '*+?':
                    sep, e = pat[e][0], e + 1
                reps = []
                while i < len(toks):
                    at = i
                    if reps and sep:
                        if toks[i][0] != sep:
                            break
                        i += 1
                    r = self.bind(inner, toks, i)
                    if r is None or r[1] == at:
                        i = at
                        break
                    reps.append(r[0])
                    i = r[1]
                for n in self.names(inner):
                    binds[n] = [r[n] for r in reps]
                p = e + 1
            elif t == '$':
                if i >= len(toks) or toks[i][0] in CLOSE:
                    return None
                e = match(toks, i) if toks[i][0] in OPEN else i + 1
                if pat[p + 3][0] == 'meta':
                    e = len(toks)
                if pat[p + 3][0] == 'expr':
                    while e < len(toks) and toks[e][0] not in (',', ';', '=>'):
                        e = match(toks, e) if toks[e][0] in OPEN else e + 1
                if pat[p + 3][0] == 'ty':
                    e, depth = i, 0
                    while e < len(toks) and (depth or toks[e][0] not in (',', ';', '=>', '=', '>')):
                        depth += {'<': 1, '>': -1}.get(toks[e][0], 0)
                        e = match(toks, e) if toks[e][0] in OPEN else e + 1
                if pat[p + 3][0] == 'ident' and not re.match(r'[A-Za-z_]', toks[i][0]):
                    return None
                binds[pat[p + 1][0]] = toks[i:e]
                i, p = e, p + 4
            elif t in OPEN:
                if i >= len(toks) or toks[i][0] != t:
                    return None
                e, f = match(pat, p), match(toks, i)
                r = self.bind(pat[p + 1:e - 1], toks[i + 1:f - 1], 0)
                if r is None or r[1] != f - i - 2:
                    return None
                binds.update(r[0])
                i, p = f, e
            else:
                if i >= len(toks) or toks[i][0] != t:
                    return None
                i, p = i + 1, p + 1
        return binds, i

    @staticmethod
    def names(pat):
        return [pat[k + 1][0] for k in range(len(pat) - 2) if pat[k][0] == '$' and pat[k + 2][0] == ':']

    def fill(self, out, binds):
        r, i = [], 0
        while i < len(out):
            t, sp = out[i]
            if t == '$' and out[i + 1][0] == '(':
                e = match(out, i + 1)
                inner, sep = out[i + 2:e - 1], None
                if out[e][0] not in ('*', '+', '?'):
                    sep, e = out[e][0], e + 1
                used = [out_t[0] for k, out_t in enumerate(inner) if k and inner[k - 1][0] == '$' and out_t[0] in binds]
                many = [n for n in used if isinstance(binds[n], list) and (not binds[n] or isinstance(binds[n][0], (list, dict)))]
                if not many:
                    raise Lost('a macro repeats nothing')
                for k in range(len(binds[many[0]])):
                    b = dict(binds)
                    for n in many:
                        b[n] = binds[n][k]
                    if k and sep:
                        r.append((sep, False))
                    r += [(x, y or ' ') for x, y in self.fill(inner, b)]
                i = e + 1
            elif t == '$' and out[i + 1][0] in binds:
                r += [(x, y or sp) for x, y in binds[out[i + 1][0]]]
                i += 2
            else:
                r.append((t, sp))
                i += 1
        return r

    def expand(self, toks):
        for pat, out in self.arms:
            r = self.bind(pat, toks, 0)
            if r is not None and r[1] == len(toks):
                return self.fill(out, r[0])
        raise Lost('a macro call does not match')


def called(item):
    """What a macro is called with."""
    at = next(k for k, t in enumerate(item.head) if t[0] in OPEN)
    return item.head[at + 1:match(item.head, at) - 1]


def members(path, impl):
    """The items of an impl block, its macro calls expanded."""
    subs = items(impl.body)
    while any(x.kind == 'macro' for x in subs):
        n = next(n for n, x in enumerate(subs) if x.kind == 'macro')
        subs[n:n + 1] = items(Macro(find(path, 'macro_rules', subs[n].name)).expand(called(subs[n])))
    return subs


def hoist(path, header, prefix):
    hits = [it for it in Source.get(path) if it.kind == 'impl' and it.key() == norm(header)]
    if len(hits) != 1:
        raise Lost('%s: %d blocks "%s"' % (path, len(hits), header))
    whole = []
    for sub in members(path, hits[0]):
        body = sub.body
        if sub.kind == 'fn' and body is not None:
            inner, at = [], 0
            while at < len(body) and body[at][0] in ('struct', 'impl'):
                j = at
                while body[j][0] not in ('{', ';'):
                    j = match(body, j) if body[j][0] in OPEN else j + 1
                j = match(body, j) if body[j][0] == '{' else j + 1
                inner.append(body[at:j])
                at = j
            names = [x[1][0] for x in inner if x[0][0] == 'struct']
            def renamed(toks):
                return [(prefix + t, sp) if t in names else (t, sp) for t, sp in toks]
            if sub.name == 'deserialize_in_place':
                continue
            for x in inner:
                Source.get(path).extend(items(renamed(x)))
            body = renamed(body[at:])
        whole += sub.head + ([(';', '')] if body is None else [('{', ' ')] + body + [('}', ' ')])
    hits[0].body = whole


class FnSpec:
    def __init__(self):
        self.contract = ''
        self.loop, self.loopbody, self.loopend, self.before, self.after, self.closure = {}, {}, {}, {}, {}, {}
        self.start = self.attr = ''
        self.skip = self.optional = self.used = False
        self.sig = []


def parameters(head):
    """Gives every parameter a name, and the names but for self."""
    at = next(n for n, (t, _) in enumerate(head) if t == 'fn') + 2
    if at < len(head) and head[at][0] == '<':
        depth = 0
        while at < len(head):
            if head[at][0] == '<':
                depth += 1
            elif head[at][0] == '>':
                depth -= 1
                if depth == 0:
                    break
            at += 1
        at += 1
    end = match(head, at) - 1
    names, out, start, depth = [], [], True, 0
    for t, sp in head[at + 1:end]:
        if start and t not in ('mut', '&') and not t.startswith("'"):
            start = False
            if t == '_':
                t = 'p%d_' % (len(names) + 1)
            if t != 'self':
                names.append(t)
        if t in OPEN or t == '<':
            depth += 1
        elif t in CLOSE or t == '>':
            depth -= 1
        elif t == ',' and depth == 0:
            start = True
        out.append((t, sp))
    return head[:at + 1] + out + head[end:], names


def named(text, params):
    """$1 stands for the first parameter, whatever its name is."""
    def name(m):
        n = int(m[1])
        if n > len(params):
            raise Lost('a function has %d parameters instead of %d' % (len(params), n))
        return params[n - 1]
    return re.sub(r'\$(\d)', name, text)


# Rewrites of every unit: the same thing said in another way.
ALWAYS = ['.map_err(|_| $e) => .or(Err($e))']


class Extractor:
    def __init__(self, templates, assumed=()):
        Source.reset()
        self.templates = templates
        self.assumed = assumed     # functions (file, impl or '', fn) whose contract is not to be verified this time
        self.given_up = []         # (file, impl or '', fn, why) of those and of the ones with no place for their contract
        self.out = []
        self.functions = []    # (file, impl or '', fn, has a contract of its own, first line, last line)
        self.skipped = []
        self.rules = []
        self.rule_text = []
        self.used = set()
        self.applied = []      # the rewrites that applied
        self.uncontracted = []
        self.uncontracted_names = []
        self.quotes = False
        self.applied_always = set()

    def line(self):
        return sum(s.count('\n') for s in self.out) + 1

    def emit(self, s):
        self.out.append(s if s.endswith('\n') else s + '\n')

    def expand(self, name, values=()):
        text = open(os.path.join(self.templates, name)).read()
        for v in values:
            k, new = v.split('=', 1)
            text = text.replace('{%s}' % k, new)
        lines = text.split('\n')
        i = 0
        while i < len(lines):
            l = lines[i]
            m = re.match(r'\s*//@(\w+)\s*(.*)$', l)
            if not m:
                self.emit(l)
                i += 1
                continue
            d, arg = m[1], m[2].strip()
            if d == 'include':
                self.expand(arg.split()[0], arg.split()[1:])
            elif d == 'quotes':
                self.quotes = True
            elif d == 'rewrite':
                old, new = arg.split(' => ', 1) if ' => ' in arg else (arg[:-3], '')
                self.rules.append((pattern(old), new))
                self.rule_text.append(arg)
            elif d == 'norewrites':
                self.flush_rules()
            elif d in ('item', 'private_item'):
                path, rest = [x.strip() for x in arg.split('::', 1)]
                kind, nm = rest.split()
                it = find(path, kind, nm)
                body = strip_attrs(it.body) if it.body is not None else None
                head = render(it.head)
                if kind == 'enum':
                    self.emit('pub ' + head + ' {\n' + render(body) + '\n}')
                elif kind == 'struct':
                    if body is None:
                        self.emit('pub ' + re.sub(r'\(\s*(?:pub(?:\([^)]*\))?\s+)?', '(pub ', head, 1) + ';')
                    else:
                        fields = self.pub_fields(body) if d == 'item' else render(body)
                        self.emit('pub ' + head + ' {\n' + fields + '\n}')
                else:
                    self.emit('pub ' + head + ';')
            elif d == 'consts':
                for it in Source.get(arg):
                    if it.kind == 'const':
                        self.emit('pub ' + re.sub(r':\s*&\s*str\b', ": &'static str", render(it.head), 1) + ';')
            elif d == 'expand':
                path, nm = [x.strip() for x in arg.split('::', 1)]
                m = Macro(find(path, 'macro_rules', nm))
                its = Source.get(path)
                while any(it.kind == 'macro' and it.name == nm for it in its):
                    it = next(it for it in its if it.kind == 'macro' and it.name == nm)
                    its += [x for x in items(m.expand(called(it))) if wanted(x)]
                    its.remove(it)
            elif d == 'hoist':
                prefix, rest = arg.split(None, 1)
                path, header = [x.strip() for x in rest.split('::', 1)]
                hoist(path, header, prefix)
            elif d == 'value':
                nm, rest = arg.split(None, 1)
                path, header, const = [x.strip() for x in re.split(r'\s::\s', rest)]
                its = [sub for it in Source.get(path) if it.kind == 'impl' and it.key() == norm(header)
                       for sub in items(it.body) if sub.kind == 'const' and sub.name == const]
                if len(its) != 1:
                    raise Lost('%s: no const %s in %s' % (path, const, header))
                h = its[0].head
                at = next(k for k, t in enumerate(h) if t[0] == '=')
                self.emit('pub const %s: usize = %s;' % (nm, render(h[at + 1:]).strip()))
            elif d in ('derive_serialize', 'derive_deserialize'):
                ghost = []
                i += 1
                while lines[i].strip() != '//@end':
                    ghost.append(lines[i])
                    i += 1
                self.derived(arg, d[7:], ghost)
            elif d in ('impl', 'fns', 'defaults', 'default'):
                i = self.block(lines, i, d, arg)
                continue
            else:
                raise Lost('%s: unknown directive %s' % (name, d))
            i += 1

    def derived(self, arg, what, ghost):
        """A stand-in for what serde's derive generates for a struct of named fields."""
        path, nm = [x.strip() for x in arg.split('::', 1)]
        it = find(path, 'struct', nm)
        if (not any(re.match(r'#\[derive\(.*\b%s\b' % what.capitalize(), a) for a in it.attrs) or it.body is None
                or any('serde' in a.split('(')[0] for a in it.attrs) or 'serde' in texts(it.body) or '<' in texts(it.head)):
            raise Lost('%s: %s is not a plain struct that derives %s' % (path, nm, what.capitalize()))
        names, types, depth, start = [], [], 0, True
        for t, sp in strip_attrs(it.body):
            if t == ',' and depth == 0:
                start = True
            elif not start:
                types[-1] += (' ' if sp else '') + t
            if start and depth == 0 and t != 'pub' and re.match(r'[A-Za-z_]', t):
                names.append(t)
                types.append('')
                start = False
            if t in OPEN or t == '<':
                depth += 1
            elif t in CLOSE or t == '>':
                depth -= 1
        types = [t.strip().lstrip(':').strip() for t in types]
        if what == 'serialize':
            self.emit('impl Serialize for %s {' % nm)
            for g in ghost:
                self.emit(g)
            self.emit('fn serialize<W: Write>(&self, serializer: &mut Serializer<W>) -> Result<(), Error> {')
            self.emit('let mut s = serializer.serialize_struct("%s", %d)?;' % (nm, len(names)))
            for n in names:
                self.emit('s.serialize_field("%s", &self.%s)?;' % (n, n))
            self.emit('s.end()\n}')
            self.emit("fn serialize_key<'a, W: Write>(&self, serializer: MapKeySerializer<'a, W>) -> Result<(), Error> {")
            self.emit('serializer.serialize_struct("%s", %d)?;\nOk(())\n}\n}' % (nm, len(names)))
            return
        if len(names) != 2 or names[0] == names[1]:
            raise Lost('%s: %s does not have two fields' % (path, nm))
        a, b = names
        self.emit('impl Derived for %s {\ntype A = %s;\ntype B = %s;' % (nm, types[0], types[1]))
        for g in ghost:
            self.emit(g)
        at = next((i for i in range(min(len(a), len(b))) if a[i] != b[i]), None)
        differ = '"%s"@.len() != "%s"@.len()' % (a, b) if at is None else '"%s"@[%d] != "%s"@[%d]' % (a, at, b, at)
        self.emit('open spec fn name_a() -> Seq<char> { "%s"@ }\nopen spec fn name_b() -> Seq<char> { "%s"@ }' % (a, b))
        self.emit('proof fn distinct() { reveal_strlit("%s"); reveal_strlit("%s"); assert(%s); }' % (a, b, differ))
        self.emit('fn make(a: Self::A, b: Self::B) -> Self { %s { %s: a, %s: b } }' % (nm, a, b))
        self.emit('#[verifier::external_body]\nfn names() -> &\'static [&\'static str] { &["%s", "%s"] }' % (a, b))
        self.emit('#[verifier::external_body]\nfn of_name(name: &\'static str) -> Field '
                  '{ match name { "%s" => Field::A, "%s" => Field::B, _ => Field::Ignore } }\n}' % (a, b))

    def flush_rules(self):
        self.applied += [ALWAYS[n] for n in sorted(self.applied_always) if ALWAYS[n] not in self.applied]
        self.applied += [t for n, t in enumerate(self.rule_text) if n in self.used and t not in self.applied]
        self.applied += [n for n in Source.local.notes if n not in self.applied]
        self.rules, self.rule_text, self.used = [], [], set()

    def pub_fields(self, body):
        out, depth, start = [], 0, True
        for t, sp in body:
            if start and depth == 0 and t not in ('pub',) and re.match(r'[A-Za-z_]', t):
                out.append(('pub', sp))
                sp = ' '
                start = False
            if t in OPEN or t == '<':
                depth += 1
            elif t in CLOSE or t == '>':
                depth -= 1
            elif t == ',' and depth == 0:
                start = True
            out.append((t, sp))
        return render(out)

    def block(self, lines, i, d, arg):
        inject, specs, cur, where, only = [], {}, None, None, False
        i += 1
        while True:
            if i >= len(lines):
                raise Lost('no //@end for ' + arg)
            m = re.match(r'\s*//@(\w+)\s*(.*)$', lines[i])
            if m:
                k, a = m[1], m[2].strip()
                if k == 'end':
                    break
                if k == 'inject':
                    where = ('inject',)
                elif k == 'fn':
                    cur = specs.setdefault(a, FnSpec())
                    where = ('contract',)
                elif k in ('loop', 'loopbody', 'loopend', 'before', 'after', 'closure'):
                    where = (k, int(a))
                elif k == 'start':
                    where = ('start',)
                elif k == 'only':
                    only = True
                elif k == 'skip':
                    cur.skip = True
                elif k == 'attr':
                    cur.attr += a + '\n'
                elif k == 'optional':
                    cur.optional = True
                elif k == 'sig':
                    old, new = a.split(' => ', 1)
                    cur.sig.append((pattern(old), new))
                else:
                    raise Lost('unknown directive ' + k)
            else:
                l = lines[i] + '\n'
                if where is None:
                    pass
                elif where[0] == 'inject':
                    inject.append(l)
                elif where[0] == 'contract':
                    cur.contract += l
                elif where[0] == 'start':
                    cur.start += l
                else:
                    dct = getattr(cur, where[0])
                    dct[where[1]] = dct.get(where[1], '') + l
            i += 1
        if d == 'fns':
            path = arg
            for it in Source.get(path):
                if it.kind == 'fn' and (it.name in specs or not only):
                    self.function(path, '', it, specs.get(it.name), True)
                elif it.kind == 'fn':
                    self.skipped.append('%s %s' % (path, it.name))
        elif d in ('defaults', 'default'):
            path, name = [x.strip() for x in arg.split('::', 1)]
            for it in items(find(path, 'trait', name).body):
                if it.kind == 'fn' and it.body is not None and wanted(it) and (d == 'defaults' and not only or it.name in specs):
                    self.function(path, ('trait ' if d == 'defaults' else 'default of ') + name, it, specs.get(it.name), d == 'default')
        else:
            path, header = [x.strip() for x in arg.split('::', 1)]
            want = norm(header)
            hits = [it for it in Source.get(path) if it.kind == 'impl' and it.key() == want]
            if len(hits) != 1:
                raise Lost('%s: %d blocks "%s"' % (path, len(hits), header))
            it = hits[0]
            head = rewrite(strip_attrs(it.head), self.rules, self.used)
            self.emit(render(head) + ' {')
            for s in inject:
                self.emit(s)
            is_trait = 'for' in texts(it.head)
            for sub in members(path, it):
                if only and sub.kind == 'fn' and sub.name not in specs:
                    self.skipped.append('%s %s %s' % (path, norm(header), sub.name))
                    continue
                if not wanted(sub):
                    continue
                if sub.kind == 'fn':
                    self.function(path, header, sub, specs.get(sub.name), not is_trait)
                else:
                    toks = rewrite(strip_attrs(sub.head), self.rules, self.used)
                    self.emit(render(toks) + ';')
            self.emit('}')
        for n, s in specs.items():
            if not s.used and not s.optional:
                raise Lost('%s: no function %s' % (arg, n))
        return i + 1

    def function(self, path, header, it, spec, needs_contract):
        if spec:
            spec.used = True
            if spec.skip:
                self.skipped.append('%s %s %s' % (path, header, it.name))
                return
        head = rewrite(strip_attrs(it.head), self.rules, self.used)
        if spec:
            for pat, new in spec.sig:
                used = set()
                head = rewrite(head, [(pat, new)], used)
                if not used:
                    raise Lost('%s %s: its signature changed' % (header, it.name))
        head, params = parameters(head)
        # the return value gets a name
        depth, arrow, wh = 0, None, None
        for n, (t, _) in enumerate(head):
            if t in OPEN:
                depth += 1
            elif t in CLOSE:
                depth -= 1
            elif t == '->' and depth == 0 and arrow is None:
                arrow = n
            elif t == 'where' and depth == 0:
                wh = n
        if arrow is not None and spec and re.search(r'\b(ensures|returns)\b', spec.contract):
            e = wh if wh is not None else len(head)
            head = head[:arrow + 1] + [('(r:', ' ')] + head[arrow + 1:e] + [(')', False)] + head[e:]
        vis = '' if header.startswith('trait ') or header and ' for ' in ' %s ' % norm(header) else 'pub '
        first = self.line()
        own = bool(spec and spec.contract.strip())
        why = 'not accepted' if (path, header, it.name) in self.assumed else None
        if not why:
            try:
                body = self.body(path, header, it, spec, params)
            except Lost as e:
                why = str(e)
        if why:
            self.given_up.append((path, header, it.name, why))
        text = ('#[verifier::external_body]\n' if why else spec.attr if spec else '') + vis + render(head)
        if own:
            text += '\n' + named(spec.contract.rstrip(), params)
        if why:
            text += ' {\nunimplemented!()\n}'
        else:
            text += ' {\n'
            if spec:
                text += named(spec.start, params)
            text += render(body) + '\n}'
        self.emit(text)
        self.functions.append((path, header, it.name, own or not needs_contract, first, self.line() - 1))
        if needs_contract and not own:
            self.uncontracted.append('%s %s %s' % (path, header, it.name))
            self.uncontracted_names.append(it.name)

    def body(self, path, header, it, spec, params):
        body = strip_attrs(it.body)
        if self.quotes:
            body = quotes(body)
        body = rewrite(body, ALWAYS_RULES, self.applied_always)
        body = rewrite(body, self.rules, self.used)
        if spec and spec.closure:
            body = closures(body, spec.closure, '%s %s' % (header, it.name))
        ls = loops(body)
        if spec:
            for n in [n for d in (spec.loop, spec.loopbody, spec.loopend, spec.before, spec.after) for n in d]:
                if n > len(ls):
                    raise Lost('%s %s: it has no loop %d' % (header, it.name, n))
            if spec.loop and len(ls) != max(spec.loop):
                raise Lost('%s %s: it has %d loops' % (header, it.name, len(ls)))
            pieces, last = [], 0
            cuts = []
            at_loop = lambda n, t: of_kind(t, body, ls[n - 1])
            for n, t in spec.loop.items():
                cuts.append((ls[n - 1][2], '\n' + at_loop(n, t)))
            for n, t in spec.loopbody.items():
                cuts.append((ls[n - 1][2] + 1, '\n' + at_loop(n, t)))
            for n, t in spec.loopend.items():
                at = match(body, ls[n - 1][2]) - 1
                cuts.append((at, ('' if body[at - 1][0] in (';', '}', '{') else ';') + '\n' + at_loop(n, t)))
            for n, t in spec.before.items():
                cuts.append((ls[n - 1][1], '\n' + at_loop(n, t)))
            for n, t in spec.after.items():
                cuts.append((match(body, ls[n - 1][2]), '\n' + at_loop(n, t)))
            for at, t in sorted(cuts, key=lambda c: c[0]):
                pieces += body[last:at] + [(named(t, params), '\n')]
                last = at
            body = pieces + body[last:]
        return body


ALWAYS_RULES = [(pattern(r.split(' => ')[0]), r.split(' => ')[1]) for r in ALWAYS]


def extract(templates, name, assumed=()):
    x = Extractor(templates, assumed)
    x.expand(name)
    return x, ''.join(x.out)


if __name__ == '__main__':
    import sys
    x, text = extract(os.path.dirname(os.path.abspath(sys.argv[1])), os.path.basename(sys.argv[1]))
    sys.stdout.write(text)
    print('// functions:', len(x.functions), 'skipped:', x.skipped, 'uncontracted:', x.uncontracted, file=sys.stderr)
