#!/usr/bin/env python3
"""Writes Rust types that derive Serialize, Deserialize and SerializeHeader, in every shape, with
the header and the body that the documentation says they have.

  gen_derived.py SEED COUNT OUT.rs
"""
import random
import re
import sys

seed, count, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
R = random.Random(seed)

LEAVES = ["()", "bool", "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "String",
          "serde_bytes::ByteBuf", "dlhn::BigUint", "dlhn::BigInt", "dlhn::BigDecimal", "dlhn::Date", "dlhn::DateTime"]
SMALL = ["()", "bool", "u8", "u16", "i8", "i64", "String"]
DEFAULT = ["()", "bool", "u8", "u32", "i64", "String", "Option<u8>", "Vec<u16>"]
# Fields written through the format modules: type, attribute, header, conversion to the body.
WITH = [
    ("time::Date", "dlhn::format::date", "H::Date", "crate::typed::arb_date(r)",
     "B::Date({0}.year(), {0}.ordinal())"),
    ("time::OffsetDateTime", "dlhn::format::date_time", "H::DateTime", "crate::typed::arb_date_time(r)",
     "B::DateTime({0}.unix_timestamp(), {0}.nanosecond())"),
    ("num_bigint::BigUint", "dlhn::format::big_uint", "H::BigUInt", "<dlhn::BigUint as Typed>::arb(r, s).into()",
     "<dlhn::BigUint as Typed>::body(&{0}.clone().into())"),
    ("num_bigint::BigInt", "dlhn::format::big_int", "H::BigInt", "<dlhn::BigInt as Typed>::arb(r, s).into()",
     "<dlhn::BigInt as Typed>::body(&{0}.clone().into())"),
]

made = []
# Types that serialize less than they decode, so that their own decoder cannot read them.
untyped_names = []


def ty(depth=2):
    k = R.random()
    if depth == 0 or k < 0.45:
        return R.choice(LEAVES)
    if k < 0.6 and made:
        return R.choice(made)
    inner = ty(depth - 1)
    k = R.randrange(4)
    if k == 0:
        return "Option<%s>" % inner
    if k == 1:
        return "Vec<%s>" % inner
    if k == 2:
        return "BTreeMap<String, %s>" % inner
    return "(%s)" % "".join(t + ", " for t in [inner] + [ty(0) for _ in range(R.randrange(4))])


class Field:
    def __init__(self, name, allow_skip, small, forbid_with=False):
        global untyped
        self.name = name
        self.skip = None
        self.attr = ""
        self.with_ = None
        k = R.random()
        if allow_skip and k < 0.2:
            self.skip = R.choice(["skip", "skip", "skip_serializing"])
            self.ty = R.choice(DEFAULT)
            form = "#[serde({0})] " if not name else R.choice(["#[serde({0})] ", "#[serde(default)] #[serde({0})] ", "#[serde(default, {0})] ",
                             "#[serde({0}, default)] ", '#[serde(rename = "r_%s", {0})] ' % name,
                             "#[allow(dead_code)] #[serde({0})] ", '#[serde(rename = "skip_%s")] #[serde({0})] ' % name,
                             '#[serde(default, rename = "now_%s", {0})] ' % name])
            if self.skip == "skip_serializing":
                untyped = True
            self.attr = form.format(self.skip)
        elif k < 0.27 and not small and not forbid_with:
            self.with_ = R.choice(WITH)
            self.ty = self.with_[0]
            self.attr = '#[serde(with = "%s")] ' % self.with_[1]
        else:
            self.ty = R.choice(SMALL) if small else ty()
            if any(re.search(r"\b%s\b" % n, self.ty) for n in untyped_names):
                untyped = True
            k = R.random()
            if k < 0.05 and name:
                self.attr = '#[serde(rename = "renamed_%s")] ' % name
            elif k < 0.1:
                self.attr = "#[allow(dead_code)] "
            elif k < 0.13:
                self.attr = "/// A documented field.\n        "
            elif k < 0.16 and name:
                self.attr = '#[serde(rename = "%s_%s")] ' % (R.choice(["skip", "skip_serializing"]), name)
            elif k < 0.2 and name:
                # What only the decoding of serde looks at: the field is written.
                self.attr = R.choice(['#[serde(alias = "also_%s")] ' % name, '#[serde(alias = "also_%s", rename = "now_%s")] ' % (name, name)])
                untyped = True
            elif k < 0.24 and name and self.ty in DEFAULT:
                self.attr = R.choice(["#[serde(skip_deserializing)] ", "#[serde(default)] ", "#[serde(skip_deserializing, default)] "])
                if "skip" in self.attr:
                    untyped = True

    def decl(self, public):
        n = (self.name + ": ") if self.name else ""
        return "%s%s%s%s" % (self.attr, "pub " if public else "", n, self.ty)

    def header(self):
        return self.with_[2] if self.with_ else "<%s as Typed>::header()" % self.ty

    def arb(self):
        if self.skip:
            return "Default::default()"
        return self.with_[3] if self.with_ else "<%s as Typed>::arb(r, s / 3)" % self.ty

    def body(self, e):
        if self.with_:
            return self.with_[4].format(e)
        return "<%s as Typed>::body(&%s)" % (self.ty, e)


def fields(n, named, allow_skip=True, small=False):
    return [Field("f%d" % i if named else None, allow_skip, small) for i in range(n)]


def sizes():
    return R.choice([0, 1, 1, 2, 2, 3, 4, 5, 7])


def literal(path, fs, named):
    if named:
        return path + " { " + "".join("%s: %s, " % (f.name, f.arb()) for f in fs) + "}"
    if not fs:
        return path + "()"
    return path + "(" + "".join(f.arb() + ", " for f in fs) + ")"


lines = []
checks = []


def emit(name, decl, header, arb, body):
    lines.append("#[derive(Serialize, Deserialize, SerializeHeader, Debug, Clone)]\n%s\n" % decl)
    lines.append("""impl Typed for {0} {{
    type Val = {0};
    #[allow(unused_variables)]
    fn header() -> H {{
        {1}
    }}
    #[allow(unused_variables, unreachable_code)]
    fn arb(r: &mut Rng, s: u64) -> {0} {{
        {2}
    }}
    #[allow(unused_variables)]
    fn body(v: &{0}) -> B {{
        {3}
    }}
}}
""".format(name, header, arb, body))
    if untyped:
        untyped_names.append(name)
    checks.append((name, "check" if untyped else "check_both"))


def struct(name, n=None, small=False):
    global untyped
    untyped = False
    kind = R.choice(["named", "named", "tuple", "unit"]) if n is None else R.choice(["named", "tuple"])
    n = sizes() if n is None else n
    if kind == "unit":
        emit(name, "pub struct %s;" % name, "H::Tup(vec![])", name, "B::Tup(vec![])")
        return
    named = kind == "named"
    # A newtype struct is written as its field even where that is marked skip.
    fs = fields(n, named, allow_skip=not (kind == "tuple" and n == 1), small=small)
    inner = ",\n        ".join(f.decl(True) for f in fs)
    decl = "pub struct %s {\n        %s\n}" % (name, inner) if named else "pub struct %s(\n        %s\n);" % (name, inner)
    live = [(i, f) for i, f in enumerate(fs) if not f.skip]
    header = "H::Tup(vec![%s])" % ", ".join(f.header() for _, f in live)
    body = "B::Tup(vec![%s])" % ", ".join(f.body("v.%s" % (f.name or i)) for i, f in live)
    emit(name, decl, header, literal(name, fs, named), body)


def enum(name, n=None, small=False):
    global untyped
    untyped = False
    n = R.choice([1, 2, 3, 4, 6, 9]) if n is None else n
    decls, headers, arms, bodies = [], [], [], []
    skipped = 0
    for k in range(n):
        kind = R.choice(["unit", "newtype", "tuple", "struct", "tuple", "struct"])
        if small:
            kind = R.choice(["unit", "unit", "newtype"])
        named = kind == "struct"
        m = {"unit": 0, "newtype": 1, "tuple": R.choice([0, 2, 2, 3, 4]), "struct": R.choice([0, 1, 1, 2, 3, 5])}[kind]
        fs = fields(m, named, small=small)
        v = "V%d" % k
        attr = ""
        if k and k == n - 1 and R.random() < 0.25:
            # Only the last variants: the index of serde counts the skipped ones.
            attr = "#[serde(%s)] " % R.choice(["skip", "skip_serializing"])
            skipped = 1
            for f in fs:
                f.attr = ""
                f.with_ = None
                f.ty = R.choice(DEFAULT)
        inner = ", ".join(f.decl(False) for f in fs)
        decls.append("    %s%s" % (attr, {"unit": v, "struct": "%s { %s }" % (v, inner)}.get(kind, "%s(%s)" % (v, inner))))
        pat = {"unit": "%s::%s" % (name, v),
               "struct": "%s::%s { %s }" % (name, v, ", ".join("%s: x%d" % (f.name, i) for i, f in enumerate(fs)))}.get(
            kind, "%s::%s(%s)" % (name, v, ", ".join("x%d" % i for i in range(m))))
        if skipped:
            bodies.append("%s => unreachable!()," % pat)
            continue
        live = [(i, f) for i, f in enumerate(fs) if not f.skip]
        if not live:
            headers.append("H::Unit")
            b = "B::Unit"
        elif len(live) == 1:
            headers.append(live[0][1].header())
            b = live[0][1].body("(*x%d)" % live[0][0])
        else:
            headers.append("H::Tup(vec![%s])" % ", ".join(f.header() for _, f in live))
            b = "B::Tup(vec![%s])" % ", ".join(f.body("(*x%d)" % i) for i, f in live)
        made_ = "%s::%s" % (name, v) if kind == "unit" else literal("%s::%s" % (name, v), fs, named)
        arms.append("%d => %s," % (k, made_))
        bodies.append("%s => B::Enum(%d, Box::new(%s))," % (pat, k, b))
    live_n = n - skipped
    emit(name, "pub enum %s {\n%s\n}" % (name, ",\n".join(decls)), "H::Enum(vec![%s])" % ", ".join(headers),
         "match r.below(%d) {\n            %s\n            _ => unreachable!(),\n        }" % (live_n, "\n            ".join(arms)),
         "match v {\n            %s\n        }" % "\n            ".join(bodies))


def shapes(prefix):
    """Every small shape once, whatever the seed."""
    for n in (0, 1, 2, 3):
        for kind in ("named", "tuple"):
            global untyped
            untyped = False
            name = "%sS%d%s" % (prefix, n, kind[0].upper())
            ts = ["u8", "Option<u16>", "String"][:n]
            fs = []
            for i, t in enumerate(ts):
                f = Field("f%d" % i if kind == "named" else None, False, True)
                f.ty, f.attr = t, ""
                fs.append(f)
            inner = ", ".join(f.decl(True) for f in fs)
            decl = "pub struct %s { %s }" % (name, inner) if kind == "named" else "pub struct %s(%s);" % (name, inner)
            emit(name, decl, "H::Tup(vec![%s])" % ", ".join(f.header() for f in fs), literal(name, fs, kind == "named"),
                 "B::Tup(vec![%s])" % ", ".join(f.body("v.%s" % (f.name or i)) for i, f in enumerate(fs)))
            made.append(name)


shapes("")
for i in range(count):
    name = "T%d" % i
    if i % 2:
        enum(name)
    else:
        struct(name)
    made.append(name)
# Counts around the boundary of the element count's encoding.
struct("Wide127", 127, True)
struct("Wide128", 128, True)
struct("Wide300", 300, True)
enum("Many127", 127, True)
enum("Many128", 128, True)
enum("Many300", 300, True)

untyped = False
fs = [Field(None, False, True) for _ in range(130)]
for f in fs:
    f.attr = ""
emit("WideVariant", "pub enum WideVariant { A, B(%s), C { %s } }" % (
    ", ".join(f.ty for f in fs), ", ".join("g%d: %s" % (i, f.ty) for i, f in enumerate(fs))),
    "H::Enum(vec![H::Unit, H::Tup(vec![{0}]), H::Tup(vec![{0}])])".format(", ".join(f.header() for f in fs)),
    "match r.below(3) {{ 0 => WideVariant::A, 1 => WideVariant::B({0}), _ => WideVariant::C {{ {1} }} }}".format(
        ", ".join(f.arb() for f in fs), ", ".join("g%d: %s" % (i, f.arb()) for i, f in enumerate(fs))),
    "match v {{ WideVariant::A => B::Enum(0, Box::new(B::Unit)), WideVariant::B({0}) => B::Enum(1, Box::new(B::Tup(vec![{2}]))), "
    "WideVariant::C {{ {1} }} => B::Enum(2, Box::new(B::Tup(vec![{2}]))) }}".format(
        ", ".join("x%d" % i for i in range(130)), ", ".join("g%d: x%d" % (i, i) for i in range(130)),
        ", ".join(f.body("(*x%d)" % i) for i, f in enumerate(fs))))

with open(out, "w") as o:
    o.write("// Generated by gen_derived.py %d %d\n" % (seed, count))
    o.write("use crate::refmodel::{B, H};\nuse crate::rng::Rng;\nuse crate::typed::{check, check_both, Typed};\n")
    o.write("use dlhn::SerializeHeader;\nuse serde::{Deserialize, Serialize};\nuse std::collections::BTreeMap;\n\n")
    o.write("\n".join(lines))
    o.write("\npub const CHECKS: &[(fn(&mut Rng, u64, bool) -> crate::Outcome, &str)] = &[\n")
    for n, c in checks:
        o.write('    (%s::<%s>, "%s"),\n' % (c, n, n))
    o.write("];\n")
