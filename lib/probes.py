"""Programs that must not compile (conditional skipping under the header derive), and their twins
without it, which must."""
import json, os, re
from common import *

SHAPES = {
    'struct_field': ('struct T { %s a: u8, b: u16 }', 1),
    'struct_last_field': ('struct T { a: u8, %s b: Option<u16> }', 1),
    'struct_only_field': ('struct T { %s a: u8 }', 1),
    'tuple_struct_field': ('struct T(%s u8, u16);', 1),
    'tuple_struct_last_field': ('struct T(u8, %s u16);', 1),
    'newtype': ('struct T(%s u8);', 0),
    'tuple_variant_field': ('enum T { A(%s u8, u16), B }', 1),
    'tuple_variant_last_field': ('enum T { B, A(u8, %s u16) }', 1),
    'struct_variant_field': ('enum T { A { %s a: u8, b: u16 }, B }', 1),
    'struct_variant_last_field': ('enum T { B(u8), A { a: u8, %s b: u16 } }', 1),
    'last_of_many_variants': ('enum T { B(u8), C, D { a: u8 }, A { a: u8, %s b: u16 } }', 1),
}
ATTRS = {
    'alone': '#[serde(skip_serializing_if = "no")]',
    'second': '#[serde(default, skip_serializing_if = "no")]',
    'first': '#[serde(skip_serializing_if = "no", default)]',
    'separate': '#[serde(default)] #[serde(skip_serializing_if = "no")]',
    'renamed': '#[serde(rename = "x", skip_serializing_if = "no")]',
}
SOURCE = '''#![allow(dead_code)]
use dlhn::SerializeHeader;
use serde::Serialize;
fn no<X>(_: &X) -> bool { false }
#[derive(Serialize, SerializeHeader)]
%s
fn main() { let _ = no::<u8>; let mut v = vec![]; T::serialize_header(&mut v).unwrap(); }
'''


class Probes:
    def __init__(self, work, enabled):
        self.work, self.enabled = work, enabled
        self.violations, self.undecided = [], []
        self.count = 0

    def go(self):
        if not self.enabled:
            return
        d = os.path.join(self.work, 'probes')
        os.makedirs(d + '/src/bin')
        open(d + '/Cargo.toml', 'w').write(
            '[package]\nname = "probes"\nversion = "0.0.0"\nedition = "2021"\n[workspace]\n[dependencies]\n'
            'dlhn = { path = "/repo/dlhn" }\nserde = { version = "1", features = ["derive"] }\n')
        import shutil
        shutil.copy(os.path.join(ROOT, 'native/Cargo.lock'), d + '/Cargo.lock')
        must_fail, must_pass = {}, {}
        for sn, (shape, _) in SHAPES.items():
            name = 'ok_' + sn
            must_pass[name] = shape % ''
            open('%s/src/bin/%s.rs' % (d, name), 'w').write(SOURCE % must_pass[name])
            for an, attr in ATTRS.items():
                if '{' not in shape % '' and an == 'renamed':
                    continue
                name = 'bad_%s_%s' % (sn, an)
                must_fail[name] = shape % attr
                open('%s/src/bin/%s.rs' % (d, name), 'w').write(SOURCE % must_fail[name])
        r = run(['cargo', 'check', '--offline', '--keep-going', '--message-format', 'json', '--target-dir',
                 os.path.join(self.work, 'pt')], os.path.join(self.work, 'probes.log'), cwd=d, timeout=400)
        built, failed = set(), {}
        for l in r.out.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            name = m.get('target', {}).get('name')
            if m.get('reason') == 'compiler-artifact':
                built.add(name)
            if m.get('reason') == 'compiler-message' and m['message']['level'] == 'error':
                failed.setdefault(name, []).append(m['message']['message'])
        shutil.rmtree(os.path.join(self.work, 'pt'), ignore_errors=True)
        if not built and not failed:
            self.undecided.append('probes: nothing was compiled')
            return
        for n, src in must_pass.items():
            if n not in built:
                self.undecided.append('probe %s does not compile: %s' % (n, failed.get(n)))
        for n, src in must_fail.items():
            if n in built:
                self.violations.append('this definition is accepted, although it skips conditionally: ' + src)
            elif n not in failed:
                self.undecided.append('probe %s was not compiled' % n)
        self.count = len(built) + len(failed)
