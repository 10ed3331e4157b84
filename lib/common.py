import json, os, re, signal, subprocess, threading, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'


def env():
    e = dict(os.environ)
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e['HOME'] = '/root'
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e.pop('RUSTFLAGS', None)
    e.pop('CARGO_TARGET_DIR', None)
    e.pop('RUSTUP_TOOLCHAIN', None)
    return e


LIVE = set()
LOCK = threading.Lock()
STOPPING = threading.Event()


class Run:
    """A finished command."""

    def __init__(self, cmd, rc, out, secs, timed_out):
        self.cmd, self.rc, self.out, self.secs, self.timed_out = cmd, rc, out, secs, timed_out


def run(cmd, log, cwd=None, timeout=None, extra=None):
    """Runs cmd in its own process group with its output in the file log."""
    e = env()
    e.update(extra or {})
    t0 = time.time()
    with open(log, 'wb') as f:
        if STOPPING.is_set():
            return Run(cmd, -1, '', 0.0, True)
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=f,
                             stderr=subprocess.STDOUT, start_new_session=True)
        with LOCK:
            LIVE.add(p)
        timed_out = False
        try:
            p.wait(timeout)
        except subprocess.TimeoutExpired:
            timed_out = True
            stop(p)
        with LOCK:
            LIVE.discard(p)
    out = open(log, errors='replace').read()
    return Run(cmd, p.returncode, out, time.time() - t0, timed_out)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError:
        pass
    p.wait()


def stop_all():
    STOPPING.set()
    with LOCK:
        live = list(LIVE)
    for p in live:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass


def sources():
    """The source files of the libraries under test, for the dictionary."""
    for top in ('dlhn/src', 'dlhn_derive/src'):
        for d, ds, fs in os.walk(os.path.join(REPO, top)):
            ds.sort()
            for f in sorted(fs):
                if f.endswith('.rs'):
                    yield os.path.join(d, f)


def dictionary(path):
    """The numbers and strings that the source mentions, which the search mixes into its cases."""
    ints, strs = set(), set()
    suffix = r'(?:_?(?:[iu](?:8|16|32|64|128|size)|f32|f64))?'
    for f in sources():
        t = open(f, errors='replace').read()
        # unit tests of the library mention many numbers which mean nothing for its behaviour
        t = re.split(r'#\[cfg\(test\)\]\s*mod ', t)[0]
        t = re.sub(r'//[^\n]*', '', t)
        for m in re.finditer(r'0x([0-9a-fA-F_]+?)' + suffix + r'\b', t):
            ints.add(int(m[1].replace('_', '') or '0', 16))
        for m in re.finditer(r'0b([01_]+?)' + suffix + r'\b', t):
            ints.add(int(m[1].replace('_', '') or '0', 2))
        for m in re.finditer(r'(?<![\w.])([0-9][0-9_]*?)' + suffix + r'\b', t):
            ints.add(int(m[1].replace('_', '')))
        for m in re.finditer(r'(?<![\w.])([0-9][0-9_]*)\s*<<\s*([0-9]+)', t):
            ints.add(int(m[1].replace('_', '')) << int(m[2]))
        for m in re.finditer(r"b'([^'\\])'", t):
            ints.add(ord(m[1]))
        for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
            if len(m[1]) <= 64:
                strs.add(m[1])
    ints = sorted(i & ((1 << 64) - 1) for i in ints if i < 1 << 128)
    with open(path, 'w') as o:
        for i in ints:
            o.write('i %d\n' % i)
        for s in sorted(strs):
            o.write('s %s\n' % s)
    return len(ints), len(strs)


def dump(path, value):
    with open(path, 'w') as f:
        json.dump(value, f, indent=1)
        f.write('\n')
