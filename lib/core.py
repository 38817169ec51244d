"""Driver: builds /repo, runs the real assembler on inputs and records what it
did, hands the recordings to TLC, and reports.  It decides nothing about what
the assembler should do: expectations come from the specification in spec/."""
import json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('C8S_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
CORES = os.cpu_count() or 8
SENTINEL = b'OLD CONTENT\n' * 4

class ToolError(Exception):
    pass

# ---------------------------------------------------------------- scratch
_scratch = None
def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='c8s-verif-')
    return _scratch

_arena = None
def arena():
    """Where runs of the assembler read and write: in memory if there is room."""
    global _arena
    if _arena is None:
        try:
            s = os.statvfs('/dev/shm')
            if s.f_bavail * s.f_frsize > 2 << 30:
                _arena = tempfile.mkdtemp(prefix='c8s-verif-', dir='/dev/shm')
        except OSError:
            pass
        if _arena is None:
            _arena = tempfile.mkdtemp(prefix='arena', dir=scratch())
    return _arena

def cleanup():
    global _scratch, _arena
    for d in (_scratch, _arena):
        if d: shutil.rmtree(d, ignore_errors=True)
    _scratch = _arena = None

# ---------------------------------------------------------------- build
def cargo_env(target):
    e = dict(os.environ)
    e['HOME'] = '/root' if os.path.isdir('/root/.cargo') else e.get('HOME', '/root')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:' + e.get('PATH', '')
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true',
             CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', CARGO_PROFILE_DEV_DEBUG='0',
             CARGO_TARGET_DIR=target)
    e.pop('RUSTFLAGS', None)
    return e

def build(release=False):
    """The assembler, compiled from /repo's working tree into a scratch directory."""
    tgt = os.path.join(scratch(), 'target')
    cmd = ['cargo', 'build', '--offline'] + (['--release'] if release else [])
    # Cargo.lock is not tracked: build a copy of the sources so that nothing is written to /repo.
    r = subprocess.run(cmd, cwd=REPO, env=cargo_env(tgt), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    exe = os.path.join(tgt, 'release' if release else 'debug', 'c8s')
    if r.returncode != 0 or not os.path.exists(exe):
        raise ToolError('build failed:\n' + r.stdout[-2000:])
    return exe

# ---------------------------------------------------------------- running
RUN_ENV = {'PATH': '/usr/bin:/bin', 'LC_ALL': 'C', 'RUST_BACKTRACE': '0'}
TIMEOUT = 10           # seconds; an ordinary run takes milliseconds
MAX_HANGS = 6          # runs that may hang before the remaining ones are skipped
_BAD = re.compile(r'[^ -~]')

def spell(text):
    """Text as the specification spells it: control and non-ASCII characters as {n}."""
    return _BAD.sub(lambda m: '{%d}' % ord(m.group()), text)

_HEXLINE = re.compile(rb':((?:[0-9A-F]{2})+)\Z')
def parse_hex(data):
    """(well formed as text, records as byte lists)"""
    ok, recs = True, []
    if not data.endswith(b'\n'):
        ok = False
    for line in data.split(b'\n')[:-1] if data.endswith(b'\n') else data.split(b'\n'):
        m = _HEXLINE.match(line)
        if not m:
            ok = False
            continue
        recs.append(list(bytes.fromhex(m.group(1).decode())))
    return ok, recs

def execute(exe, args, cwd, env=None, argv0='c8s', stdin=subprocess.DEVNULL, preexec=None):
    p = subprocess.Popen([argv0] + args, executable=exe, cwd=cwd, env=env or RUN_ENV, stdin=stdin,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=preexec)
    try:
        out, err = p.communicate(timeout=TIMEOUT)
        rc = p.returncode
    except (subprocess.TimeoutExpired, MemoryError):
        p.kill()
        try: out, err = p.communicate()
        except MemoryError: out, err = b'', b''
        rc = 999
        out = out[:100000]
        hung()
    if rc < 0:
        rc = 256 - rc          # killed by a signal
    return rc, out, err

def hung(note=True):
    """Counts runs that hang, across worker processes."""
    path = os.path.join(scratch(), 'hangs')
    if note:
        with open(path, 'a') as f: f.write('x')
    try: return os.path.getsize(path)
    except OSError: return 0

def limits():
    """Workers and what they start: bounded memory and file size."""
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    resource.setrlimit(resource.RLIMIT_FSIZE, (256 << 20, 256 << 20))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def pool():
    return ProcessPoolExecutor(CORES, initializer=limits)

def to_bytes(src):
    return src if isinstance(src, bytes) else src.encode('utf-8')

_wd = (0, None)
def _workdir(base):
    """A directory of this process's own."""
    global _wd
    if _wd[0] != os.getpid():
        _wd = (os.getpid(), tempfile.mkdtemp(prefix='w', dir=base))
    return _wd[1]

class Named(str):
    """A text with the name its file is given, and the name of the program."""
    def __new__(cls, text, name, prog='c8s'):
        s = str.__new__(cls, text)
        s.name, s.prog = name, prog
        return s
    def __getnewargs__(self):
        return (str(self), self.name, self.prog)

def observe(exe, src, base, force=False):
    """One run on one input text; everything the specification talks about."""
    if hung(False) > MAX_HANGS and not force:
        return None
    d = _workdir(base)
    name, prog = getattr(src, 'name', 't.s'), getattr(src, 'prog', 'c8s')
    path = os.path.join(d, name)
    if isinstance(src, Named):
        os.makedirs(os.path.dirname(os.path.abspath(path)), exist_ok=True)
    with open(path, 'wb') as f:
        f.write(to_bytes(src))
    with open(d + '/t.hex', 'wb') as f:
        f.write(SENTINEL)
    rc, out, err = execute(exe, ['-o', 't.hex'] + (['--', name] if isinstance(src, Named) else [name]), d, argv0=prog)
    try:
        with open(d + '/t.hex', 'rb') as f:
            data = f.read()
    except OSError:
        data = b''
    o = record(src, rc, out, err, data, data == SENTINEL)
    o['name'], o['prog'] = spell(name), spell(prog)
    return o

_RANGE = re.compile(r'\$([0-9A-Fa-f]+)[^0-9A-Fa-f$]{1,6}\$([0-9A-Fa-f]+)')
def named_pairs(text):
    """The pairs of address ranges a report names."""
    rs = [[int(a, 16), int(b, 16)] for a, b in _RANGE.findall(text)]
    return [[rs[k], rs[k + 1]] for k in range(0, len(rs) - 1, 2)]

def record(src, rc, out, err, data, untouched):
    o = {'exit': rc, 'out': spell(out.decode('utf-8', 'replace')),
         'err': err.decode('utf-8', 'replace')[:400],
         'file': 'old' if untouched else 'new', 'hexok': False, 'recs': []}
    if not untouched:
        o['hexok'], o['recs'] = parse_hex(data)
    return o

def _chunk(job):
    exe, srcs, base = job
    return [observe(exe, s, base) for s in srcs]

def run_all(exe, srcs):
    """Runs the assembler on every input, in parallel; observations in order."""
    base = arena()
    n = max(1, min(200, len(srcs) // (CORES * 4) + 1))
    jobs = [(exe, srcs[k:k + n], base) for k in range(0, len(srcs), n)]
    res = []
    with pool() as ex:
        for r in ex.map(_chunk, jobs):
            res.extend(r)
    return res

def keep(srcs, obs):
    """Drops what was skipped because too many runs hung."""
    both = [(s, o) for s, o in zip(srcs, obs) if o is not None]
    return [s for s, _ in both], [o for _, o in both]

# ---------------------------------------------------------------- TLC
STATS = {'states': 0, 'transitions': 0, 'tlc_runs': 0}

def tlc(module, cfg=None, env=None, workers=CORES, heap='6g', dfs=True, extra=(), timeout=800, jvm=()):
    """Runs TLC; returns its output.  Raises ToolError unless TLC ran to completion."""
    md = tempfile.mkdtemp(prefix='tlc', dir=scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-Xss512m', '-Xmx' + heap, '-XX:+UseParallelGC', '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + md] + list(jvm)
    if dfs:
        cmd.append('-Dtlc2.tool.queue.IStateQueue=StateDeque')
    cmd += ['-cp', JARS, 'tlc2.TLC', '-workers', str(workers), '-noGenerateSpecTE', '-metadir', md,
            '-config', os.path.join(SPEC, cfg or module + '.cfg')] + list(extra) + [os.path.join(SPEC, module + '.tla')]
    try:
        r = subprocess.run(cmd, cwd=md, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError('TLC timed out on %s' % module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    out = r.stdout
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    if m:
        STATS['states'] += int(m[-1][1])
        STATS['transitions'] += int(m[-1][0])
    STATS['tlc_runs'] += 1
    if module == 'Trace':
        for x in re.findall(r'the maximum (\d+) and', out):
            STATS['maxout'] = max(STATS.get('maxout', 0), int(x))
    return r.returncode, out

def tlc_ok(module, **kw):
    rc, out = tlc(module, **kw)
    if rc != 0 or 'No error has been found' not in out:
        raise ToolError('TLC failed on %s (rc %d):\n%s' % (module, rc, out[-3000:]))
    return out

_ANS = re.compile(r'^"(AGREE|DIFFER) (\d+)(.*)"\s*$')

def forged(cases):
    """Recordings falsified in one detail: (number of the true one, falsified copy).
    TLC has to reject each whose original it accepts."""
    out = []
    def forge(want, change):
        for k, c in enumerate(cases):
            if want(c) and len(c['src']) < 2000:
                c = json.loads(json.dumps(c)); change(c); out.append((k + 1, c)); return
    def bit(c): c['recs'][0][4] ^= 1; c['recs'][0][-1] = -sum(c['recs'][0][:-1]) % 256
    def lost(c): c['recs'].pop(0)
    def column(c): c['out'] = re.sub(r'\d', lambda m: str((int(m.group()) + 1) % 10), c['out'], count=1)
    forge(lambda c: c['exit'] == 0 and len(c['recs']) > 1, bit)
    forge(lambda c: c['exit'] == 0 and len(c['recs']) > 2, lost)
    forge(lambda c: c['exit'] == 1 and re.search(r'\d', c['out']), column)
    forge(lambda c: c['exit'] == 1, lambda c: c.update(exit=0))
    forge(lambda c: c['exit'] == 0, lambda c: c.update(exit=1))
    forge(lambda c: c['exit'] == 1, lambda c: c.update(file='new'))
    return out

def validate(srcs, obs, batch=6000):
    """Compares recordings with the specification.  Returns a list of
    (index, set of differences, text of TLC's verdict)."""
    bad = []
    k = 0
    while k < len(srcs):
        size, n = 0, k
        while n < len(srcs) and n - k < batch and size < 4000000:
            size += len(srcs[n]) + 100
            n += 1
        cases = []
        for s, o in zip(srcs[k:n], obs[k:n]):
            cases.append({'src': list(to_bytes(s)), 'exit': o['exit'], 'out': o['out'],
                          'file': o['file'], 'hexok': o['hexok'], 'recs': o['recs'],
                          'name': o['name'], 'prog': o['prog'], 'err': spell(o['err']), 'pairs': named_pairs(o['out'])})
        canaries = forged(cases)
        path = os.path.join(scratch(), 'batch.json')
        with open(path, 'w') as f:
            json.dump({'cases': cases + [c for _, c in canaries]}, f)
        out = tlc_ok('Trace', env={'C8S_BATCH': path})
        seen, agreed = set(), set()
        for line in out.split('\n'):
            m = _ANS.match(line)
            if m:
                c = int(m.group(2))
                if m.group(1) == 'AGREE': agreed.add(c)
                if c > n - k: continue
                seen.add(c)
                if m.group(1) == 'DIFFER':
                    body = m.group(3).replace('\\"', '"')
                    diffs = set(re.findall(r'"(\w+)"', body[:body.index('}')]))
                    bad.append((k + c - 1, diffs, body.strip(', ')))
        if len(seen) != n - k:
            raise ToolError('TLC judged %d of %d cases' % (len(seen), n - k))
        for j, (c, _) in enumerate(canaries):
            if c in agreed and n - k + j + 1 in agreed:
                raise ToolError('TLC accepts a forged recording')
        STATS['forged'] = STATS.get('forged', 0) + len(canaries)
        k = n
    return sorted(bad, key=lambda b: b[0])

def explore(frags, maxlen, prefix='', suffix=''):
    """Every program of up to maxlen fragments, assembled by the specification
    with its promises checked: a list of (text, expected outcome)."""
    path = os.path.join(scratch(), 'plan.json')
    cp = lambda t: [ord(c) for c in t]
    with open(path, 'w') as f:
        json.dump({'frags': [cp(x) for x in frags], 'maxlen': maxlen, 'prefix': cp(prefix), 'suffix': cp(suffix)}, f)
    out = tlc_ok('Gen', env={'C8S_PLAN': path})
    res = []
    for line in out.split('\n'):
        if line.startswith('"CASE '):
            e = json.loads(json.loads(line)[5:])
            res.append((prefix + ''.join(frags[k - 1] for k in e['p']) + suffix, e))
    want = sum(len(frags) ** n for n in range(maxlen + 1))
    if len(res) != want:
        raise ToolError('TLC completed %d of %d programs' % (len(res), want))
    return res

def compare(expected, o):
    """Aspects in which an observation differs from the specification's outcome."""
    d = set()
    if o['exit'] != expected['x']: d.add('exit')
    if o['out'] != ''.join(l + '{10}' for l in expected['d']): d.add('diag')
    bag = lambda text: sorted(sorted(p) for p in named_pairs(text))
    if len(expected['d']) > 2 and bag(o['out']) != bag('\n'.join(expected['d'])): d.add('pairs')
    if o['exit'] == 0 == expected['x'] and (o['out'] or o['err']): d.add('noise')
    if o['file'] != ('new' if expected['x'] == 0 else 'old'): d.add('file')
    if expected['x'] == 0 and (o['recs'] != expected['r'] or not o['hexok']):
        d.add('recs')
        if not o['hexok'] or sorted(o['recs']) != sorted(expected['r']): d.add('recset')
        if not o['hexok'] or not loadable(o['recs']): d |= {'hex', 'image'}
        elif load(o['recs']) != load(expected['r']): d.add('image')
    return d

def loadable(recs):
    """Intel HEX as spec/Hex.tla defines it (WellFormed and Unambiguous)."""
    seen = set()
    for n, r in enumerate(recs):
        if len(r) < 5 or len(r) != r[0] + 5 or sum(r) % 256 or r[3] not in (0, 1): return False
        if (r[3] == 1) != (n == len(recs) - 1): return False
        a = 256 * r[1] + r[2]
        if r[3] == 0 and not (1 <= r[0] <= 16 and a + r[0] - 1 <= 4095): return False
        if r[3] == 1 and r[0]: return False
        for k in range(r[0]):
            if a + k in seen: return False
            seen.add(a + k)
    return bool(recs)

def load(recs):
    m = {}
    for r in recs:
        a = 256 * r[1] + r[2]
        for k, b in enumerate(r[4:-1]):
            m[a + k] = b
    return m
