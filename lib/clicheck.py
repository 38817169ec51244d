"""C16: the command line (spec/Cli.tla), replayed against the implementation."""
import json, os, re, shutil, subprocess
import core, iocheck, novel

# the first BASE words are combined exhaustively; all of them at random
WORDS = ['-o', 'in.s', 'out.hex', '-oout2', '--output', '--output=x.hex', '-h', '-v', '--help', '--version', '--', '-', '-x', '--bogus', '-hv', 'bad.s',
         '-ho', '-vo', '-ozz', '-o-', '--output=-', '--output=', '--help=1', '--version=x', '--o=y.hex', '--o', '--h', '--v', '-o=z.hex', '', 'b.s', '-O', '-H',
         '--Output', '--outpu', '--outputs', '-vv', '-hh', '-hx', '-xo', '-oh', '-vh', '--hel', '--output=in.s', '-oin.s', './in.s', 'sub/in.s', 'sub/o.hex', 'nosuch/o.hex',
         'sub', 'a.hex', '---', '-\u00e9', '-o\u00e9.hex', '\u00e9.s', '--=x', '--output=a=b', 'in.s ', '-h=1', '--help=', '-oa.hex', '-V', '-o ',
         '@in.s', '@args', '~', '~/in.s', '*.s', '$HOME', '%PATH%', '{in,b}.s', 'in.s:1', '+x', '=x', '?', 'help', 'version', 'in.s,b.s', 'in.s;b.s', '\\in.s', 'file:in.s', "'in.s'", 'in.s\n', '\tin.s', 'IN.S', '-1', '--1', '-o\n', '-\u2014', '\u2014help', '--output:x', '--output x', '-o x', '-h in.s', '--no-output', '-D', '-I', '-l', '-q', '-s', '-d', '-b', '-f', '-E', '--verbose', '--debug', '--quiet', '--format=bin', '--list', '--usage', '-?', '--?', '-hhh', '-osub']
assert not any(w.lstrip('-o').startswith('/') or '=/' in w or '..' in w for w in WORDS)     # nothing outside the scratch directory
BASE = 16
FILES = {'in.s': 'cls\njp $300\n.db "hi"\n', 'b.s': '.org $123\n.db 1, 2, 3\n', 'bad.s': 'cls\nfoo\n', 'sub/in.s': 'ret\n', '\u00e9.s': 'cls\n',
         'a.hex': '; old\n.db 9\n', '-': '.db "a file named -"\n', '-x': '.db 7\n', '--': 'ret\n', '@in.s': '.db 11\n', 'args': '-o other.hex in.s\n', '@args': '.db 12\n', '~': '.db 13\n', '*.s': '.db 14\n', '$HOME': '.db 15\n', '%PATH%': '.db 16\n', '{in,b}.s': '.db 17\n', 'in.s:1': '.db 18\n', '+x': '.db 19\n', '=x': '.db 20\n', '?': '.db 21\n', 'help': '.db 22\n', 'version': '.db 23\n', 'in.s,b.s': '.db 24\n',
         'in.s;b.s': '.db 25\n', '\\in.s': '.db 26\n', 'file:in.s': '.db 27\n', "'in.s'": '.db 28\n', 'in.s\n': '.db 29\n', 'in.s ': '.db 30\n', '\tin.s': '.db 31\n', 'IN.S': '.db 32\n', '-1': '.db 33\n', 'x': '.db 34\n', 'in': '.db 35\n', 'in.s.s': '.db 36\n'}
STDIN = b'.db "from standard input"\n'

def expectations(base, maxlen, vectors):
    path = os.path.join(core.scratch(), 'cli.json')
    with open(path, 'w') as f:
        json.dump({'words': [[ord(c) for c in w] for w in WORDS], 'base': base, 'maxlen': maxlen,
                   'vectors': [[WORDS.index(w) + 1 for w in v] for v in vectors]}, f)
    out = core.tlc_ok('Cli', env={'C8S_PLAN': path}, dfs=False)
    res = {}
    for line in out.split('\n'):
        if line.startswith('"ARGS '):
            e = json.loads(json.loads(line)[5:])
            res[tuple(e['v'])] = e
    want = sum(base ** n for n in range(maxlen + 1))
    if len(res) < want:
        raise core.ToolError('TLC settled %d of %d argument vectors' % (len(res), want))
    txt = lambda cs: ''.join(map(chr, cs))
    return [{'args': [WORDS[k - 1] for k in v], 'mode': e['m'], 'msg': e['e'], 'in': txt(e['i']), 'out': txt(e['o'])} for v, e in sorted(res.items())]

def listing(d):
    r = {}
    for root, ds, fs in os.walk(d):
        for n in fs:
            p = os.path.join(root, n)
            if os.path.relpath(p, d) != '.log':
                with open(p, 'rb') as f: r[os.path.relpath(p, d)] = f.read()
        for n in ds: r[os.path.relpath(os.path.join(root, n), d) + '/'] = b''
    return r

def fresh(d):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p): shutil.rmtree(p)
        else: os.unlink(p)
    os.mkdir(d + '/sub')
    for n, t in FILES.items():
        with open(os.path.join(d, n), 'w', encoding='utf-8') as f: f.write(t)

STDIN_FILE = None
def norm(p):
    return os.path.normpath(p) if p else p

_clean = False
def one(job):
    global _clean
    exe, so, e, images, version, base = job
    d = core._workdir(base)
    if not _clean: fresh(d)
    _clean = False
    before = listing(d)
    log = d + '/.log'
    env = dict(core.RUN_ENV, LC_ALL='C.UTF-8')
    if so: env.update(LD_PRELOAD=so, C8S_LOG=log, C8S_IN=e['in'] or 'in.s', C8S_PLAN='')
    with open(STDIN_FILE, 'rb') as f: rc, out, err = core.execute(exe, e['args'], d, env=env, stdin=f)
    after = listing(d)
    _clean = after == before
    calls = [l for l in open(log).read().split('\n') if l[:2] in ('O ', 'C ')] if so and os.path.exists(log) else []
    if os.path.exists(log): os.unlink(log)
    text = out.decode('utf-8', 'replace')
    bad = []
    m = e['mode']
    same = after == before
    if m in ('help', 'version', 'usage', 'error'):
        if not same: bad.append('files changed')
        if calls: bad.append('opened a file')
        if rc != (0 if m in ('help', 'version') else 1): bad.append('exit %d' % rc)
        usage = text.startswith('USAGE: c8s [options] <input>') and all(w in text for w in ('-o, --output', '-h, --help', '-v, --version'))
        if m in ('help', 'usage') and not usage: bad.append('no usage text')
        if m == 'version' and not text.strip() == 'c8s version ' + version: bad.append('no version')
        if m == 'error' and (not text.strip() or usage or text.startswith('c8s version')): bad.append('no message')
    else:
        src, dst = e['in'], norm(e['out'])
        img = images.get(norm(src)) if src else None     # bytes of output, b'' if rejected, None if there is no such file
        if src != norm(src) and src not in ('./in.s',): img = None
        want = dict(before)
        if not img:
            code = 1
        elif e['out'] == '-':
            code = 0
            if out != img: bad.append('standard output')
        elif e['out'] == '' or dst + '/' in before or (os.path.dirname(dst) and os.path.dirname(dst) + '/' not in before):
            code = 1
        else:
            code = 0
            want[dst] = img
        if code == 1 and not text.strip(): bad.append('no message')
        if rc != code: bad.append('exit %d' % rc)
        if after != want: bad.append('wrong files: %s' % sorted(k for k in set(after) | set(want) if after.get(k) != want.get(k))[:3])
    return bad, rc, text[:300], err[:200].decode('utf-8', 'replace')

def c16(res):
    global STDIN_FILE
    STDIN_FILE = os.path.join(core.scratch(), 'stdin')
    exe = core.build()
    so = iocheck.build_shim()
    r = res.rng
    images = {}
    names = sorted(FILES)
    for text, e in core.explore([FILES[n] for n in names], 1):
        for n in names:
            if FILES[n] == text: images[n] = iocheck.hextext(e['r']) if e['x'] == 0 else b''
    for s in novel.fresh()[1][:8]:
        for w in (s, '-' + s, '--' + s, '--' + s + '=1', '-o' + s, '--output=' + s):
            # names that would lead out of the scratch directory are left alone
            if w and '/' not in w and '\0' not in w and w not in ('.', '..') and w not in WORDS and len(w) < 100: WORDS.append(w)
    vectors = [[w] for w in WORDS] + [[a, b] for a in WORDS for b in WORDS]
    vectors += [[a, b, 'in.s'] for a in WORDS for b in WORDS if r.random() < .3]
    for _ in range(60000 if res.thorough else 2500):
        v = [r.choice(WORDS) for _ in range(r.randint(3, 6))]
        if r.random() < .6: v[r.randrange(len(v))] = 'in.s'
        vectors.append(v)
    for _ in range(500):                                # valid ones
        v = r.choice([['-o', 'out.hex'], ['--output', 'sub/o.hex'], ['--output=x.hex'], ['-oout2'], [], ['-o-'], ['--output', '-']])
        v = v + [r.choice(['in.s', 'b.s', 'sub/in.s', './in.s', 'a.hex'])] if r.random() < .5 else [r.choice(['in.s', 'b.s', 'bad.s'])] + v
        if r.random() < .3: v = v[:-1] + ['--', v[-1]] if not v[-1].startswith('-') else v + ['--']
        vectors.append(v)
    with open(STDIN_FILE, 'wb') as f: f.write(STDIN)
    exp = expectations(BASE, 4 if res.thorough else 3, vectors)
    with open(os.path.join(core.REPO, 'Cargo.toml')) as f:
        version = re.search(r'^version\s*=\s*"([^"]+)"', f.read(), re.M).group(1)
    base = core.arena()
    with core.pool() as ex:
        obs = list(ex.map(one, [(exe, so, e, images, version, base) for e in exp], chunksize=64))
    modes = {}
    for e, (bad, rc, out, err) in zip(exp, obs):
        modes[e['mode']] = modes.get(e['mode'], 0) + 1
        if bad and len(res.violations) < 10 and one((exe, so, e, images, version, base))[0]:
            res.add('%s: %s' % (e['mode'], ', '.join(bad)), {'kind': 'cli', 'args': e['args'], 'expected': e, 'observed': {'exit': rc, 'out': out, 'err': err}})
    res.validated += len(exp)
    res.extra['argument_vectors'] = modes
    for e in exp[5000:5003]: res.sample({'args': e['args'], 'mode': e['mode']})
