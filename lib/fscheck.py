"""C20: a run changes nothing but its output, whatever ran before it, runs
beside it or was killed.  Histories of runs in a scratch tree, schedules of
concurrent runs and crash points are recorded and judged by spec/FsTrace.tla."""
import hashlib, itertools, json, os, random, re, select, shutil, signal, subprocess, time, tty
import core, gen, iocheck, novel, search

DECOYS = ['a.hex.tmp', 'out.hex.tmp', 'out.tmp', 'out.hex~', 'out.bak', 'out.hex.bak', '.out.hex.swp', '.out.hex.tmp', 'c8s.tmp', 'tmp', 'c8s.log', 'a.lst', 'in1.lst', 'in1.sym', 'in1.map', 'in1.o', 'in1.hex', 'in1.s~', 'in1.s.bak',
          'out.lst', 'out.sym', 'out.map', 'out', 'a', 'a.out', 'a.bin', 'out.bin', '.c8s', '.c8s.lock', 'c8s.lock', 'lock', 'out.hex.lock', 'core', 'debug.log', 'x.old', 'out.hex.old', 'out.hex.1', 'a.hex.1', 'sub/in1.s', 'sub/out.hex.tmp', 'real.hex']
LONG = 'n' * 200 + '.hex'
# spelling on the command line -> entries it names (none: it cannot be opened); {d} is the scratch directory
OUTS = {'out.hex': ['run/out.hex'], './out.hex': ['run/out.hex'], 'sub/../out.hex': ['run/out.hex'], '{d}/run/out.hex': ['run/out.hex'], 'new.hex': ['run/new.hex'], 'hard.hex': ['run/hard.hex', 'other/hard2.hex'],
        '../other/hard2.hex': ['run/hard.hex', 'other/hard2.hex'], 'link.hex': ['run/sub/real.hex'], 'dangle.hex': ['run/sub/made.hex'], 'sub/o.bin': ['run/sub/o.bin'], '../other/o.hex': ['other/o.hex'], 'sub': [], 'nosuch/o.hex': [],
        'in4.s/x': [], '': [], 'sub/': [], 'new/': [], 'an image.ihx': ['run/an image.ihx'], 'x': ['run/x'], '.hidden': ['run/.hidden'], 'in3.s': ['run/in3.s'], LONG: ['run/' + LONG], 'z' * 300: [], '{d}/tmp/t.hex': ['tmp/t.hex'], 'a.hex': ['run/a.hex'],
        'out.hex.': ['run/out.hex.'], 'o.tar.gz': ['run/o.tar.gz'], 'linkdir/q.hex': ['other/q.hex'], '..': [], '.': [], 'loop': []}
INS = {'in1.s': 'run/in1.s', 'in2.s': 'run/in2.s', 'in3.s': 'run/in3.s', 'in4.s': 'run/in4.s', './in1.s': 'run/in1.s', '{d}/run/in2.s': 'run/in2.s', 'sub/in.s': 'run/sub/in.s', 'inlink.s': 'run/in1.s', '../other/in5.s': 'other/in5.s',
       'missing.s': '', 'sub': 'run/sub', 'nosuch/in.s': '', 'in1.s/x': '', 'noext': 'run/noext'}
SHOW = [['-h'], ['-v'], ['--help', '-o', 'out.hex', 'in1.s'], ['in1.s', '-v'], ['-vo', 'new.hex', 'in1.s'], ['-h', '-v'], ['--version']]
REFUSE = [[], ['in1.s', 'in2.s'], ['-x', 'in1.s'], ['-o', 'out.hex'], ['in1.s', '-o'], ['-o', 'out.hex', '-o', 'new.hex', 'in1.s'], ['--output=out.hex', 'in1.s', 'in2.s'], ['--bogus'], ['-h', '-h'], ['-o', 'new.hex', '--', 'in1.s', '-o'], ['-o', 'out.hex', '--zzz', 'in1.s']]

def token(data):
    return hashlib.sha1(data).hexdigest()[:14]

def populate(d, texts, decoys):
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        else: os.unlink(p)
    for n in ('run/sub', 'other', 'home/.config', 'tmp'): os.makedirs(d + '/' + n)
    put = lambda n, b: open(d + '/' + n, 'wb').write(b)
    for n, t in zip(['run/in1.s', 'run/in2.s', 'run/in3.s', 'run/in4.s', 'run/sub/in.s', 'other/in5.s', 'run/noext'], texts): put(n, core.to_bytes(t))
    os.symlink('in1.s', d + '/run/inlink.s')
    put('run/hard.hex', b'hard\n'); os.link(d + '/run/hard.hex', d + '/other/hard2.hex')
    put('run/sub/real.hex', b'real\n'); os.symlink('sub/real.hex', d + '/run/link.hex')
    os.symlink('sub/made.hex', d + '/run/dangle.hex'); os.symlink('../other', d + '/run/linkdir'); os.symlink('loop', d + '/run/loop')
    put('home/.profile', b'x\n'); put('other/secret', b'secret\n' * 100)
    os.chmod(d + '/other/secret', 0o600)
    for n in decoys:
        e = os.path.normpath('run/' + n)
        if os.path.lexists(d + '/' + e): continue
        try:
            os.makedirs(os.path.dirname(d + '/' + e), exist_ok=True)
            put(e, b'decoy ' + n.encode() + b'\n')
        except OSError: pass

def asked(d):
    """Paths in the scratch tree, as seen from run/, that a run looked at and no command names."""
    try:
        with open(d + '/.ask', 'rb') as f: b = f.read()
    except OSError: return set()
    r = set()
    for p in b.split(b'\0'):
        if not p: continue
        p = os.path.normpath(p.decode('utf-8', 'replace'))
        if p.startswith(d + '/'): r.add(os.path.relpath(p, d + '/run'))
    named = {os.path.normpath(n.replace('{d}', '..')) for n in list(OUTS) + list(INS)}
    named |= {os.path.relpath(e, 'run') for es in OUTS.values() for e in es}
    return {n for n in r - named if len(n) < 200}

def tree(d, torn={}):
    r = {}
    for root, ds, fs in os.walk(d):
        for n in ds + fs:
            p = os.path.join(root, n)
            e = os.path.relpath(p, d)
            if e in ('.log', '.ask'): continue
            if os.path.islink(p): r[e] = 'link ' + os.readlink(p).replace(d, '{d}')
            elif os.path.isdir(p): r[e] = 'dir'
            elif os.path.isfile(p):
                with open(p, 'rb') as f: b = f.read()
                r[e] = 'torn' if torn.get(e) == b else token(b)
            else: r[e] = 'other'
            if e in KEEP: r['mode of ' + e] = '%o' % os.stat(p).st_mode
    return r
# no command names these as output, so that their modes stay too
KEEP = {'run/in1.s', 'run/in2.s', 'run/sub/in.s', 'other/in5.s', 'other/secret', 'run/noext', 'run', 'home', 'tmp', 'run/sub', 'other'}

def environment(d, so, **kw):
    return dict(core.RUN_ENV, HOME=d + '/home', TMPDIR=d + '/tmp', XDG_CACHE_HOME=d + '/home/.cache', XDG_CONFIG_HOME=d + '/home/.config', LD_PRELOAD=so, GATE_LOG=d + '/.log', GATE_ASK=d + '/.ask', **kw)

def outside(d):
    """Paths beyond the scratch tree that a run changed."""
    try:
        with open(d + '/.log', 'rb') as f: b = f.read()
        os.unlink(d + '/.log')
    except OSError: return {}
    r = {}
    for p in b.split(b'\0'):
        p = os.path.normpath(p.decode('utf-8', 'replace')) if p else ''
        real = os.path.realpath(p)
        if p and not real.startswith((os.path.realpath(d) + '/', '/dev/', '/proc/')) and os.path.lexists(p): r['outside ' + p] = 'touched'
    return r

def terminal(exe, args, cwd, env):
    """A run whose standard streams are a terminal: exit status and all it shows."""
    try: m, t = os.openpty()
    except OSError: return core.execute(exe, args, cwd, env=env)
    tty.setraw(t)
    p = subprocess.Popen(['c8s'] + args, executable=exe, cwd=cwd, env=dict(env, TERM='xterm-256color', COLUMNS='80'), stdin=t, stdout=t, stderr=t)
    os.close(t)
    out, end = b'', time.time() + core.TIMEOUT
    while True:
        ready, _, _ = select.select([m], [], [], max(0, end - time.time()))
        if not ready: p.kill(); break
        try: b = os.read(m, 65536)
        except OSError: break
        if not b: break
        out += b
    os.close(m)
    rc = p.wait()
    if time.time() >= end: rc = 999
    return (256 - rc if rc < 0 else rc), out, b''

def said(out, err, images, rc):
    if rc == 0 and err: return 'errors'
    if not out: return 'nothing'
    t = token(out)
    return t if t in images else 'message'

def command(r, d, texts):
    """An argument vector and what it names."""
    k = r.random()
    if k < .06: return r.choice(SHOW), {'mode': 'show', 'in': '', 'stdout': False, 'changes': [], 'killed': False}
    if k < .16: return r.choice(REFUSE), {'mode': 'refuse', 'in': '', 'stdout': False, 'changes': [], 'killed': False}
    i = r.choice(sorted(INS))
    o = r.choice(sorted(OUTS) + ['-', '-', None, None])
    if o is None: oargs, ch, std = [], OUTS['a.hex'], False
    elif o == '-': oargs, ch, std = ['-o', '-'], [], True
    else: oargs, ch, std = r.choice([['-o', o], ['--output', o], ['--output=' + o], ['-o' + o] if o else ['-o', o]]), OUTS[o], False
    args = oargs + [i] if r.random() < .7 else [i] + oargs
    return [a.format(d=d) if '{d}' in a else a for a in args], {'mode': 'assemble', 'in': INS[i], 'stdout': std, 'changes': ch, 'killed': False}

def history(job):
    """One run after another; the tree after each."""
    exe, so, texts, images, seed, n, base = job[:7]
    r = random.Random(seed)
    d = core._workdir(base)
    decoys = [x for x in DECOYS if r.random() < r.choice([0, .3, .8])]
    if len(job) > 7: decoys = r.sample(job[7], r.randint(1, len(job[7]))) + decoys
    if r.random() < .5: decoys.append('out.hex')
    if r.random() < .3: decoys.append('a.hex')
    populate(d, texts, decoys)
    if r.random() < .3: os.chmod(d + '/run/in1.s', 0o444)
    before = tree(d)
    case = {'image': images, 'together': False, 'before': before, 'cmds': [], 'seen': []}
    vectors = []
    for _ in range(n):
        args, cmd = command(r, d, texts)
        rc, out, err = (terminal if r.random() < .25 else core.execute)(exe, args, d + '/run', env=environment(d, so))
        after = tree(d); after.update(outside(d))
        case['cmds'].append(cmd); vectors.append(args)
        case['seen'].append({'exit': rc, 'said': said(out, err, set(images.values()), rc), 'tree': after})
        if rc == 999: break
    return case, vectors, asked(d)

class Controlled:
    """A run that stops before every call on files until it is let go."""
    def __init__(self, exe, so, args, d):
        self.o, wo = os.pipe(); ri, self.i = os.pipe()
        self.p = subprocess.Popen(['c8s'] + args, executable=exe, cwd=d + '/run', env=environment(d, so, GATE_OUT=str(wo), GATE_IN=str(ri)), stdin=subprocess.DEVNULL,
                                  stdout=subprocess.PIPE, stderr=subprocess.PIPE, pass_fds=(wo, ri))
        os.close(wo); os.close(ri)
        self.live = True
    def arrive(self, limit=3):
        """Waits until the run stops; False if it has ended or does not stop."""
        if not self.live: return False
        ready, _, _ = select.select([self.o], [], [], limit)
        if ready and os.read(self.o, 1): return True
        self.live = False
        return False
    def go(self):
        try: os.write(self.i, b'g')
        except OSError: pass
    def end(self, kill=False):
        if kill: self.p.kill()
        try: os.close(self.i)            # a run still waiting goes on unhindered
        except OSError: pass
        try: out, err = self.p.communicate(timeout=core.TIMEOUT); rc = self.p.returncode
        except subprocess.TimeoutExpired: self.p.kill(); out, err = self.p.communicate(); rc = 999
        os.close(self.o)
        return (256 - rc if rc < 0 else rc), out, err

def together(job):
    """Runs at the same time under a schedule: a list of run numbers."""
    exe, so, texts, images, cmds, schedule, base = job
    d = core._workdir(base)
    populate(d, texts, [])
    case = {'image': images, 'together': True, 'before': tree(d), 'cmds': [c for _, c in cmds], 'seen': []}
    runs = [Controlled(exe, so, a, d) for a, _ in cmds]
    at = [x.arrive() for x in runs]
    steps = [0] * len(runs)
    for k in schedule:
        if not at[k]: continue
        runs[k].go(); steps[k] += 1; at[k] = runs[k].arrive()
    res = []
    for k, x in enumerate(runs):
        while at[k]: x.go(); steps[k] += 1; at[k] = x.arrive()
        res.append(x.end())
    after = tree(d); after.update(outside(d))
    for rc, out, err in res: case['seen'].append({'exit': rc, 'said': said(out, err, set(images.values()), rc), 'tree': after})
    return case, [a for a, _ in cmds] + [schedule], steps

def killed(job):
    """A run killed at its n-th call, and ordinary runs after it."""
    exe, so, texts, images, cmds, n, outputs, base = job
    d = core._workdir(base)
    populate(d, texts, ['out.hex'] if n % 2 else [])
    case = {'image': images, 'together': False, 'before': tree(d), 'cmds': [dict(c, killed=k == 0) for k, (_, c) in enumerate(cmds)], 'seen': []}
    x = Controlled(exe, so, cmds[0][0], d)
    at = x.arrive()
    for _ in range(n):
        if at: x.go(); at = x.arrive()
    alive = at
    x.end(kill=True)
    if not alive: return None, None
    torn = {}
    for e in cmds[0][1]['changes']:
        try:
            with open(d + '/' + e, 'rb') as f: b = f.read()
        except OSError: continue
        full = outputs.get(case['before'].get(cmds[0][1]['in']), b'')
        if token(b) != case['before'].get(e) and len(b) < len(full) and full.startswith(b): torn[e] = b
    seen = lambda: dict(tree(d, torn), **outside(d))
    case['seen'].append({'exit': 99, 'said': 'anything', 'tree': seen()})
    for args, c in cmds[1:]:
        rc, out, err = core.execute(exe, args, d + '/run', env=environment(d, so))
        if rc == 0:
            for e in c['changes']: torn.pop(e, None)
        case['seen'].append({'exit': rc, 'said': said(out, err, set(images.values()), rc), 'tree': seen()})
    return case, [a for a, _ in cmds] + ['killed at call %d' % n]

_ANS = re.compile(r'^"(AGREE|DIFFER) (\d+)(.*)"\s*$')
def judge(cases):
    """Indices of the recordings that are no behaviours of Fs, with what is wrong."""
    bad = []
    for k in range(0, len(cases), 1500):
        part = cases[k:k + 1500]
        path = os.path.join(core.scratch(), 'fs.json')
        with open(path, 'w') as f: json.dump({'cases': part}, f)
        out = core.tlc_ok('FsTrace', env={'C8S_BATCH': path})
        ok, no = set(), {}
        for line in out.split('\n'):
            m = _ANS.match(line)
            if m and m.group(1) == 'AGREE': ok.add(int(m.group(2)))
            elif m: no.setdefault(int(m.group(2)), m.group(3).replace('\\"', '"').strip())
        for c in range(1, len(part) + 1):
            if c in ok: continue
            if c not in no: raise core.ToolError('TLC did not judge recording %d' % c)
            bad.append((k + c - 1, no[c]))
    return bad

def texts_of(res):
    r = res.rng
    good = ['', '; nothing\n', 'cls\n', '.db "text", 1, 2\n', 'x: .equ 5\njp x\n', '.org $300\na: jp a\n', '.org $f00\n' + '.db 1, 2, 3\n' * 60, '.db ' + ', '.join(['7'] * 3000) + '\n', ''.join('.org %d\n.db %d\n' % (k * 9, k % 256) for k in range(300)),
            ''.join('l%d: jp l%d\n' % (k, (k * 7) % 90) for k in range(90)), '\n' * 50 + 'ret\n', '.db "\u00e9\u4e2d"\r\n', 'drw v1, v2, 3\n' * 500, '.org 5\n', '; ' + 'c' * 70000 + '\ncls\n', '.org 4094\ncls\n', '.org $200\n' + 'ld v1, 2\n' * 8]
    bad = ['cls', 'foo\n', 'jp\n', 'jp x\n', 'a:\na:\n', '.db 256\n', '.org 4095\ncls\n', '.db 1, 2\n.org 1\n.db 3\n', '"abc\n', '@\n', 'x: .equ\n', '.equ 5\n', b'\xff\xfe\n', b'cls\n\x80', 'ld v1, $fff\n', '\0', 'cls\n' * 3000, '4096\n', 'cls cls\n.db\n', ':00000001FF\n',
           ''.join('.org %d\n.db 1, 2, 3\n' % k for k in range(40))]
    more = [gen.program(r, bad=.3) for _ in range(60 if res.thorough else 30)]
    new = novel.programs(r)
    return good + bad + more + r.sample(new, min(len(new), 25))

def silent(res, exe, builder):
    """A successful run prints nothing."""
    import checks
    noise = {'noise'}
    checks.novelties(res, exe, noise)
    checks.remembered(res, exe, noise)
    srcs = gen.c20(res.rng, res.thorough)
    checks.conform(res, exe, srcs, noise)
    checks.searched(res, exe, builder, srcs, noise)

def c20(res):
    builder = search.Builder()
    exe = core.build()
    silent(res, exe, builder)
    so = os.path.join(core.scratch(), 'gate.so')
    p = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, os.path.join(core.VERIF, 'shim', 'gate.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode: raise core.ToolError('gate: ' + p.stdout)
    core.tlc_ok('FsMC', dfs=False)
    r = res.rng
    for s in novel.fresh()[1][:12]:
        for n in (s, 'x' + s, 'out.' + s.lstrip('.')):
            if n and '/' not in n and '\0' not in n and n.strip('.') and '{' not in n and not n.startswith('-') and len(n) < 60 and n not in INS and n not in DECOYS: OUTS.setdefault(n, ['run/' + n])
    # what each text comes to: a run by itself, checked against the specification of the text
    srcs = texts_of(res)
    srcs, obs = core.keep(srcs, core.run_all(exe, srcs))
    odd = {k for k, _, _ in core.validate(srcs, obs)}
    images, outputs, good, bad = {}, {}, [], []
    for k, (s, o) in enumerate(zip(srcs, obs)):
        if k in odd: continue
        t = token(core.to_bytes(s))
        images[t] = token(iocheck.hextext(o['recs'])) if o['exit'] == 0 else 'reject'
        if o['exit'] == 0: outputs[t] = iocheck.hextext(o['recs'])
        (good if o['exit'] == 0 else bad).append(s)
    if len(good) < 4 or len(bad) < 4: raise core.ToolError('too few texts behave as specified')
    def deal(): return [r.choice(good if r.random() < .7 else bad) for _ in range(7)]
    def names(ts): return {token(core.to_bytes(t)): images[token(core.to_bytes(t))] for t in ts}
    base = core.arena()
    jobs = []
    for k in range(1500 if res.thorough else 220):
        ts = deal()
        jobs.append((exe, so, ts, names(ts), '%s-%d' % (res.seed, k), 24, base))
    def report(kind, how, jobs):
        if res.violations: return 0
        with core.pool() as ex: all = list(ex.map(how, jobs, chunksize=4))
        recorded = [(r[0], r[1], j) for r, j in zip(all, jobs) if r[0]]
        if how is history:
            for r in all: learned.update(r[2])
        cases = [c for c, _, _ in recorded]
        for k, what in judge(cases):
            c, v, job = recorded[k]
            if res.enough(): break
            again = [x for x in (how(job)[0] for _ in range(3)) if x]
            if not judge(again): continue                    # it has to recur
            m = re.search(r'run (\d+)', what)
            n = int(m.group(1)) - 1 if m else 0
            if any(s['exit'] == 999 for s in c['seen']): continue
            res.add('%s: %s' % (kind, what[:300]), {'kind': kind, 'args': v if kind != 'history' else v[:n + 1], 'input': json.dumps(v if kind != 'history' else v[max(0, n - 3):n + 1])[:400], 'texts': c['image'], 'before': c['before'], 'seen': c['seen'][max(0, n - 1):n + 1], 'expected': what})
        res.validated += sum(len(c['seen']) for c in cases)
        if recorded: res.sample({'kind': kind, 'runs': json.dumps(recorded[-1][1][-3:])[:300]})
        return len(cases)
    learned = set()
    report('history', history, jobs)
    if learned and not res.violations:
        # files the runs looked for: the same histories with some of them there
        there = sorted(learned)
        if len(there) > 400: there = r.sample(there, 400)
        report('history', history, [j + (there,) for j in jobs])
    res.extra['looked_for'] = sorted(learned)[:20]
    # runs at the same time: every schedule of two short ones, many of two and three longer ones
    asm = lambda i, o: (['-o', o, i] if o else [i], {'mode': 'assemble', 'in': INS[i], 'stdout': o == '-', 'changes': [] if o == '-' else OUTS[o or 'a.hex'], 'killed': False})
    outs = ['out.hex', 'new.hex', 'hard.hex', 'link.hex', 'sub/o.bin', '../other/o.hex', '', '-', 'an image.ihx', 'sub', 'nosuch/o.hex', 'x']
    ins = ['in1.s', 'in2.s', 'sub/in.s', '../other/in5.s', 'noext', 'missing.s']
    def pick(n):
        while True:
            cs = [asm(r.choice(ins), r.choice(outs)) for _ in range(n)]
            ch = [e for _, c in cs for e in c['changes']]
            if len(ch) == len(set(ch)): return cs
    jobs = []
    pairs = [[asm('in1.s', 'out.hex'), asm('in2.s', 'new.hex')], [asm('in1.s', 'out.hex'), asm('in1.s', 'sub/o.bin')], [asm('in1.s', ''), asm('in2.s', '-')]] + [pick(2) for _ in range(40 if res.thorough else 8)]
    for n, cs in enumerate(pairs):
        ts = [r.choice(good) for _ in range(3)] + deal()[:4] if n < 3 else deal()
        _, _, steps = together((exe, so, ts, names(ts), cs, [], base))
        total = sum(steps)
        if total == 0: continue
        every = list(itertools.combinations(range(total), steps[0])) if total <= 14 else []
        if not every or len(every) > 1000: every = [tuple(sorted(r.sample(range(total), steps[0]))) for _ in range(400)]
        if n > 2 and not res.thorough: every = r.sample(every, min(len(every), 120))
        for first in every:
            jobs.append((exe, so, ts, names(ts), cs, [0 if k in set(first) else 1 for k in range(total)], base))
    for _ in range(3000 if res.thorough else 300):
        ts = deal()
        jobs.append((exe, so, ts, names(ts), pick(r.randint(3, 5)), [r.randrange(5) % 3 for _ in range(40)], base))
    jobs = [j[:5] + ([k % len(j[4]) for k in j[5]],) + j[6:] for j in jobs]
    res.extra['schedules'] = report('schedule', together, jobs)
    # crash points: killed before any of its calls, and two runs after that
    jobs = []
    for _ in range(150 if res.thorough else 25):
        ts = deal()
        o = r.choice([x for x in outs if x != '-'])
        cs = [asm(r.choice(ins[:5]), o), asm(r.choice(ins), r.choice([o, o, r.choice(outs)])), asm(r.choice(ins), r.choice(outs))]
        for n in range(10): jobs.append((exe, so, ts, names(ts), cs, n, outputs, base))
    res.extra['crash_points'] = report('crash', killed, jobs)
