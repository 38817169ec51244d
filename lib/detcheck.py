"""C17: the output depends on nothing but the text.  The specification's
machine is a function of the text (TLC: no state has two successors); the
implementation is run on each text many times over under changed circumstances
and every run has to produce what the specification says."""
import os, re, shutil, socket, subprocess, threading, time, tty
import core, gen, iocheck, novel

ENVS = [{}, {'PATH': '/usr/bin', 'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8', 'HOME': '/nonexistent'},
        {'LC_ALL': 'C', 'TZ': 'Pacific/Kiritimati', 'TERM': 'dumb', 'COLUMNS': '20', 'RUST_BACKTRACE': '1', 'USER': 'nobody'},
        {'LC_ALL': 'de_DE.ISO-8859-1', 'TMPDIR': '/nonexistent', 'PWD': '/', 'DEBUG': '1', 'RUST_LOG': 'trace', 'C8S': '1', 'VERBOSE': '1', 'SOURCE_DATE_EPOCH': '0', 'NO_COLOR': '1'},
        {'LC_NUMERIC': 'fr_FR.UTF-8', 'LANG': 'ja_JP.SJIS', 'RUST_MIN_STACK': '9000000', 'MALLOC_PERTURB_': '165'}]

# how the input is named, relative to the directory the run starts in
INPUTS = ['t.s', './t.s', 'ABS', 'sub/../t.s', 'link.s', 'name with spaces.s', 'n\u00e4me\u4e2d.S', 'noext', 'x.asm', 'a.hex', 'sub/deep/er/t.s', '/dev/stdin', 'T.S', '-', '.hidden', 'l' * 120 + '.s', 'UP',
          'fifo', 'x.c8', 'x.ch8', 'x.txt', 'x.inc', 'x.hex', 'x.bin', 'x.ASM', 'debug.s', 'test.s', './/t.s', 'sub//deep/../../t.s', 'a:b.s', '50%.s', 'd' * 60 + '/' + 'e' * 60 + '/' + 'f' * 60 + '/' + 'g' * 60 + '/t.s', 'old mtime', 'readonly', 'new\nline.s', "it's.s", 'x.8o', 'a.s.s', '~t.s', 'stdin.s', 'con', 'CWD deep', 'CWD long', 'CWD odd']
WHERE = {'CWD deep': '/a/b/c/d/e/f/g/h/i/j/k/l/m/n/o/p/q/r/s/t/u/v/w/x/y/z', 'CWD long': '/' + '/'.join(['q' * 200] * 6), 'CWD odd': "/src test/build/\u00e9 \u4e2d/it's"}
OUTS = ['absent', 'old', 'long', 'same', 'stdout-pipe', 'stdout-file', 'stdout-append', 'symlink', 'abs', 'devstdout', 'deep', 'noext', 'default', 'newer', 'space', 'shorter', 'one', 'fifo', 'pty', 'socket', 'devfd', 'x.bin', 'x.ch8', 'x.c8', 'x.rom', 'x.HEX', 'x.ihx', 'x.txt', 'devnull', 'long name', 'hidden', 'hardlink', 'sparse']

NAMES = ['/opt/some where/c8s', 'c8s', './c8s', 'c8as', 'C8S', 'c8', '8', 'c8s.exe', 'C8S.EXE', 'as', 'x', '', '-c8s', 'c8s-debug', 'c8s-0.1', 'c8sd', 'test', 'sh', '/', 'c8s ', 'a/b/', 'schip', 'c8s_big', 'dis', 'c8dis', 'link', '\u00e9', 'busybox', '/usr/local/bin/chip8-as', 'l' * 300, 'debug', '1', 'c8s2', 'xc8s', 'c8sx', '%s', '{}']

def variation(job):
    exe, src, want, k, seed, base = job
    import random
    r = random.Random('%s-%d' % (seed, k))
    d = core._workdir(base)
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        else: os.unlink(p)
    os.makedirs(d + '/sub/deep/er')
    inp = INPUTS[k % len(INPUTS)] if k < len(INPUTS) else r.choice(INPUTS)
    out = OUTS[k % len(OUTS)] if k < len(OUTS) else r.choice(OUTS)
    cwd = d
    if k >= len(INPUTS) and r.random() < .5 and inp in ('t.s', 'ABS', 'link.s'): pass
    data = core.to_bytes(src)
    if '/' in inp and not inp.startswith('/') and os.path.dirname(inp) not in ('.', ''):
        os.makedirs(os.path.join(d, os.path.dirname(inp)), exist_ok=True)
    path = {'CWD deep': 't.s', 'CWD long': 't.s', 'CWD odd': 't.s', 'old mtime': 't.s', 'readonly': 't.s', 'ABS': d + '/t.s', 'sub/../t.s': 't.s', 'link.s': 't.s', 'UP': 't.s', '/dev/stdin': 't.s'}.get(inp, inp)
    threads = []
    if inp == 'fifo':
        os.mkfifo(d + '/fifo')
        def feed():
            try:
                with open(d + '/fifo', 'wb') as f:
                    for c in range(0, len(data), 997): f.write(data[c:c + 997]); f.flush()
            except OSError: pass
        threads.append(threading.Thread(target=feed, daemon=True))
    else:
        with open(os.path.join(d, path), 'wb') as f: f.write(data)
    if inp == 'old mtime': os.utime(d + '/t.s', (1, 1))
    if inp == 'readonly': os.chmod(d + '/t.s', 0o444)
    if inp == 'link.s': os.symlink('t.s', d + '/link.s')
    if inp == 'UP': cwd = d + '/sub'
    if inp in WHERE:
        cwd = d + WHERE[inp]; os.makedirs(cwd)
        with open(cwd + '/t.s', 'wb') as f: f.write(data)
    arg = {'CWD deep': 't.s', 'CWD long': './t.s', 'CWD odd': cwd + '/t.s', 'ABS': d + '/t.s', 'UP': '../t.s', 'old mtime': 't.s', 'readonly': 't.s'}.get(inp, inp)
    dst = os.path.join(cwd, 'o.hex')
    oarg = ['-o', 'o.hex']
    if out == 'old': pre = b'OLD CONTENT\n' * 5
    elif out == 'long': pre = b':00000001FF\n' * 3000
    elif out == 'same': pre = want
    elif out == 'newer': pre = want[:-1] + b'X'
    elif out == 'shorter': pre = want[:len(want) // 2]
    elif out == 'one': pre = b':'
    else: pre = None
    if out == 'abs': dst = d + '/sub/q.hex'; oarg = ['-o', dst]
    elif out == 'deep': dst = d + '/sub/deep/q.bin'; oarg = ['-o' + dst]
    elif out == 'noext': dst = os.path.join(cwd, 'image'); oarg = ['--output=image']
    elif out == 'space': dst = os.path.join(cwd, 'an image.s'); oarg = ['--output', 'an image.s']
    elif out == 'default': dst = os.path.join(cwd, 'a.hex'); oarg = []
    elif out == 'symlink': os.symlink(d + '/sub/real', dst); dst = d + '/sub/real'
    elif out.startswith('x.'): dst = os.path.join(cwd, out); oarg = ['-o', out]
    elif out == 'devnull': os.symlink('/dev/null', dst)
    elif out == 'long name': dst = os.path.join(cwd, 'o' * 250); oarg = ['-o', 'o' * 250]
    elif out == 'hidden': dst = os.path.join(cwd, '.o'); oarg = ['-o', '.o']
    elif out == 'hardlink':
        with open(d + '/other', 'wb') as f: f.write(b'x' * 999)
        os.link(d + '/other', dst)
    elif out == 'sparse':
        with open(dst, 'wb') as f: f.truncate(1 << 20)
    taken = []
    if out in ('fifo', 'pty', 'socket', 'devfd'):
        fds = ()
        if out == 'fifo':
            os.mkfifo(dst); src_fd = os.open(dst, os.O_RDONLY | os.O_NONBLOCK); os.set_blocking(src_fd, True); hold = os.open(dst, os.O_WRONLY)
        elif out == 'pty':
            src_fd, hold = os.openpty(); tty.setraw(hold); oarg = ['-o', '-']
        elif out == 'socket':
            a, b = socket.socketpair(); src_fd, hold = a.detach(), b.detach(); oarg = ['-o', '-']
        else:
            src_fd, hold = os.pipe(); oarg = ['-o', '/dev/fd/%d' % hold]; fds = (hold,)
        def drain():
            while True:
                try: c = os.read(src_fd, 65536)
                except OSError: break
                if not c: break
                taken.append(c)
        threads.append(threading.Thread(target=drain, daemon=True))
    if pre is not None:
        with open(dst, 'wb') as f: f.write(pre)
        if out == 'newer':
            t = time.time() + 86400; os.utime(dst, (t, t))
    env = dict(ENVS[(k + r.randrange(2)) % len(ENVS)]) if k else dict(core.RUN_ENV)
    so = subprocess.PIPE
    before = b''
    if out.startswith('stdout') or out == 'devstdout': oarg = ['-o', '-' if out != 'devstdout' else 'so']
    if out == 'devstdout': os.symlink('/dev/stdout', cwd + '/so')      # a link of our own: code that replaces its output must not replace the device's
    if out in ('stdout-file', 'stdout-append'):
        dst = d + '/captured'
        if out == 'stdout-append':
            before = b'; earlier\n'; open(dst, 'wb').write(before)
        so = open(dst, 'ab' if out == 'stdout-append' else 'wb')
    si = open(d + '/t.s', 'rb') if inp == '/dev/stdin' else subprocess.DEVNULL
    if out in ('pty', 'socket'): so = hold
    for th in threads: th.start()
    p = subprocess.Popen([NAMES[k % len(NAMES)]] + oarg + (['--'] if k % 4 == 1 else []) + [arg], executable=exe, cwd=cwd, env=env, stdin=si, stdout=so, stderr=subprocess.PIPE, pass_fds=fds if out == 'devfd' else ())
    try:
        o, e = p.communicate(timeout=core.TIMEOUT); rc = p.returncode
    except subprocess.TimeoutExpired:
        p.kill(); o, e = p.communicate(); rc = 999
    if rc < 0: rc = 256 - rc
    if inp == 'fifo':
        try: os.close(os.open(d + '/fifo', os.O_RDONLY | os.O_NONBLOCK))      # lets the feeder go if nobody read
        except OSError: pass
    if out in ('fifo', 'pty', 'socket', 'devfd'):
        os.close(hold)
        for th in threads: th.join(5)
        os.close(src_fd)
    if out in ('stdout-pipe', 'devstdout'): got = o or b''
    elif out in ('fifo', 'pty', 'socket', 'devfd'): got = b''.join(taken)
    elif out == 'devnull': got = want
    else:
        try: got = open(dst, 'rb').read()
        except OSError: got = None
    if out == 'stdout-append': got = got[len(before):] if got.startswith(before) else b'?'
    hexed = got is not None and got[:1] == b':' and got != pre
    if rc == 0: res = got
    else: res = b''
    return rc, res, (inp, out)

# what an environment variable or a file found on the way may say
VALUES = ['', '0', '1', '2', '16', '32', '200', '512', '0x200', '$200', 'on', 'true', 'yes', 'debug', 'always', 'binary', 'BINARY', '.org $200', 'cls', 'x', '/nonexistent', 'C', 'en_US.UTF-8', 'tr_TR']
CONTENTS = ['', '1\n', 'cls\n', '.org $300\n', 'x: .equ 5\n', 'start: .equ 7\nloop: .equ 9\n', '[c8s]\norigin = 512\n', 'origin=512\n', '{}', ':00000001FF\n', None]

def probed(job):
    """One run under the probe: its result and what it asked for."""
    exe, so, src, extra, files, base = job
    d = core._workdir(base)
    for n in os.listdir(d):
        q = os.path.join(d, n)
        if os.path.isdir(q) and not os.path.islink(q): shutil.rmtree(q)
        else: os.unlink(q)
    w = d + '/run'
    os.makedirs(w)
    with open(w + '/t.s', 'wb') as f: f.write(core.to_bytes(src))
    for name, text in files.items():
        q = os.path.join(w, name)
        if text is None: os.makedirs(q, exist_ok=True)
        else:
            os.makedirs(os.path.dirname(q), exist_ok=True)
            with open(q, 'w') as f: f.write(text)
    log = d + '/log'
    env = dict(core.RUN_ENV, LD_PRELOAD=so, PROBE_LOG=log)
    env.update(extra)
    rc, out, err = core.execute(exe, ['-o', 'o.hex', 't.s'], w, env=env)
    try: got = open(w + '/o.hex', 'rb').read() if rc == 0 else b''
    except OSError: got = b'?'
    asked = set()
    if os.path.exists(log):
        for l in open(log, errors='replace').read().split('\n'):
            if l and l[0] == 'F':
                q = os.path.normpath(os.path.join(w, l[2:]))
                if q.startswith(w + '/') and q not in (w + '/t.s', w + '/o.hex'): asked.add(('F', os.path.relpath(q, w)))
            elif l and l[0] in 'ETPYR': asked.add((l[0], l[2:]))
    return rc, got, asked

def probe(res, exe, items):
    """Answers that a run gets from its surroundings, varied one by one: the
    variables and files it is seen to ask for, clock, process id, terminal and
    random numbers."""
    so = os.path.join(core.scratch(), 'probe.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-w', '-o', so, os.path.join(core.VERIF, 'shim', 'probe.c')], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise core.ToolError('probe: ' + r.stdout)
    step = 1 if res.thorough else 2
    pick = items[::step]
    base = core.arena()
    def go(plan):
        with core.pool() as ex:
            runs = list(ex.map(probed, [(exe, so, s, e, f, base) for (s, _, _), e, f in plan], chunksize=16))
        asked = set()
        for ((s, rc, want), e, f), (rc2, got, a) in zip(plan, runs):
            asked |= a
            if (rc2, got) != (rc, want):
                if rc2 == 999 and probed((exe, so, s, e, f, base))[0] != 999: continue
                res.add('run with %s differs from the reference run' % (e or f or 'the probe',),
                        {'kind': 'probe', 'input': core.to_bytes(s).decode('utf-8', 'replace')[:400], 'bytes': core.to_bytes(s).hex(), 'environment': e, 'files': f,
                         'observed': {'exit': rc2, 'out': got.decode('ascii', 'replace')[:600]}, 'expected': {'exit': rc, 'out': want.decode()[:600]}})
        return asked, len(plan)
    seeds = 12 if res.thorough else 4
    asked, n = go([(i, {'PROBE_RAND': str(k)}, {}) for k in range(seeds) for i in pick])
    asked |= {('E', s) for s in novel.fresh()[1] if re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', s, re.A) and not s.startswith(('LD_', 'PROBE_'))}
    plan = []
    few = pick[::3]
    for kind, name in sorted(asked):
        if kind == 'E': plan += [(i, {name: v}, {}) for v in VALUES for i in few]
        elif kind == 'F': plan += [(i, {}, {name: v}) for v in CONTENTS for i in few]
        elif kind == 'T': plan += [(i, {'PROBE_TIME': str(v)}, {}) for v in (1, 60, 3600, 43200, 86400, 604800, 10 ** 7, 10 ** 8, 10 ** 9, -10 ** 9) for i in few]
        elif kind == 'P': plan += [(i, {'PROBE_PID': str(v)}, {}) for v in list(range(1, 18)) + [100, 1000, 4096, 32767] for i in few]
        elif kind == 'Y': plan += [(i, {'PROBE_TTY': v}, {}) for v in '01' for i in few]
    _, n2 = go(plan[:20000])
    res.extra['asked_of_surroundings'] = sorted('%s %s' % a for a in asked)[:40]
    return n + n2

def corpus(rng, thorough):
    out = []
    for _ in range(260 if thorough else 90):
        out.append(gen.program(rng, bad=.15))
    for _ in range(60 if thorough else 25):
        out.append(gen.label_program(rng))
    for n in (2, 3, 5, 9, 17, 33, 65, 129, 257, 400):          # sections, in shuffled order
        a = rng.sample(range(0, 4000, 7), n)
        out.append(''.join('.org %d\n.db %s\n' % (x, ', '.join(str(rng.randrange(256)) for _ in range(rng.randint(1, 7)))) for x in a))
        out.append(''.join('.org %d\n.db 1, 2\n' % x for x in sorted(a)))
    for n in (3, 16, 17, 64, 100, 256, 700):                   # labels
        names = ['%s%d' % (rng.choice(['l', 'L', '_', 'loop', 'x']), k) for k in range(n)]
        refs = list(names); rng.shuffle(refs)
        out.append(''.join('%s: .db %d\n' % (x, k % 256) for k, x in enumerate(names)) + ''.join('jp %s\n' % x for x in refs))
        out.append(''.join('%s: .equ %d\n' % (x, k) for k, x in enumerate(names)) + ''.join('ld i, %s\n' % x for x in refs))
    out += ['', '\n', 'cls\n', '.db "\u00e9\u0131\u0130 i I"\n', 'LD VI, 3\n', '.DB "I", 1\nlI: JP lI\nDRW V1, V2, 3\n', 'skip: sknp v1\nCALL skip\nSHR vI\n', '.org 5\n', '.db 1\n.org 0\n.db 2\n',
            'a:\na:\n', 'jp b\n', 'rnd v1, $ff\nrnd v2, 3\n']
    # texts on the edge between acceptance and rejection
    out += ['cls', '.db 1', '.db "a"', 'ld v1, 2', 'x:', '; c', 'cls ; c', 'ret\ncls', 'cls\r\nret\r\n', 'cls\rret\n', '\ufeffcls\n', 'cls\n\x1a', 'cls\n\0', '\tcls\n', 'cls\n\n\n', ' ', '\n\n', '.db "a\r\nb"\n', '.db "\t"\n', '.org $200', '.db 1,', 'jp x\nx:',
            'cls\n; vim: x\n', '#!/usr/bin/c8s\n', '; -*- origin: 512 -*-\ncls\n', 'LABEL: jp label\n', 'label: jp LABEL\n', 'x: .equ 5\nX: .equ 6\njp x\njp X\n', 'cls\n.end\nret\n', '.include "a.s"\n', b'\xff\n', b'cls\n; \xe9\n', b'.db "\xe9"\n']
    # many rejections at once: the verdict is the same each time
    out.append(''.join('jp u%d\n' % k for k in range(50)))
    out.append(''.join('.org %d\n.db 1, 2, 3\n' % (k * 2) for k in range(40)))
    return out

def c17(res):
    exe = core.build()
    r = res.rng
    srcs = corpus(r, res.thorough)
    new = novel.programs(r)
    srcs = srcs + r.sample(new, min(len(new), 60))
    NAMES.extend(n for s in novel.fresh()[1] if s and '\0' not in s and len(s) < 60 for n in (s, 'x' + s, 'c8' + s, s + 'x'))
    for s in novel.fresh()[1]:
        for n in (s, s + '.s', 'x' + s, 't.' + s):
            if n.strip('.') and '/' not in n and '\0' not in n and len(n) < 100 and n not in INPUTS and not n.startswith('-'): INPUTS.append(n)
        if '/' not in s and '\0' not in s and s and len(s) < 60: OUTS.append('x.' + s.lstrip('.')); OUTS.append('x.' + s.lstrip('.') + '.hex')
    srcs, obs = core.keep(srcs, core.run_all(exe, srcs))
    n0 = core.STATS['tlc_runs']
    bad = {k: (d & {'exit', 'recs', 'hex', 'image'}, v) for k, d, v in core.validate(srcs, obs) if d & {'exit', 'recs', 'hex', 'image'}}
    for k, (d, v) in bad.items():
        res.add('%s differs from the specification' % ','.join(sorted(d)), {'kind': 'trace', 'input': core.to_bytes(srcs[k]).decode('utf-8', 'replace')[:400], 'bytes': core.to_bytes(srcs[k]).hex(), 'observed': {f: obs[k][f] for f in ('exit', 'out', 'err', 'recs')}, 'expected': v[:1500]})
    # the specification is deterministic: no state of the machine has two successors
    if core.STATS.get('maxout') != 1:
        raise core.ToolError('the specification is not deterministic')
    reps = 4 * len(INPUTS) if res.thorough else len(INPUTS)
    jobs, meta = [], []
    for k, (s, o) in enumerate(zip(srcs, obs)):
        if k in bad: continue
        want = iocheck.hextext(o['recs']) if o['exit'] == 0 else b''
        for v in range(reps):
            jobs.append((exe, s, want, v, '%s-%d' % (res.seed, k), core.arena())); meta.append((k, o['exit'], want))
    with core.pool() as ex:
        runs = list(ex.map(variation, jobs, chunksize=32))
    for (k, rc, want), (rc2, got, how), job in zip(meta, runs, jobs):
        if rc2 != rc or got != want:
            # a nondeterministic failure need not recur, so it is believed at once; a timeout has to recur
            if rc2 == 999 and variation(job)[0] != 999: continue
            res.add('run as input %s, output %s differs from the reference run' % how,
                    {'kind': 'variation', 'input': core.to_bytes(srcs[k]).decode('utf-8', 'replace')[:400], 'bytes': core.to_bytes(srcs[k]).hex(), 'circumstances': list(how) + [job[3]],
                     'observed': {'exit': rc2, 'out': (got or b'').decode('ascii', 'replace')[:600]}, 'expected': {'exit': rc, 'out': want.decode()[:600]}})
    n = probe(res, exe, [(s, o['exit'], iocheck.hextext(o['recs']) if o['exit'] == 0 else b'') for k, (s, o) in enumerate(zip(srcs, obs)) if k not in bad])
    res.validated += len(srcs) + len(jobs) + n
    res.extra['variations'] = len(jobs)
    for s, m in list(zip(srcs, runs))[:3]: res.sample({'input': core.to_bytes(s).decode('utf-8', 'replace')[:120], 'exit': m[0], 'circumstances': list(m[2])})
