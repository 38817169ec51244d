"""C14: the assembler and the operating system (spec/Io.tla)."""
import errno, json, os, re, shutil, subprocess, tempfile
import core, novel

OLD = b'OLD CONTENT\n' * 900          # longer than any output used here

def build_shim():
    so = os.path.join(core.scratch(), 'shim.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', so, os.path.join(core.VERIF, 'shim', 'shim.c')],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise core.ToolError('shim: ' + r.stdout)
    return so

def hextext(recs):
    return b''.join(b':' + bytes(r).hex().upper().encode() + b'\n' for r in recs)

def plans(big):
    """Every way the system may answer, from the specification."""
    out = core.tlc_ok('IoMC', cfg='IoMCBig.cfg' if big else 'IoMC.cfg', dfs=False)
    res = []
    for line in out.split('\n'):
        if line.startswith('"PLAN '):
            res.append(json.loads(json.loads(line)[5:]))
    if len(res) < 1000:
        raise core.ToolError('no I/O plans')
    return sorted(res, key=lambda p: (len(p['hist']), json.dumps(p)))

def answers(rng, hist, size, outlen):
    """The plan in the shim's notation."""
    key = {'open': 'o', 'read': 'r', 'create': 'c', 'write': 'w'}
    val = {'ok': '-', 'eof': '-', 'eintr': 'e'}
    d = {k: [] for k in 'orcw'}
    for op, r in hist:
        k = key[op]
        if r == 'some':
            d[k].append('s%d' % rng.choice([1, 2, 3, 12, 44, max(1, (size if op == 'read' else outlen) // 2),
                                            max(1, (size if op == 'read' else outlen) - 1)]))
        elif r == 'err':
            d[k].append(rng.choice('xX'))
        else:
            d[k].append(val[r])
    return ';'.join('%s=%s' % (k, ','.join(v)) for k, v in d.items() if v)

# what a failed call may be called; EBADF on standard output is left out (Rust's library takes it for a closed stream)
FAILURES = [[getattr(errno, n) for n in ns.split()] for ns in (
    'EACCES ENOENT EPERM EISDIR EMFILE ENFILE ELOOP ENAMETOOLONG ENOTDIR ENXIO EIO ENOMEM EAGAIN ETIMEDOUT ESTALE EOVERFLOW EINVAL EBUSY',
    'EIO EISDIR EAGAIN EINVAL ENXIO ETIMEDOUT ESTALE ENOMEM EPERM EACCES ECONNRESET EOVERFLOW',
    'EACCES ENOENT EPERM EISDIR EROFS ETXTBSY EMFILE ENFILE ELOOP ENAMETOOLONG ENOTDIR ENXIO ENOSPC EDQUOT EEXIST EBUSY EAGAIN EIO ENOMEM ESTALE EINVAL',
    'ENOSPC EIO EFBIG EDQUOT EAGAIN EPIPE EINVAL ENXIO EPERM ETIMEDOUT ESTALE ENOMEM EROFS ECONNRESET EBUSY')]

DESTS = ['old', 'absent', 'empty', 'symlink', 'dangling', 'hardlink', 'same', 'readonly']

def one(job):
    exe, so, case, base = job
    d = core._workdir(base)
    for n in os.listdir(d):
        p = os.path.join(d, n)
        if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
        else: os.unlink(p)
    src, want = case['src'], case['want']
    with open(d + '/in.s', 'wb') as f: f.write(src)
    kind = case['kind']
    path, real = d + '/out.hex', d + '/out.hex'
    before = OLD
    if kind == 'absent': before = None
    elif kind == 'empty': before = b''
    elif kind == 'same': before = want
    if kind == 'symlink':
        real = d + '/target'; os.symlink('target', path)
    elif kind == 'dangling':
        real = d + '/target'; os.symlink('target', path); before = None
    elif kind == 'input':
        path = real = d + '/in.s'; before = src
    if before is not None and kind != 'input':
        with open(real, 'wb') as f: f.write(before)
    if kind == 'hardlink':
        os.link(real, d + '/other')
    if kind == 'readonly':
        os.chmod(real, 0o444)
    env = dict(core.RUN_ENV)
    log = d + '/log'
    outname = 'in.s' if kind == 'input' else 'out.hex'
    args = ['-o', outname, 'in.s']
    if case['to'] == 'stdout':
        args = ['-o', '-', 'in.s']
        env['C8S_STDOUT'] = '1'
    if so:
        env.update(LD_PRELOAD=so, C8S_LOG=log, C8S_IN='in.s', C8S_PLAN=case['plan'], C8S_ERRNO=case['errno'])
    rc, out, err = core.execute(exe, args, d, env=env)
    try:
        with open(path, 'rb') as f: after = f.read()      # as a user finds it under the name given
    except OSError:
        after = None
    try:
        with open(d + '/in.s', 'rb') as f: inp = f.read()
    except OSError:
        inp = None
    ev, off, nread = [], 0, 0
    raw = []
    lines = open(log).read().split('\n') if so and os.path.exists(log) else []
    for line in lines:
        w = line.split(' ')
        if w[0] not in ('R',) and nread == len(src) and ev and ev[-1] == {'op': 'read', 'res': 'some'} and w[0]:
            ev.append({'op': 'read', 'res': 'eof'})      # it knew the size and did not ask again
        if w[0] == 'O': ev.append({'op': 'open', 'res': w[1]})
        elif w[0] == 'C': ev.append({'op': 'create', 'res': w[1]})
        elif w[0] == 'R':
            if w[1] in ('eintr', 'err'): ev.append({'op': 'read', 'res': w[1]})
            elif w[1] == '0': ev.append({'op': 'read', 'res': 'eof'})
            else:
                nread += int(w[1]); ev.append({'op': 'read', 'res': 'some'})
        elif w[0] == 'W':
            dest = w[1] == 'f' or case['to'] == 'stdout'
            if w[2] in ('eintr', 'err'):
                ev.append({'op': 'write' if dest else 'say', 'res': w[2]})
                continue
            data = bytes.fromhex(w[2])
            if dest and data == want[off:off + len(data)]:
                off += len(data)
                ev.append({'op': 'write', 'res': 'ok' if off == len(want) else 'some'})
            elif w[1] == 's': ev.append({'op': 'say', 'res': 'ok'})
            else: ev.append({'op': 'garbage', 'res': 'ok'})
    # after the first failed write, whatever is written is a message or a remnant
    for k, e in enumerate(ev):
        if e == {'op': 'write', 'res': 'err'}:
            for e2 in ev[k + 1:]:
                if e2['op'] in ('write', 'garbage'): e2['op'] = 'say'
            break
    ev.append({'op': 'exit', 'res': '', 'code': rc})
    for e in ev: e.setdefault('code', 0)
    if case['to'] == 'stdout':
        found = 'new' if out == want and want else 'other'
        if want and not out.startswith(want[:1]) or not want: found = 'old'
        if after != before: found = 'other'
    else:
        found = 'old' if after == before else 'new' if after == want else 'other'
        if before == want and after == before:
            found = 'new' if rc == 0 else 'old'
    if kind != 'input' and inp != src: found = 'other'
    if kind in ('hardlink', 'symlink') and found == 'old' and open(d + ('/other' if kind == 'hardlink' else '/target'), 'rb').read() != before: found = 'other'
    return {'events': ev, 'dest': found, 'text': case['text'], 'to': case['to'], 'exit': rc,
            'out': out[:300].decode('utf-8', 'replace'), 'err': err[:300].decode('utf-8', 'replace'), 'log': lines[:60]}

def run(exe, so, cases):
    base = core.arena()
    with core.pool() as ex:
        return list(ex.map(one, [(exe, so, c, base) for c in cases], chunksize=max(1, len(cases) // 64)))

_ANS = re.compile(r'^"(AGREE|DIFFER) (\d+)(.*)"\s*$')
def judge(obs):
    bad, k = [], 0
    while k < len(obs):
        part = obs[k:k + 20000]
        path = os.path.join(core.scratch(), 'io.json')
        with open(path, 'w') as f:
            json.dump({'cases': [{f: o[f] for f in ('events', 'dest', 'text', 'to')} for o in part]}, f)
        out = core.tlc_ok('IoTrace', env={'C8S_BATCH': path})
        seen = set()
        for line in out.split('\n'):
            m = _ANS.match(line)
            if m:
                seen.add(int(m.group(2)))
                if m.group(1) == 'DIFFER':
                    bad.append((k + int(m.group(2)) - 1, m.group(3).replace('\\"', '"').strip()))
        if len(seen) != len(part):
            raise core.ToolError('TLC judged %d of %d I/O recordings' % (len(seen), len(part)))
        k += len(part)
    return bad

GOOD = ['', 'cls\n', 'cls\njp $300\n.db "hello, world"\n', '.org $200\n' + 'ld v1, $2f\n' * 12,
        '.db ' + ', '.join(['$5a'] * 300) + '\n', '.org $100\n' + '.db "0123456789abcdefghijklmnopqrstuvwxyz"\n' * 90,
        'cls\n; \u00e9\u4e2d\n.db "\u20ac"\nret\n', '; ' + 'c' * 9000 + '\n' + 'cls\n' + '; ' + 'd' * 9000 + '\nret\n']
BAD = ['cls\n$\n', 'cls\n"abc\n', 'cls\nld v1 v2\n', 'cls\nfoo\n', 'cls\na:\na:\n', 'cls\njp nowhere\n', 'cls\n.db 1\n.org 0\ncls\n', 'cls\n.db $100\n',
       'cls\n.org $ffd\n.db 1,2,3,4\n', '.equ 5\n', 'cls', 'cls\nadd v0, v16\n', 'ld v0, $200\n', 'cls\n.org\n', 'jp 1\n.bogus 3\n', '.org 5\ncls\n.org 4\ncls\n.org 6\ncls\n']
BADBYTES = [b'cls\n\xff\n', b'cls\n; \xc3', b'\xed\xa0\x80\n']

def programs():
    """(bytes, good?, output) as the specification says."""
    ps = GOOD + BAD
    extra = []
    for n in novel.numbers(novel.fresh()[0])[:12]:
        if n < 20000:
            extra += ['cls\n;' + 'c' * max(0, n - 5), 'cls\n;' + 'c' * n + '\nret\n']
            if n < 4095: extra += ['.db "%s"\n' % ('z' * n)]
            if n < 300: extra += [''.join('.org %d\n.db 1\n' % (k * 9) for k in range(n)), '\n' * n + 'foo\n']
    for s in novel.fresh()[1]:
        extra += ['; %s\ncls\n' % s.replace('\n', ' '), s + '\n', 'cls\n' + s]
    ps = ps + [x for x in dict.fromkeys(extra) if x not in ps]
    res = []
    for text, e in core.explore(ps, 1):
        if text == '' and any(r[0] == b'' for r in res): continue
        res.append((text.encode(), 'good' if e['x'] == 0 else 'bad', hextext(e['r']) if e['x'] == 0 else b''))
    good = [p for p in res if p[1] == 'good']
    bad = [p for p in res if p[1] == 'bad'] + [(b, 'bad', b'') for b in BADBYTES]
    if len(good) < len(GOOD) or len(bad) < len(BAD):
        raise core.ToolError('programs for the I/O check: %d good, %d bad' % (len(good), len(bad)))
    return good, bad

def c14(res):
    exe = core.build()
    so = build_shim()
    r = res.rng
    good, bad = programs()
    cases = []
    # every program, every kind of destination, a cooperative system
    for src, text, want in good + bad:
        for to in ('file', 'stdout'):
            for kind in (DESTS if to == 'file' else ['old', 'absent']) + (['input'] if to == 'file' else []):
                cases.append({'src': src, 'text': text, 'want': want, 'to': to, 'kind': kind, 'plan': ''})
    # every behaviour of the specification
    ps = plans(res.thorough)
    for p in ps:
        for src, text, want in [r.choice(good if p['text'] == 'good' else bad)]:
            cases.append({'src': src, 'text': text, 'want': want, 'to': p['to'], 'kind': r.choice(DESTS) if p['to'] == 'file' else 'old',
                          'plan': answers(r, p['hist'], len(src), len(want))})
    # a failure at every read and every write of a slow device
    for src, text, want in [p for p in good if len(p[0]) < 600] + bad[:6]:
        n = 1 + len(src) // 7
        for k in range(0, n + 2, 1 if n < 40 else 5):
            for a in 'xe':
                cases.append({'src': src, 'text': text, 'want': want, 'to': 'file', 'kind': r.choice(DESTS), 'plan': 'r=' + 's7,' * k + a})
        if text == 'good':
            m = 1 + len(want) // 11
            for to in ('file', 'stdout'):
                for k in range(0, m + 2, 1 if m < 40 else 7):
                    for a in 'xXe':
                        cases.append({'src': src, 'text': text, 'want': want, 'to': to, 'kind': r.choice(DESTS) if to == 'file' else 'old',
                                      'plan': 'w=' + 's11,' * min(k, 90) + a})
    for c in cases: c['errno'] = ','.join(str(r.choice(f)) for f in FAILURES)
    # every failure at every call, when all else is well
    for src, text, want in good[:6] + bad[:3]:
        for n, f in enumerate(FAILURES):
            for x in f:
                for to in ('file', 'stdout'):
                    if n == 2 and to == 'stdout' or n == 3 and text == 'bad': continue
                    for plan in {0: ['o=x', 'o=X'], 1: ['r=x', 'r=X', 'r=s3,x', 'r=s3,X', 'r=e,s2,x'], 2: ['c=x', 'c=X'], 3: ['w=x', 'w=X', 'w=s9,x', 'w=s9,X', 'w=s12,e,x', 'w=s1,s1,x']}[n]:
                        cases.append({'src': src, 'text': text, 'want': want, 'to': to, 'kind': r.choice(DESTS) if to == 'file' else 'old', 'plan': plan, 'errno': ','.join(str(x if m == n else g[0]) for m, g in enumerate(FAILURES))})
    obs = run(exe, so, cases)
    for k, what in judge(obs):
        again = [run(exe, so, [cases[k]])[0] for _ in range(3)]
        if any(judge([a]) for a in again):
            o, c = obs[k], cases[k]
            res.add('run not allowed by Io.tla: ' + what,
                    {'kind': 'io', 'input': c['src'].decode('utf-8', 'backslashreplace')[:200], 'destination': c['kind'], 'to': c['to'], 'plan': c['plan'], 'errno': c['errno'],
                     'observed': {f: o[f] for f in ('exit', 'out', 'err', 'dest', 'log')}, 'verdict': what})
            if len(res.violations) >= 5: break
    res.validated += len(cases)
    res.extra['fault_plans'] = len(ps)
    res.sample({'plan': cases[-1]['plan'], 'events': obs[-1]['events'][:8], 'exit': obs[-1]['exit']})
    real_system(res, exe, good, bad)

def real_system(res, exe, good, bad):
    """Without the stand-in: real files and devices.  Judged by Io.tla as well,
    from the outcome: which call can only have failed is known by construction."""
    d = tempfile.mkdtemp(prefix='real', dir=core.arena())
    W = lambda n, b: open(os.path.join(d, n), 'wb').write(b)
    src, _, want = good[2]
    W('in.s', src); W('bad.s', b'cls\n$\n'); os.mkdir(d + '/dir'); W('file', b'x'); W('void', b'')
    # devices are reached through links of our own: code that replaces its output must not replace them
    os.symlink('/dev/full', d + '/full'); os.symlink('/dev/null', d + '/devout')
    obs, desc = [], []
    def rec(name, args, fail, text='good', to='file', dest='a.hex', stdout=subprocess.PIPE):
        path = os.path.join(d, dest)
        if os.path.exists(path) and os.path.isfile(path) and dest == 'a.hex': os.unlink(path)
        listing = lambda: sorted((n, open(os.path.join(d, n), 'rb').read()) for n in os.listdir(d)
                                 if os.path.isfile(os.path.join(d, n)) and n != 'devout')
        before = listing()
        p = subprocess.Popen(['c8s'] + args, executable=exe, cwd=d, env=core.RUN_ENV, stdin=subprocess.DEVNULL, stdout=stdout, stderr=subprocess.PIPE)
        try:
            out, err = p.communicate(timeout=core.TIMEOUT); rc = p.returncode
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); rc = 999
        if rc < 0: rc = 256 - rc
        after = listing()
        ev = [{'op': 'open', 'res': 'err' if fail == 'open' else 'ok', 'code': 0}]
        if fail != 'open':
            ev.append({'op': 'read', 'res': 'err' if fail == 'read' else 'eof', 'code': 0})
        if text == 'good' and fail not in ('open', 'read'):
            if to == 'file': ev.append({'op': 'create', 'res': 'err' if fail == 'create' else 'ok', 'code': 0})
            if fail != 'create': ev.append({'op': 'write', 'res': 'err' if fail == 'write' else 'ok', 'code': 0})
        ev.append({'op': 'exit', 'res': '', 'code': rc})
        if after == before: found = 'old'
        elif [x for x in after if x[0] != dest] == [x for x in before if x[0] != dest] and (dest, want) in after: found = 'new'
        else: found = 'other'
        if to == 'stdout':
            found = 'old' if after == before and (out or b'')[:1] != b':' else 'new' if after == before and out == want else 'other'
        if dest == 'devout' : found = 'new'
        obs.append({'events': ev, 'dest': found, 'text': text, 'to': to}); desc.append((name, args, rc, (out or b'')[:200], err[:200]))
    rec('plain', ['in.s'], None)
    rec('missing input', ['nosuch.s'], 'open')
    rec('missing directory', ['no/such.s'], 'open')
    rec('input is under a file', ['file/x.s'], 'open')
    rec('empty path', [''], 'open')
    rec('directory as input', ['dir'], 'read')
    rec('directory as input, explicit output', ['-o', 'b.hex', 'dir'], 'read', dest='b.hex')
    rec('directory as output', ['-o', 'dir', 'in.s'], 'create', dest='dir')
    rec('output in missing directory', ['-o', 'no/x.hex', 'in.s'], 'create', dest='x.hex')
    rec('output under a file', ['-o', 'file/x.hex', 'in.s'], 'create', dest='x.hex')
    rec('empty output path', ['-o', '', 'in.s'], 'create', dest='x.hex')
    rec('name too long', ['-o', 'x' * 300, 'in.s'], 'create', dest='x.hex')
    rec('full device', ['-o', 'full', 'in.s'], 'write', dest='full')
    rec('null device', ['-o', 'devout', 'in.s'], None, dest='devout')
    rec('bad program, missing output directory', ['-o', 'no/x.hex', 'bad.s'], None, text='bad', dest='x.hex')
    rec('bad program', ['bad.s'], None, text='bad')
    rec('standard output', ['-o', '-', 'in.s'], None, to='stdout')
    with open('/dev/full', 'wb') as f:
        rec('full standard output', ['-o', '-', 'in.s'], 'write', to='stdout', stdout=f)
    rd, wr = os.pipe(); os.close(rd)
    rec('broken pipe', ['-o', '-', 'in.s'], 'write', to='stdout', stdout=wr)
    os.close(wr)
    for k, what in judge(obs):
        res.add('%s: not allowed by Io.tla: %s' % (desc[k][0], what),
                {'kind': 'io-real', 'args': desc[k][1], 'observed': {'exit': desc[k][2], 'out': repr(desc[k][3]), 'err': repr(desc[k][4]), 'dest': obs[k]['dest']}, 'verdict': what})
    res.validated += len(obs)
    shutil.rmtree(d)
