"""The library: behaviours the specification has already judged.  A text is made
again from its number, the working tree is run on it, and a digest of what it did
is compared with the one kept from a recording that TLC found to conform.  What
differs is recorded anew and judged by TLC like any other run: the library
decides nothing, it only says where to look.

  python3 library.py build [Cxx ...]   judge the texts with TLC and keep the digests"""
import hashlib, json, os, random, struct, subprocess, sys, time
import core, gen, search

BLOCKS, PER, LONGEST = 8, 4000, 800
DIR = os.path.join(core.VERIF, 'lib', 'library')
SENTINEL = core.SENTINEL

def corpus(pid, rng):
    import checks
    if pid in checks.PLANS: return checks.PLANS[pid][0](rng, False)
    if pid == 'C11':
        return [gen.decorate(rng, b, a) for b in gen.c11_bases(rng, False) for a in (.1, .4, .9)]
    if pid == 'C12':
        return [x for b, vs in gen.c12_variants(rng, False) for x in [b] + list(vs)] + gen.c12_labels(rng, False)
    if pid == 'C20': return gen.c20(rng, False)
    return gen.fuzz(rng, 2500) + gen.truncations(rng, False) + gen.badutf8(rng, False)

def unpack(b):
    k, out = 0, []
    while k < len(b):
        n = struct.unpack_from('<I', b, k)[0]
        out.append(b[k + 4:k + 4 + n]); k += 4 + n
    return out

def block(pid, k, d, runner):
    """The texts of one block: some of the property's own corpus, some programs of
    every kind, and variations on both."""
    rng = random.Random('library-%s-%d' % (pid, k))
    own = [core.to_bytes(s) for s in corpus(pid, rng) if not isinstance(s, core.Named)]
    own = [b for b in own if len(b) <= LONGEST]
    base = rng.sample(own, min(len(own), 1300)) + [b for b in map(core.to_bytes, gen.mixed(rng, 500, .25)) if len(b) <= LONGEST]
    with open(d + '/s', 'wb') as f: f.write(search.pack(base))
    with open(d + '/w', 'wb') as f: f.write(search.pack(search.DICT))
    subprocess.run([runner, 'vary', d + '/s', d + '/v', str(k), str(2 * (PER - len(base))), d + '/w'], check=True)
    with open(d + '/v', 'rb') as f: more = [b for b in unpack(f.read()) if len(b) <= LONGEST]
    return list(dict.fromkeys(base + more))[:PER]

def outcomes(exe, texts, d, tools):
    """(exit, printed, output file or None if untouched) of each, None if skipped."""
    with open(d + '/jobs', 'wb') as f: f.write(search.pack(texts))
    subprocess.run([tools[0], 'run', exe, tools[1], d + '/run', d + '/jobs', d + '/results'], check=True, timeout=600)
    with open(d + '/results', 'rb') as f: b = f.read()
    k, out = 0, []
    for _ in texts:
        st, n = struct.unpack_from('<II', b, k); k += 8
        printed = b[k:k + n]; k += n
        n = struct.unpack_from('<I', b, k)[0]; k += 4
        out.append(None if st == 1000 else (st, printed, b[k:k + n])); k += n
    return out

def digests(o):
    h = lambda *p: hashlib.blake2b(b'\0'.join(p), digest_size=4).digest()
    return h(str(o[0]).encode(), o[2]), h(o[1])

def stamp():
    h = hashlib.sha256()
    d = os.path.join(core.VERIF, 'spec')
    for n in sorted(os.listdir(d)):
        if n.endswith('.tla'):
            with open(os.path.join(d, n), 'rb') as f: h.update(n.encode() + f.read())
    return h.digest()[:16]

def mark(texts): return hashlib.sha256(b'\0'.join(texts)).digest()[:8]

def _replay(job):
    pid, k, exe, tools, base, want, diag = job
    d = os.path.join(base, 'lib%d' % k)
    os.makedirs(d, exist_ok=True)
    texts = block(pid, k, d, tools[0])
    if len(want) != 8 + 8 * len(texts) or want[:8] != mark(texts): return 'stale', []
    bad = []
    for n, (t, o) in enumerate(zip(texts, outcomes(exe, texts, d, tools))):
        if o is None: continue
        a, b = digests(o)
        w = want[8 + 8 * n:16 + 8 * n]
        if a != w[:4] or (diag and b != w[4:]): bad.append(t)
    return len(texts), bad

def replay(res, exe, aspects):
    """Texts on which the working tree no longer does what was recorded."""
    try:
        with open(os.path.join(DIR, res.pid + '.bin'), 'rb') as f: b = f.read()
    except OSError:
        b = b''
    if b[:16] != stamp():
        res.extra['library'] = 'not used: made for another specification' if b else 'none'
        return []
    want, k = unpack(b[16:]), 0
    base = os.path.join(core.arena(), 'library')
    tools = search.tools()
    with core.pool() as ex:
        parts = list(ex.map(_replay, [(res.pid, k, exe, tools, base, w, bool(aspects & {'diag', 'noise'})) for k, w in enumerate(want)]))
    bad = [t for _, l in parts for t in l]
    res.extra['library'] = {'replayed': sum(n for n, _ in parts if n != 'stale'), 'stale_blocks': sum(n == 'stale' for n, _ in parts), 'differ': len(bad)}
    res.validated += res.extra['library']['replayed']
    bad.sort(key=len)
    if len(bad) > 600: bad = bad[:300] + res.rng.sample(bad[300:], 300)
    return [decode(t) for t in bad]

def decode(t):
    try: return t.decode('utf-8')
    except UnicodeDecodeError: return t

def build(pids):
    exe = core.build()
    tools = search.tools()
    os.makedirs(DIR, exist_ok=True)
    d = os.path.join(core.arena(), 'build')
    os.makedirs(d)
    for pid in pids:
        t0, out, total = time.time(), [], 0
        for k in range(BLOCKS):
            texts = block(pid, k, d, tools[0])
            obs = outcomes(exe, texts, d, tools)
            full = []
            for t, o in zip(texts, obs):
                r = core.record(t, o[0], o[1], b'', o[2], o[2] == SENTINEL)
                r['name'], r['prog'] = 't.s', 'c8s'
                full.append(r)
            for j, diffs, v in core.validate(texts, full):
                print('DIFFERS', pid, k, diffs, texts[j], v[:300], flush=True)
                sys.exit(1)
            out.append(mark(texts) + b''.join(a + b for a, b in map(digests, obs)))
            total += len(texts)
        with open(os.path.join(DIR, pid + '.bin'), 'wb') as f: f.write(stamp() + search.pack(out))
        print(pid, total, '%.0f s' % (time.time() - t0), flush=True)

if __name__ == '__main__':
    import checks
    if sys.argv[1:2] == ['build']:
        try: build(sys.argv[2:] or sorted(list(checks.PLANS) + ['C11', 'C12', 'C13', 'C20']))
        finally: core.cleanup()
