"""One check per property: which behaviours are explored, which recordings are
validated, and which aspects of a difference concern the property."""
import json, os, random, re, sys, time
import core, gen, library, more, novel, search, iocheck, clicheck, detcheck, isacheck, fscheck

class Result:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random('%s-%s' % (seed, pid))
        self.violations = []          # (summary, replay object)
        self.validated = 0            # recorded runs compared with the specification
        self.samples = []
        self.extra = {}
        self.assumptions = []

    def add(self, what, replay):
        if not self.enough():
            self.violations.append((what, replay))

    def enough(self):
        return len(self.violations) >= 12

    def sample(self, x):
        if len(self.samples) < 6:
            self.samples.append(x)

def show(src):
    t = src.decode('utf-8', 'backslashreplace') if isinstance(src, bytes) else src
    return t if len(t) <= 160 else t[:120] + '...(%d)' % len(t)

def reproduces(exe, src, same):
    """Re-runs a failing case: a difference is reported only if it recurs, or
    if the runs do not even agree with each other."""
    runs = []
    for _ in range(6):
        o = core.observe(exe, src, core.arena(), True)
        if same(o): return True
        runs.append(o)
    return any(o != runs[0] for o in runs)

def unique(srcs):
    seen, out = set(), []
    for s in srcs:
        b = (core.to_bytes(s), getattr(s, 'name', ''), getattr(s, 'prog', ''))
        if b not in seen:
            seen.add(b); out.append(s)
    return out

def conform(res, exe, srcs, aspects):
    """Recorded runs of the implementation on srcs, validated by TLC."""
    if res.violations: return          # already decided
    srcs = unique(srcs)
    srcs, obs = core.keep(srcs, core.run_all(exe, srcs))
    for k, diffs, verdict in core.validate(srcs, obs):
        hit = diffs & aspects
        if hit and not res.enough():
            o = obs[k]
            again = lambda o2: all(o2[f] == o[f] for f in ('exit', 'out', 'file', 'recs', 'hexok'))
            if reproduces(exe, srcs[k], again):
                res.add('%s differs from the specification' % ','.join(sorted(hit)),
                        {'kind': 'trace', 'input': show(srcs[k]), 'bytes': core.to_bytes(srcs[k]).hex(),
                         'aspects': sorted(hit), 'observed': {k2: o[k2] for k2 in ('exit', 'out', 'err', 'file', 'hexok', 'recs')},
                         'expected': verdict[:2000]})
    res.validated += len(srcs)
    for s, o in list(zip(srcs, obs))[:3]:
        res.sample({'input': show(s), 'exit': o['exit'], 'records': len(o['recs'])})
    return srcs, obs

def replay_model(res, exe, frags, maxlen, aspects, prefix='', suffix=''):
    """All programs of the bounded model, replayed on the implementation."""
    if res.violations: return
    cases = core.explore(frags, maxlen, prefix, suffix)
    obs = core.run_all(exe, [t for t, _ in cases])
    for (text, e), o in zip(cases, obs):
        if o is None: continue
        hit = core.compare(e, o) & aspects
        if hit and not res.enough() and reproduces(exe, text, lambda o2: core.compare(e, o2) & aspects):
            res.add('%s differs from the specification' % ','.join(sorted(hit)),
                    {'kind': 'model', 'input': show(text), 'bytes': core.to_bytes(text).hex(), 'aspects': sorted(hit),
                     'observed': {k2: o[k2] for k2 in ('exit', 'out', 'err', 'file', 'hexok', 'recs')}, 'expected': e})
    res.validated += len(cases)
    res.extra.setdefault('models', []).append({'fragments': frags, 'maxlen': maxlen, 'programs': len(cases), 'exhaustive': True})
    if cases:
        text, e = cases[len(cases) // 2]
        res.sample({'input': show(text), 'expected_exit': e['x']})

MEANING = {'exit', 'image'}
S = lambda *l: [x + '\n' for x in l]

# property: (corpus, aspects, [(fragments, quick length, thorough length, prefix, suffix)])
PLANS = {
 'C01': (gen.c01, MEANING, [(S('ld v1, $2f', 'DRW va, v2, 3', 'jp x', 'x:', 'shr va', '.db 1', 'ld [i], v3', 'ld f, v4'), 4, 5)]),
 'C02': (gen.c02, MEANING, [(['ld', ' jp', ' drw', ' add', ' v0', ' v5', ' i', ' [i]', ' 3', ' $123', ','], 4, 5, '', '\n')]),
 'C03': (gen.c03, MEANING, [(S('a:', 'b:', 'jp a', 'ld v1, b', '.org $20', '.db 1, 2, 3', 'cls'), 5, 6)]),
 'C04': (gen.c04, MEANING, [(['a:\n', 'A: ', '.equ 5\n', '.equ $123\n', 'jp a\n', 'drw v1, v2, A\n', '; c\n', '.equ\n', 'cls\n'], 4, 5)]),
 'C05': (gen.c05, MEANING, [(['1', '$ff', '$100', '"a;"', '"\u00e9"', ',', '\n', '""', '"\\"', ' '], 4, 5, '.db ', '\n')]),
 'C06': (gen.c06, MEANING, [(S('.org 0', '.org 3', '.org 6', '.db 1', '.db 1, 2, 3', 'cls', 'x:'), 5, 6)]),
 'C07': (gen.c07, MEANING, [(S('.org $ffd', '.org $ffc', '.org 1', 'cls', '.db 1', '.db 1, 2', '.db ""', 'x:', 'jp x'), 4, 5)]),
 'C08': (gen.c08, MEANING | {'pairs'}, [(S('.org 0', '.org 1', '.org 3', '.db 1', '.db 1, 2', '.db ""', 'cls'), 5, 6)]),
 'C09': (gen.c09, {'exit', 'hex', 'recset', 'image'}, [(S('.org 0', '.org $f5', '.db "0123456789abcde"', '.db 1', '.db "0123456789abcdef"', '.org $200'), 5, 6)]),
 'C10': (gen.c10, MEANING, [(['0', '1', '2', '9', 'a', 'F', '$', '#', '%', '.', ' '], 4, 5, 'jp ', '\n')]),
 'C15': (gen.c15, {'diag', 'exit'}, [(['\u00e9', '"', '\\', '\n', ';c', '[i]', '.db ', 'x:', ',', '1', 'cls ', '$', ' '], 4, 5)]),
 'C18': (gen.c18, MEANING, [(['a ', '1 ', '"s"', ',', ':', '.', '\n', 'db ', 'cls\n', ';c\n'], 4, 5, '', '\n'), (['cls\n', '"', '\\', ' ', ';', '\n', '[', 'i', ']', '%'], 4, 5)]),
}

def novelties(res, exe, aspects):
    """What numbers and words new to the sources suggest trying."""
    srcs = novel.programs(res.rng)
    if 'diag' in aspects:
        for s in novel.fresh()[1]:
            for name in (s, s + '.s', 'x' + s):
                if name and '\0' not in name and not name.endswith('/') and not name.startswith('/') and '..' not in name and len(name) < 200:
                    srcs += [core.Named('cls\n@\n', name), core.Named('foo v1\n', name), core.Named('.db 1\n.org 0\n.db 1\n', name)]
    res.extra['new_literals'] = [str(x)[:40] for part in novel.fresh() for x in part]
    if srcs: conform(res, exe, srcs, aspects)

def remembered(res, exe, aspects):
    """Behaviours judged before, replayed."""
    if not res.violations: conform(res, exe, library.replay(res, exe, aspects), aspects)

def searched(res, exe, builder, corpus, aspects):
    """What a search guided by the working tree's own branches turned up."""
    if res.violations: return
    new = search.found(res, builder, corpus, 150 if res.thorough else 15, 6000 if res.thorough else 1000)
    conform(res, exe, new + [p for t in new for p in search.probes(t, 'diag' in aspects)], aspects)

def standard(res):
    plan = PLANS[res.pid]
    builder = search.Builder()
    exe = core.build()
    corpus, aspects, models = plan
    novelties(res, exe, aspects)
    remembered(res, exe, aspects)
    srcs = corpus(res.rng, res.thorough)
    conform(res, exe, srcs + more.corpus(res.pid, res.rng, res.thorough) + more.history(lambda r, t: srcs, 400)(res.rng, res.thorough), aspects)
    if res.pid in ('C01', 'C06', 'C08', 'C09'): mosaic(res, exe, aspects)
    if res.pid in ('C05', 'C15', 'C18'): further(res, exe, aspects)
    searched(res, exe, builder, srcs, aspects)
    if 'diag' in aspects: far_away(res, exe)
    for m in models:
        frags, nq, nt = m[:3]
        replay_model(res, exe, frags, nt if res.thorough else nq, aspects, *m[3:])

_LOC = re.compile(r'^t\.s:(\d+):(\d+)(?:-(\d+))?:')
def far_away(res, exe):
    """Errors far down a file or far right on a line: what the specification says
    of the short text, moved by as many lines or columns as were put before it."""
    if res.violations: return
    bases = ['foo\n', 'ld v1 v2\n', '$\n', 'jp 4096\n', 'x: x:\n', '.db 256\n', '"abc\n', 'ld v1, $100\n', '.equ 5\n', '@\n', 'jp y ; c\n', '.org "a"\n', 'cls cls,\n', '[j]\n', '%2\n', '.bogus\n']
    found = dict(core.explore(bases, 1))
    sizes = [300, 66000] + ([200000] if res.thorough else []) + [n + d for n in novel.numbers(novel.fresh()[0]) if 100 <= n <= 70000 for d in (-1, 0, 1)][:9]
    jobs = []
    for b in bases:
        for n in sizes:
            jobs += [('\n' * n + b, found[b], n, 0), (' ' * n + b, found[b], 0, n), (';' + 'c' * n + '\n' + b, found[b], 1, 0)]
        jobs += [('; c\n' * 70000 + b, found[b], 70000, 0), ('.db "' + 'x' * 400 + '" ' + b, found[b], 0, 407), ('.db "' + '\n' * 300 + '"\n' + b, found[b], 301, 0)]
    obs = core.run_all(exe, [j[0] for j in jobs])
    for (text, e, dl, dc), o in zip(jobs, obs):
        if o is None: continue
        def moved(l):
            m = _LOC.match(l)
            if not m: return l
            a, c, d = int(m.group(1)), int(m.group(2)), m.group(3)
            dx = dc if a == 1 else 0
            return 't.s:%d:%d%s:' % (a + dl, c + dx, '-%d' % (int(d) + dx) if d else '') + l[m.end():]
        want = (e['x'], ''.join(moved(l) + '{10}' for l in e['d']))
        if (o['exit'], o['out']) != want and reproduces(exe, text, lambda o2: (o2['exit'], o2['out']) == (o['exit'], o['out'])):
            res.add('wrong position far into the text', {'kind': 'large', 'input': show(text), 'length': len(text), 'observed': {f: o[f] for f in ('exit', 'out', 'err')}, 'expected': want})
    res.validated += len(jobs)

def further(res, exe, aspects):
    """What the specification says of a short text, with a long comment line put
    into it so that the rest lies across the ends of buffers of common sizes."""
    if res.violations: return
    found = dict(core.explore(more.BASES, 1))
    jobs = more.shifted(res.rng, res.thorough)
    obs = core.run_all(exe, [text for _, text, _ in jobs])
    for (base, text, first), o in zip(jobs, obs):
        if o is None: continue
        def moved(l):
            m = _LOC.match(l)
            if not m or (first and m.group(1) == '1'): return l
            return 't.s:%d' % (int(m.group(1)) + 1) + l[m.end(1):]
        e = dict(found[base]); e['d'] = [moved(l) for l in e['d']]
        hit = core.compare(e, o) & aspects
        if 'total' in aspects and o['exit'] != e['x']: hit.add('total')
        if hit and not res.enough() and reproduces(exe, text, lambda o2: o2['exit'] == o['exit'] and o2['out'] == o['out'] and o2['recs'] == o['recs']):
            res.add('%s differs when a long comment comes before' % ','.join(sorted(hit)),
                    {'kind': 'large', 'base': base, 'length': len(text), 'before': first, 'comment': len(text) - len(base) - 2, 'observed': {f: o[f] for f in ('exit', 'out', 'err', 'file', 'recs')}, 'expected': e})
    res.validated += len(jobs)
    res.extra['shifted_texts'] = len(jobs)

def mosaic(res, exe, aspects):
    """Programs with thousands of sections: each section by itself as the
    specification has it, the whole by putting their records together."""
    if res.violations: return
    wholes = more.mosaics(res.rng, res.thorough)
    found = dict(core.explore(list(dict.fromkeys(p for w in wholes for p in w)), 1))
    texts = [''.join(w) for w in wholes]
    obs = core.run_all(exe, texts)
    for w, text, o in zip(wholes, texts, obs):
        if o is None: continue
        recs = [r for p in w for r in found[p]['r'][:-1]] + [found[w[0]]['r'][-1]]
        e = {'x': 0, 'r': recs, 'd': []}
        hit = core.compare(e, o) & aspects
        if hit and reproduces(exe, text, lambda o2: o2['exit'] == o['exit'] and o2['recs'] == o['recs']):
            res.add('%s differs from the parts put together' % ','.join(sorted(hit)), {'kind': 'large', 'input': show(text), 'sections': len(w), 'observed': {f: o[f] for f in ('exit', 'out', 'err', 'file')}, 'records': len(o['recs']), 'expected': len(recs)})
    res.validated += len(texts)
    res.extra['mosaics'] = [len(w) for w in wholes]

def metamorphic(res, exe, groups, aspects):
    """groups: (base, variants) that must behave alike, beyond each conforming."""
    flat, idx = [], []
    for base, vs in groups:
        idx.append((len(flat), len(flat) + 1 + len(vs)))
        flat += [base] + list(vs)
    obs = core.run_all(exe, flat)
    if None in obs:
        # too many runs hung: what did run is judged one by one
        conform(res, exe, flat, aspects | {'total'})
        return
    bad = {k: (d, v) for k, d, v in core.validate(flat, obs) if d & aspects}
    for a, b in idx:
        for k in range(a, b):
            if res.enough(): break
            if k in bad:
                d, v = bad[k]
                if reproduces(exe, flat[k], lambda o2: o2['exit'] == obs[k]['exit'] and o2['recs'] == obs[k]['recs']):
                    res.add('%s differs from the specification' % ','.join(sorted(d & aspects)),
                            {'kind': 'trace', 'input': show(flat[k]), 'bytes': core.to_bytes(flat[k]).hex(), 'aspects': sorted(d & aspects),
                             'observed': {f: obs[k][f] for f in ('exit', 'out', 'err', 'file', 'recs')}, 'expected': v[:2000]})
            elif (obs[k]['exit'], obs[k]['recs']) != (obs[a]['exit'], obs[a]['recs']) and a not in bad:
                # both conform, so the specification itself tells the variants apart: the generator is at fault
                raise core.ToolError('variant not equivalent: %r / %r' % (flat[a], flat[k]))
    res.validated += len(flat)
    res.extra['groups'] = res.extra.get('groups', 0) + len(groups)
    for a, b in idx[:3]:
        res.sample({'base': show(flat[a]), 'variant': show(flat[a + 1]) if b > a + 1 else None, 'exit': obs[a]['exit']})

def c11(res):
    builder = search.Builder()
    exe = core.build()
    r = res.rng
    groups = []
    for base in gen.c11_bases(r, res.thorough):
        groups.append((base, [gen.decorate(r, base, a) for a in ((.1, .3, .6, .9) if not res.thorough else (.1, .2, .3, .5, .7, .9, 1))]))
    metamorphic(res, exe, groups, MEANING)
    conform(res, exe, more.corpus('C11', r, res.thorough), MEANING)
    novelties(res, exe, MEANING)
    remembered(res, exe, MEANING)
    large_trivia(res, exe)
    further(res, exe, MEANING)
    searched(res, exe, builder, [x for b, vs in groups for x in [b] + vs], MEANING)
    lexer_model(res)
    replay_model(res, exe, ['x:', ' .equ 5', '\n', ';c\n', ' ', '\t\r', 'jp x', '.db 1', ', 2', ' ;'], 5 if res.thorough else 4, MEANING, '', '\n')

def large_trivia(res, exe):
    """Texts too long for TLC, compared with the short one that has the same
    tokens (that trivia leave the tokens alone is LexMC's business)."""
    if res.violations: return
    r = res.rng
    sizes = [5000, 70000] + ([300000] if res.thorough else []) + [n + d for n in novel.numbers(novel.fresh()[0]) if 1000 <= n <= 300000 for d in (-1, 0, 1)][:9]
    groups = gen.c11_large(r, sizes)
    conform(res, exe, [b for b, _ in groups], MEANING)
    meaning = lambda o: (o['exit'], o['hexok'], core.load(o['recs']) if o['hexok'] else None)
    for base, vs in groups:
        obs = core.run_all(exe, [base] + vs)
        if obs[0] is None: continue
        for v, o in zip(vs, obs[1:]):
            if o is not None and meaning(o) != meaning(obs[0]) and reproduces(exe, v, lambda o2: meaning(o2) == meaning(o)):
                res.add('a long comment or blank changes the outcome', {'kind': 'large', 'input': show(v), 'length': len(v), 'base': base, 'observed': {f: o[f] for f in ('exit', 'out', 'err', 'file')}, 'expected': obs[0]['exit']})
        res.validated += len(vs)

def c12(res):
    builder = search.Builder()
    exe = core.build()
    r = res.rng
    novelties(res, exe, MEANING)
    remembered(res, exe, MEANING)
    groups = gen.c12_variants(r, res.thorough)
    metamorphic(res, exe, groups, MEANING)
    conform(res, exe, gen.c12_labels(r, res.thorough) + more.corpus('C12', r, res.thorough), MEANING)
    searched(res, exe, builder, [x for b, vs in groups for x in [b] + list(vs)], MEANING)
    replay_model(res, exe, ['LD ', 'ld ', 'lD ', 'V1', 'va', 'VA', ',', 'dT', '\n', 'x', 'X', ':'], 5 if res.thorough else 4, MEANING, '', '\n')

def c13(res):
    builder = search.Builder()
    exe = core.build()
    r = res.rng
    t = res.thorough
    aspects = {'total'}
    novelties(res, exe, aspects)
    remembered(res, exe, aspects)
    srcs = (gen.fuzz(r, 8000 if t else 3000) + gen.truncations(r, t) + gen.badutf8(r, t) + gen.huge(r, t) + gen.mixed(r, 500, .5)
            + gen.c07(r, False)[:900] + r.sample(gen.charsweep(r, t), 6000 if t else 2500) + gen.reorg(r, 60) + gen.c08(r, False)[:300] + r.sample(gen.columns(r, True), 300) + gen.named(r, 2))
    conform(res, exe, srcs, aspects)
    searched(res, exe, builder, [s for s in srcs if not isinstance(s, core.Named)], aspects)
    further(res, exe, aspects)
    big = gen.enormous(r, t) + more.enormous(r, t)
    obs = core.run_all(exe, big)
    for s, o in zip(big, obs):
        if o is None: continue
        ok = (o['exit'] == 0 and o['file'] == 'new' and o['hexok']) or (o['exit'] == 1 and o['out'])
        if not ok and reproduces(exe, s, lambda o2: o2['exit'] == o['exit']):
            res.add('no verdict on a large input', {'kind': 'large', 'input': show(s), 'length': len(s), 'observed': {f: o[f] for f in ('exit', 'err', 'file')}})
    res.extra['large_inputs'] = len(big)
    res.validated += len(big)
    liveness(res)
    replay_model(res, exe, ['"', '\\', '\n', ';', '[', 'i', ']', '.', ':', ',', '1', '$', '%', 'a', ' ', '\u00e9'], 4 if t else 3, aspects)

def liveness(res):
    """Every behaviour of the specification reaches a verdict (weak fairness)."""
    path = os.path.join(core.scratch(), 'plan.json')
    frags = ['a:\n', 'jp a\n', '.db 1\n', '.org $ffe\n', '"', ',']
    with open(path, 'w') as f:
        json.dump({'frags': [[ord(c) for c in x] for x in frags], 'maxlen': 4 if res.thorough else 3, 'prefix': [], 'suffix': [10]}, f)
    core.tlc_ok('Gen', cfg='GenLive.cfg', env={'C8S_PLAN': path}, dfs=False)
    res.extra['liveness'] = 'checked'

def lexer_model(res):
    core.tlc_ok('LexMC', cfg='LexMCBig.cfg' if res.thorough else 'LexMC.cfg', dfs=False)
    res.extra['lexer_model'] = 'checked'

CHECKS = {p: standard for p in PLANS}
CHECKS.update(C11=c11, C12=c12, C13=c13, C14=iocheck.c14, C16=clicheck.c16, C17=detcheck.c17, C19=isacheck.c19, C20=fscheck.c20)
