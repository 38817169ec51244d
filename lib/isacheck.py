"""C19: decoding and disassembling (spec/Isa.tla, spec/IsaMC.tla)."""
import json, os, re, shutil, subprocess
import core, gen

def harness():
    """The decoder of /repo's working tree on every word; None if it no longer
    has the interface this harness uses."""
    d = os.path.join(core.scratch(), 'harness')
    os.makedirs(d + '/src')
    with open(os.path.join(core.VERIF, 'harness', 'main.rs')) as f: src = f.read().replace('REPO', core.REPO)
    with open(os.path.join(core.REPO, 'Cargo.toml')) as f: toml = f.read()
    m = re.search(r'^\[dependencies\][^\[]*', toml, re.M)
    ed = re.search(r'^edition\s*=.*$', toml, re.M)
    with open(d + '/Cargo.toml', 'w') as f:
        f.write('[package]\nname = "harness"\nversion = "0.0.0"\n%s\n%s\n[workspace]\n' % (ed.group() if ed else '', m.group() if m else ''))
    lock = os.path.join(core.REPO, 'Cargo.lock')
    if os.path.exists(lock): shutil.copy(lock, d + '/Cargo.lock')
    # What only some callers need may be gone from the interface, and the modules may
    # lean on the rest of the crate: try the fullest reading first.
    body = src[src.index('use assembler::'):]
    for whole in (False, True):
        if whole:
            shutil.rmtree(d + '/src')
            shutil.copytree(os.path.join(core.REPO, 'src'), d + '/src')
            with open(d + '/src/main.rs') as f: host = f.read()
            src = re.sub(r'\bfn\s+main\s*\(', 'fn original_main(', host, count=1) + '\nmod harness {\n#![allow(warnings)]\nuse super::*;\n%s\n}\nfn main() { harness::main() }\n' % body.replace('fn main()', 'pub fn main()')
        for drop in ('OTHERWISE', 'OPTIONAL'):
            with open(d + '/src/main.rs', 'w') as f: f.write('\n'.join(l for l in src.split('\n') if not l.endswith('// ' + drop)))
            r = subprocess.run(['cargo', 'build', '--offline'], cwd=d, env=core.cargo_env(os.path.join(core.scratch(), 'target')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            exe = os.path.join(core.scratch(), 'target', 'debug', 'harness')
            if r.returncode == 0 and os.path.exists(exe): break
        else: continue
        break
    else:
        return None, r.stdout[-1500:]
    p = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=core.RUN_ENV, timeout=300)
    rows = {}
    text = lambda h: bytes.fromhex(h).decode('utf-8', 'replace')
    for line in p.stdout.decode('utf-8', 'replace').split('\n'):
        f = line.split(' ')
        if len(f) == 5: rows[int(f[0])] = (int(f[1]), text(f[2]), text(f[3]), text(f[4]))
    return rows, 'exit %d %s' % (p.returncode, p.stderr[-500:].decode('utf-8', 'replace'))

def table():
    out = core.tlc_ok('IsaMC', dfs=False)
    t = {}
    for line in out.split('\n'):
        if line.startswith('"WORD '):
            e = json.loads(json.loads(line)[5:]); t[e['w']] = e
    if len(t) != 65536: raise core.ToolError('IsaMC gave %d words' % len(t))
    return t

def assemble(res, exe, lines):
    """Word each line assembles to, by the real assembler; None if rejected."""
    progs = [lines[k:k + 2000] for k in range(0, len(lines), 2000)]
    obs = core.run_all(exe, ['\n'.join(p) + '\n' for p in progs])
    out, single = [], []
    for p, o in zip(progs, obs):
        img = core.load(o['recs']) if o and o['exit'] == 0 and o['hexok'] else {}
        if len(img) == 2 * len(p):
            out += [256 * img[2 * k] + img[2 * k + 1] for k in range(len(p))]
        else:
            for o2, l in zip(core.run_all(exe, [l + '\n' for l in p]), p):
                im = core.load(o2['recs']) if o2 and o2['exit'] == 0 and o2['hexok'] else {}
                out.append(256 * im[0] + im[1] if sorted(im) == [0, 1] else None)
    return out

def c19(res):
    exe = core.build()
    core.tlc_ok('IsaForms', dfs=False)
    t = table()
    rows, note = harness()
    # what the specification writes for each word, the implementation assembles to that word
    words = sorted(t)
    for wd, got in zip(words, assemble(res, exe, [t[w]['t'] for w in words])):
        if got != t[wd]['c']:
            res.add('%r assembles to %s, not $%04X' % (t[wd]['t'], got, t[wd]['c']), {'kind': 'word', 'word': wd, 'text': t[wd]['t'], 'observed': got, 'expected': t[wd]['c']})
    res.validated += len(words)
    if rows is None:
        res.assumptions.append('decoder not reachable through the interface the harness uses; only the assembling direction was checked: ' + note)
        return
    for wd in words:
        e = t[wd]
        if wd not in rows:
            res.add('decoding $%04X gave no result (%s)' % (wd, note), {'kind': 'word', 'word': wd, 'expected': e, 'observed': note}); continue
        enc, text = rows[wd][:2]
        ok = enc in (wd, e['c']) if e['k'] else enc == 0
        if not ok:
            res.add('$%04X re-encodes as $%04X' % (wd, enc), {'kind': 'word', 'word': wd, 'text': text, 'observed': enc, 'expected': e})
    # every text written for the word assembles to it
    for col in (1, 2, 3):
        lines = [rows[w][col] if w in rows else 'nop' for w in words]
        if col == 3 and all(rows[w][3] == rows[w][1] for w in rows): break
        for wd, line, got in zip(words, lines, assemble(res, exe, lines)):
            if wd in rows and got != t[wd]['c']:
                res.add('$%04X disassembles to %r, which assembles to %s' % (wd, line, got),
                        {'kind': 'word', 'word': wd, 'text': line, 'observed': got, 'expected': t[wd]})
        res.validated += len(lines)
    # the text the implementation writes, read by the specification: its own runs on it conform
    r = res.rng
    texts = [rows[w][1] for w in r.sample(sorted(rows), min(len(rows), 6000 if res.thorough else 3000))]
    import checks
    checks.conform(res, exe, gen.pack(texts, 40), {'exit', 'image'})
    res.validated += len(rows)
    res.extra['words'] = len(rows)
    res.sample({'word': 0xD12F, 'text': rows.get(0xD12F, ('', ''))[1], 'spec': t[0xD12F]['t']})
