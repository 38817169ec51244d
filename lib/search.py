"""Coverage-guided search for behaviours worth recording.  An instrumented build
of the working tree is run on variations of the corpus (shim/runner.c), and the
texts that make it take an edge, repeat a loop or compare values as no earlier
text did are kept.  Nothing is judged here: what is kept is recorded on the
ordinary build and decided by TLC like any other run."""
import os, re, struct, subprocess, threading
import core, gen, novel

FLAGS = ['-Cpasses=sancov-module', '-Cllvm-args=-sanitizer-coverage-level=3', '-Cllvm-args=-sanitizer-coverage-trace-pc-guard',
         '-Cllvm-args=-sanitizer-coverage-trace-compares', '-Ccodegen-units=1']

def _gcc(out, src, *flags):
    path = os.path.join(core.scratch(), out)
    r = subprocess.run(['gcc', '-O2', '-w'] + list(flags) + ['-o', path, os.path.join(core.VERIF, 'shim', src)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode: raise core.ToolError('%s: %s' % (src, r.stdout))
    return path

_tools = None
def tools():
    global _tools
    if _tools is None:
        _tools = (_gcc('runner', 'runner.c'), _gcc('fork.so', 'fork.c', '-shared', '-fPIC'))
    return _tools

class Builder(threading.Thread):
    """The instrumented build, made while the check does something else."""
    def __init__(self):
        threading.Thread.__init__(self, daemon=True)
        self.exe, self.error = None, None
        tools()
        self.cov = _gcc('cov.o', 'cov.c', '-c', '-fPIC')
        self.start()
    def run(self):
        tgt = os.path.join(core.scratch(), 'target-cov')
        e = core.cargo_env(tgt)
        e['CARGO_PROFILE_DEV_OPT_LEVEL'] = '1'
        r = subprocess.run(['cargo', 'rustc', '--offline', '--bin', 'c8s', '--'] + FLAGS + ['-Clink-arg=' + self.cov], cwd=core.REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        exe = os.path.join(tgt, 'debug', 'c8s')
        if r.returncode or not os.path.exists(exe): self.error = r.stdout[-800:]
        else: self.exe = exe

_LABEL = re.compile(r'([A-Za-z_][A-Za-z0-9_]*)\s*:')
def probes(text, diag):
    """The text continued so that what it did to the assembler's state shows: its
    labels' values, the address reached, and (diag) the line and column reached."""
    if not isinstance(text, str): return []
    end = text if text.endswith('\n') else text + '\n'
    uses = ''.join('jp %s\n' % l for l in list(dict.fromkeys(_LABEL.findall(text)))[:12])
    out = [end + uses + 'zz_9: call zz_9\n'] if not diag else [end + 'cls @\n', end + uses + 'foo\n']
    return [x for x in out if x != text]

def pack(texts):
    return b''.join(struct.pack('<I', len(b)) + b for b in map(core.to_bytes, texts))

DICT = ('cls ret trap trapret nop jp call se sne ld add or and xor sub shr subn shl rnd drw skp sknp v0 v1 vA Vf i I [i] [I] dt st k b f .org .db .equ '
        ', : . "a" "" ";" 0 1 2 15 16 255 256 4095 4096 $fff $FFE $10 #0f %101 %1.. x y X loop _ ; $ # % " \\ [').split(' ') + \
       [' ', '\n', ';c\n', 'x:\n', 'y: ', 'x: .equ 5\n', '.equ 5\n', '.org $ffe\n', '.org 0\n', '.org $200\n', '.db 1, 2\n', '.db "ab"\n', 'jp x\n', 'ld v1, x\n',
        'drw v1, v2, x\n', 'cls\n', 'ret\n', 'add i, v1\n', ' ; c', '\t', '\r\n', '\u00e9', '.db 1', ', 2', '.db "\u00e9"\n']

def found(res, builder, corpus, seconds, limit, maxlen=3000):
    """Texts beyond the corpus that made the working tree behave in a new way."""
    builder.join()
    if builder.exe is None:
        res.extra['search'] = 'instrumented build failed: ' + (builder.error or '')[-300:]
        return []
    r = res.rng
    seeds = [s for s in corpus if len(core.to_bytes(s)) <= maxlen]
    if len(seeds) > 2500: seeds = r.sample(seeds, 2500)
    seeds += gen.mixed(r, 250, .3)
    d = core.scratch()
    base = os.path.join(core.arena(), 'search')
    os.makedirs(base, exist_ok=True)
    with open(d + '/seeds', 'wb') as f: f.write(pack(seeds))
    ints, strs = novel.fresh()[:2]
    words = DICT + [str(n) for n in sorted(ints)[:20]] + [s for s in sorted(strs)[:20] if 0 < len(s) < 60]
    with open(d + '/words', 'wb') as f: f.write(pack(words))
    runner, so = tools()
    p = subprocess.run([runner, 'fuzz', builder.exe, so, base, d + '/seeds', d + '/found', str(seconds), str(res.seed), str(core.CORES), d + '/words'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=seconds + 120)
    if p.returncode:
        res.extra['search'] = 'stopped: ' + p.stdout[-300:]
        return []
    with open(d + '/found', 'rb') as f: b = f.read()
    k, out = 0, []
    while k < len(b):
        n = struct.unpack_from('<I', b, k + 1)[0]
        t = b[k + 5:k + 5 + n]
        try: t = t.decode('utf-8')
        except UnicodeDecodeError: pass
        out.append((b[k], t)); k += 5 + n
    runs, kept = p.stdout.split()
    # a new edge first, then a new number of repetitions, then new values compared
    out.sort(key=lambda x: -x[0])
    res.extra['search'] = {'runs': int(runs), 'kept': int(kept), 'new_edges': sum(w == 3 for w, _ in out), 'judged': min(limit, len(out)), 'seeds': len(seeds), 'seconds': seconds}
    return [t for _, t in out[:limit]]
