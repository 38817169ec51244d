"""Input generation guided by the sources: numbers, characters and strings that
the working tree mentions more often than the tree this framework was written
for (lib/literals.json) are tried as sizes, counts, values, positions and names.
They only steer which inputs are explored; every verdict is the specification's."""
import collections, json, os, re, sys
import core, gen
from core import Named

_TOKEN = re.compile(r'''
   //[^\n]* | /\*.*?\*/
 | b?r(?P<h>\#*)"(?P<raw>.*?)"(?P=h)
 | b?"(?P<str>(?:[^"\\]|\\.)*)"
 | b?'(?P<chr>\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^'\\\n])'
 | '[A-Za-z_]\w*
 | (?P<num>0x[0-9a-fA-F_]+|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|128|size))?
 | [A-Za-z_]\w*
''', re.X | re.S)

def unescape(s):
    m = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'", '\n': ''}
    def f(x):
        e = x.group(1)
        if e[0] == 'u': return chr(int(e[2:-1], 16))
        if e[0] == 'x': return chr(int(e[1:], 16))
        return m.get(e[0], e)
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', f, s, flags=re.S)

def literals(text):
    ints, strs = collections.Counter(), collections.Counter()
    for m in _TOKEN.finditer(text):
        if m.group('num'):
            try: ints[int(m.group('num').replace('_', ''), 0 if m.group('num')[1:2] in ('x', 'b', 'o') else 10)] += 1
            except ValueError: pass
        elif m.group('raw') is not None: strs[m.group('raw')] += 1
        elif m.group('str') is not None: strs[unescape(m.group('str'))] += 1
        elif m.group('chr') is not None: strs[unescape(m.group('chr'))] += 1
    return ints, strs

def tree():
    ints, strs = collections.Counter(), collections.Counter()
    for root, _, fs in os.walk(os.path.join(core.REPO, 'src')):
        for n in sorted(fs):
            if n.endswith('.rs'):
                with open(os.path.join(root, n), encoding='utf-8', errors='replace') as f:
                    a, b = literals(f.read())
                ints += a; strs += b
    return ints, strs

BASELINE = os.path.join(core.VERIF, 'lib', 'literals.json')
def fresh():
    """(numbers, strings) the tree mentions more often than the baseline did."""
    try:
        with open(BASELINE) as f: b = json.load(f)
    except OSError:
        return [], []
    ints, strs = tree()
    bi = {int(k): v for k, v in b['ints'].items()}
    ni = sorted(k for k, v in ints.items() if v > bi.get(k, 0))
    ns = sorted((k for k, v in strs.items() if v > b['strs'].get(k, 0)), key=lambda s: (len(s), s))
    return ni[:10], ns[:12]

def numbers(ni):
    """The numbers themselves, their neighbours, and what two of them make."""
    out = []
    def add(v):
        if 0 <= v <= 70000 and v not in out: out.append(v)
    for n in ni:
        for d in (0, 1, -1): add(n + d)
    for n in ni:
        for m in (2, 3): add(n * m)
        for m in (n * 2 + 1, n * 2 - 1, n + 2, n + 16): add(m)
        if n < 16: add(1 << n)
    for a in ni[:4]:
        for b in ni[:4]:
            for v in (a + b, a * b, a * b + 1, abs(a - b)): add(v)
    return out[:48]

def by_number(rng, n):
    """Programs in which n is a size, a count, a position or a value."""
    out = []
    E = lambda *l: out.append('\n'.join(l) + '\n')
    tail = ['cls', 'x: jp x', '.db 1, 2']
    if n <= 4100:                                               # sizes
        s = 'z' * n
        for org in ('', '.org $200\n', '.org 1\n', '.org %d\n' % max(0, 4095 - n), '.org %d\n' % max(0, 4094 - n)):
            out += [org + '.db "%s"\n' % s, org + '.db "%s"\nq: jp q\n' % s, org + '.db "%s"\n.org 0\n.db 7\n' % s]
        E('.db "%s", %d, "%s"' % (s[:n // 2], n % 256, s[n // 2:])); E('.db "' + '\u00e9' * (n // 2) + '"'); E('.db "' + '\u20ac' * (n // 3 + 1) + '"'); E('.db ' + ', '.join(['1'] * max(n, 1))); E('.db ' + ', '.join(['"a"'] * min(max(n, 1), 1100)))
        E('.db ' + ', '.join(['1'] * max(n, 1)), 'x: jp x')
        E('.db "%s" ; c' % ('\\"' * (n // 2)), 'cls'); E('.org $100', '.db "%s"' % s, '.org $100', '.db 1'); E('.org $100', '.db "%s"' % s, '.org %d' % min(4095, 0x100 + n), '.db 1'); E('.org $100', '.db "%s"' % s, '.org %d' % min(4095, max(0, 0xff + n)), '.db 1')
        E(*(['cls'] * min(n, 2048))); E(*(['cls'] * min(n, 2048) + ['x: jp x'])); E('.org 1', *(['cls'] * min(n, 2048) + tail))
        E(*(['x:', 'jp x'] + ['.db 3'] * n)); E(*(['.db 3'] * n + tail)); E('jp y', *(['.db 3'] * n + ['y: ret']))
        E('cls', '.db "%s" @' % s); E('cls', '.db "%s' % s)
    if n <= 3000:                                               # lengths of words and blanks
        w = 'x' * max(n, 1)
        E(w + ':', 'cls', 'jp ' + w); E(w + 'a: .equ 5', w + 'b: .equ 6', w + ': .equ 7', 'jp %sa' % w, 'jp %sb' % w, 'jp ' + w); E('jp ' + w); E(w + ':', w + ':'); E(w); E('.' + w + ' 1'); E('jp %sa' % w, w + 'b:')
        E('jp ' + '0' * n + '5'); E('jp ' + '0' * n); E('jp %' + '0' * n + '101'); E('jp %' + '.' * n + '1'); E('jp %' + '1' * n); E('jp %1' + '.' * (n - 1)); E('jp %1' + '0' * (n - 1)); E('jp %' + ''.join(rng.choice('01.') for _ in range(n))); E('jp %1.' + ''.join(rng.choice('01.') for _ in range(n - 2))); E('jp ' + '9' * max(n, 1)); E('jp $' + '0' * n); E('.db $%s1' % ('0' * n))
        E(' ' * n + 'cls'); E(' ' * n + '@'); E('jp' + ' ' * n + '5'); E('cls' + '\t' * n + ';c', 'ret'); E(';' + 'c' * n, 'cls'); E('cls ;' + 'c' * n, 'ret', '@'); E('ld v1,' + ' ' * n + '$'); E('ld v1' + ' ' * n + ', 5')
        E('.db 1 ;' + 'c' * n, '.db 2')
        out += ['\n' * n + 'cls\n', '\n' * n + '@\n', 'cls\n' + '\n' * n + 'ret\n@\n', ';c\n' * n + 'jp nowhere\n', ';c\n' * n + 'cls\n', 'x:' + '\n' * n + '.equ 5\njp x\n', 'x:\n' + ';\n' * n + '.equ 5\njp x\n', '.db "a' + '\n' * n + 'b" @\n']
        E('ld ' + ', '.join(['v1'] * n)); E('cls ' + ', '.join(['1'] * n)); E('.org ' + ', '.join(['1'] * n)); E('.db 1' + ',' * n + '2'); E('.db ' + '"' * n); E('a: ' * n); E(':' * n); E('.' * n); E(',' * n)
    if n <= 1200:                                               # counts
        k = max(n, 1)
        names = ['l%d' % j for j in range(k)]
        E(*['%s: .db %d' % (x, j % 256) for j, x in enumerate(names)] + ['jp ' + names[0], 'jp ' + names[-1], 'jp ' + names[k // 2], 'ld i, ' + rng.choice(names)])
        E(*['jp ' + names[0], 'jp ' + names[-1]] + ['%s: cls' % x for x in names]); E(*['%s: .equ %d' % (x, j % 4096) for j, x in enumerate(names)] + ['jp ' + x for x in rng.sample(names, min(k, 40))])
        E(*['%s:' % x for x in names] + ['.equ 5', 'jp ' + names[0], 'jp ' + names[-1]]); E(*['%s:' % x for x in names] + [names[0] + ':']); E(*['%s:' % x for x in names] + ['jp ' + names[-1], 'jp l%d' % k])
        if k <= 450:
            secs = ['.org %d\n.db %d' % (j * 9, j % 256) for j in range(k)]
            E(*secs); mixed = list(secs); rng.shuffle(mixed); E(*mixed); E(*(secs + ['.org 0', '.db 1'])); E(*(mixed + ['.org %d' % ((k - 1) * 9), '.db 1']))
            if k <= 30: E(*(['.org 5\n.db 1'] * k))
            m = int((2 * k) ** .5)                              # as many pairs of sections that overlap
            for j in (m, m + 1, m + 2):
                if j <= 45: E(*(['.org 5\n.db 1'] * j))
        E(*(['.org %d' % (j % 4096) for j in range(k)] + ['cls'])); E(*(['.db ""'] * k + ['cls'])); E(*(['cls\n.org $100'] + ['.org %d' % (0x100 + j) for j in range(k)] + ['ret']))
    # values
    if n <= 4200:
        for sp in ('%d' % n, '$%x' % n, '#%X' % n, '%' + bin(n)[2:], '0%d' % n, '%.' + bin(n)[2:].replace('0', '.')):
            for c in ('jp %s', '.db %s', '.db 1, %s, 2', '.org %s\ncls', '.org %s', '.org %s\n.org 5\ncls', 'x: .equ %s\njp x', 'ld v1, %s', 'drw v1, v2, %s', 'ld i, %s', 'jp v0, %s', 'se v3, %s', 'rnd va, %s', 'call %s', 'cls\n.org %s\nx:\n.org $300\njp x', 'jp x\nx: .equ %s', 'x: .equ %s\nld v1, x\nld i, x', '.db 1\n.org %s\n.db 2, 3'):
                if sp == '%d' % n or rng.random() < .25: out.append(c % sp + '\n')
        if n < 4090:
            E('.org %d' % n, 'x: cls', 'jp x', '.db "abc"'); E('jp x', '.org %d' % n, 'x:'); E('.org %d' % n, '.db 1', '.org %d' % n, '.db 1'); E('.org %d' % n, '.db 1, 2, 3', '.org %d' % (n + 3), '.db 4'); E('.org %d' % n, '.db 1, 2, 3', '.org %d' % (n + 2), '.db 4')
            E('.org %d' % n, '.db "' + 'q' * min(40, 4095 - n) + '"'); E('cls', '.org %d' % n, '.org $300', 'ret'); E('.org $300', 'ret', '.org %d' % n)
            E('.org %d' % max(0, n - 16), '.db "' + 'q' * min(33, 4095 - max(0, n - 16)) + '"')
    b = n % 256
    E('.db %d' % b); E('.db %d, %d' % (b, b)); E('.db ' + ', '.join([str(b)] * 16)); E('.db ' + ', '.join([str(b)] * 40)); E('.db 1, %d' % b); E('.db %d, 1' % b); E('.db "a", %d, "b"' % b)
    for f in gen.FORMS:
        if f[1] and f[1].split()[-1] in gen.WIDTH:
            v = n % gen.WIDTH[f[1].split()[-1]]
            ops = gen.operands(rng, f[1], lambda w: str(v))
            E(f[0] + ' ' + ', '.join(ops)); E('k: .equ %d' % v, f[0] + ' ' + ', '.join(ops[:-1] + ['k']))
        if 'r' in f[1].split():
            E(f[0] + ' ' + ', '.join('v%x' % (n % 16) if k == 'r' else o for k, o in zip(f[1].split(), gen.operands(rng, f[1], lambda w: '3'))))
    if n < 0x110000 and not 0xd800 <= n < 0xe000: out += by_string(rng, chr(n), False)
    return out

def by_string(rng, s, full=True):
    """Programs in which s is a name, contents, a comment, or in the way."""
    out = []
    q = s.replace('\\', '\\\\').replace('"', '\\"')
    for c in ('.db "%s"\n', '.db "a%s"\n', '.db "%sb"\n', '.db "a%sb", 1\nx: jp x\n', '.db 1 ; %s\n.db 2\n', '; %s\ncls\n', 'cls ;%s\nret\n', '.db "%s" @\n', '.db "x", "%s", "y"\n'):
        out.append(c % q if '"' in c else c % s.replace('\n', ' '))
    for n in (2, 3, 16): out.append('.db "%s"\n' % (q * n))
    for c in ('%s\n', 'cls\n%s\nret\n', 'cls %s\nret\n', '%s:\ncls\njp %s\n', '%s: .equ 5\njp %s\n', 'jp %s\n', 'jp %s\nret\n', 'ld %s, v1\n', 'ld v1, %s\n', '%s v1, v2\n', '.%s 1\n', '.%s\n', '.db %s\n', '.db 1 %s 2\n', '.db 1, %s\n', '.org %s\ncls\n', 'x%s: jp x\n', 'x%s:\njp x%s\n', '%sx: jp %sx\n', 'jp %s1\n', 'jp 1%s\n', 'cls%scls\n', 'a%sb: cls\n', '%scls\n', 'cls\n%s', 'cls%s', 'ld v%s, 1\n', 'jp $%s\n', 'jp %%%s1\n', 'drw v1, v2, %s\n', 'ld [%s], v1\n', 'shr %s\n', '%s 1\n', '%s v1\n', '%s 5, 6\n', 'x: %s\njp x\n', '%s: .db 1\n%s: .db 2\n', 'call %s\n%s:\n'):
        out.append(c.replace('%%', '\0').replace('%s', s).replace('\0', '%'))
    if full and re.fullmatch(r'[A-Za-z_]\w*', s, re.A):
        for v in {s.lower(), s.upper(), s.title(), s + '_', s + '0', '_' + s, s[:-1] or s, s * 2}:
            out += ['%s:\ncls\njp %s\n' % (v, v), '%s: .equ 9\n%s: .equ 8\njp %s\njp %s\n' % (s, v, s, v), 'jp %s\n%s:\n' % (s, v), '%s v1, 2\n' % v, '.%s 1\n' % v, '%s: %s: jp %s\n' % (s, v, v), 'ld v1, %s\n%s: .equ 3\n' % (v, v)]
        for f in gen.FORMS:
            if f[1] and f[1].split()[-1] in gen.WIDTH:
                for v in (4, 7): out.append('%s: .equ %d\n%s %s\n' % (s, v, f[0], ', '.join(gen.operands(rng, f[1], lambda w: s))))
            else: out.append('%s: %s %s\n' % (s, f[0], ', '.join(gen.operands(rng, f[1], None))))
    if full:
        for d in ('1', '0', '101', '000000000001', '00000000000', '0000000000', '11', '.', '5', 'f'):
            out += ['jp %%%s%s\n' % (s, d), 'jp %s%s\n' % (s, d), 'jp $%s%s\n' % (s, d), 'jp %s%s\n' % (d, s), 'jp %%%s%s\n' % (d, s), '.db %s%s, 2\n' % (s, d)]
    for _ in range(6 if full else 2):
        p = gen.program(rng, 6, bad=.1)
        k = rng.randrange(len(p) + 1)
        out.append(p[:k] + s + p[k:])
    return out

def cost(p):
    """Roughly how long TLC takes over a program, in seconds of one core."""
    return .004 + 2e-6 * len(p) + 3e-6 * p.count('\n') ** 2 + 2e-6 * p.count(',') ** 2 + 2e-6 * (p.count('"') / 2) ** 2

def programs(rng, budget=150):
    """The corpus the current sources suggest; empty on the tree this was written for."""
    ni, ns = fresh()
    nums = numbers(ni)
    first = nums[:3 * len(ni)]
    groups = [by_string(rng, s) for s in ns] + [by_number(rng, n) for n in first]
    keep = {}
    def take(groups, limit):
        spent = 0
        groups = [list(dict.fromkeys(g)) for g in groups]
        for g in groups: rng.shuffle(g)
        while any(groups) and spent < limit:
            for g in groups:
                while g:
                    p = g.pop()
                    if p not in keep and cost(p) < limit / 8:
                        keep[p] = 1; spent += cost(p)
                        break
        return spent
    spent = take(groups, budget * .8)
    take([by_number(rng, n) for n in nums[len(first):]], (budget - spent) * .6)
    return list(keep)

if __name__ == '__main__':
    a, b = tree()
    with open(BASELINE, 'w') as f:
        json.dump({'ints': {str(k): v for k, v in sorted(a.items())}, 'strs': dict(sorted(b.items()))}, f, indent=0, ensure_ascii=True)
        f.write('\n')
