"""Corpora and relations that are not part of the library's blocks (lib/library.py
makes its texts from lib/gen.py alone, so this file can grow without making it stale)."""
import core, gen, novel

WORDS = ['a', 'k9', 'loop', 'Start', '_x', 'x_', 'l01', 'draw_sprite', 'Main_Loop_2', 'vx', 'v12', 'equ', 'org', 'cls', 'jp', 'dtx', '__', 'Zz9_']

def near(rng, n):
    """Names that are almost n."""
    i = rng.randrange(len(n))
    alpha = 'abcxyzABCXYZ_'
    out = ['_' + n, n + '_', '__' + n, n + '__', n + '0', n + '1', n + 'a', 'x' + n, 'v' + n, n[:-1], n[1:], n.lower(), n.upper(), n.swapcase(), n.title(), n * 2, n[::-1], n.replace('_', ''), n.strip('_'),
           n.rstrip('0123456789'), n + n[-1], n[0] + n, n[:i] + '_' + n[i:], n[:i] + rng.choice(alpha) + n[i + 1:], n[:i] + n[i + 1:], n.replace('0', ''), n.replace('0', 'O'), n.replace('1', 'l'), n.replace('l', '1'), n.replace('_', '__'),
           n[:8], n[:16], n[:31], n[:32], n[:64], n.replace('x', 'X'), n[:1].swapcase() + n[1:], n[:-1] + n[-1:].swapcase(), n + '_end', n + '_1', 'l_' + n, n + 's', n.split('_')[0], n.split('_')[-1]]
    if len(n) > 1: out += [n[:i - 1] + n[i:i + 1] + n[i - 1:i] + n[i + 1:] if i else n[1] + n[0] + n[2:]]
    if n[-1].isdigit(): out += [n[:-1] + '0' + n[-1], n[:-1] + str((int(n[-1]) + 1) % 10)]
    return [x for x in dict.fromkeys(out) if x and x != n and not x[0].isdigit() and not gen.isreg(x)]

def neighbours(rng, thorough):
    """Names next to each other: one defined and the other used, or both defined apart."""
    out = []
    words = list(WORDS) + [gen.label(rng) for _ in range(60 if thorough else 14)] + ['n' * k + '7' for k in (7, 15, 30, 31, 32, 62, 63, 64)]
    for n in words:
        if gen.isreg(n): continue
        for m in near(rng, n):
            if m.startswith('v') and rng.random() < .3 and not thorough: continue
            k = rng.randrange(6)
            a, b = (n, m) if rng.random() < .5 else (m, n)
            use = rng.choice(['jp %s', 'call %s', 'ld i, %s', 'jp v0, %s', 'ld v1, %s', 'drw v1, v2, %s', 'se v1, %s'])
            if k == 0: out.append('cls\n%s:\n%s\n' % (a, use % b))
            elif k == 1: out.append('%s\n%s: .equ 7\n' % (use % b, a))
            elif k == 2: out.append('nop\n%s:\ncls\n%s: jp %s\njp %s\n' % (a, b, a, b))
            elif k == 3: out.append('%s: .equ 3\n%s: .equ 9\n%s\n%s\n' % (a, b, use % a, use % b))
            elif k == 4: out.append('%s\n%s\n%s: cls\n%s: .equ 5\n' % (use % a, use % b, a, b))
            else: out.append('other: .equ 6\n%s: .equ 8\n%s\n' % (b, use % a))
    return out

NEXT = ['.', '.db 1', '. db 1', '.org 5', 'x:', 'x: cls', 'cls', 'ret', 'ld v1, 2', '1', '$ff', '%1', '"s"', '""', ':', ',', '[i]', 'i', 'v1', ';c', '', '@', 'dt', 'q', '"', '$', '[']

def junctions(rng, thorough):
    """Every kind of statement with up to five arguments, followed on its line by
    every kind of token, with and without separators."""
    out = []
    ops = ['v1', 'v2', '3', 'i', 'q', '$1f', 'dt', '[i]']
    args = ['1', '$2', '"s"', '%11', '""', '"a b"', '255']
    for n in range(6):
        for sep in ('', ' ', ', ', ',', ' , ,', ',\n', ' ,;c\n'):
            for x in NEXT:
                if n > 3 and not thorough and rng.random() < .5: continue
                heads = ['%s %s' % (rng.choice(['ld', 'jp', 'drw', 'cls', 'foo', 'add', 'shr']), ', '.join(rng.choice(ops) for _ in range(n)))]
                good = [f for f in gen.FORMS if len(f[1].split()) == n]
                if good:
                    f = rng.choice(good)
                    heads.append('%s %s' % (f[0], ', '.join(gen.operands(rng, f[1], lambda w: '3'))))
                heads.append('.db ' + ', '.join(rng.choice(args) for _ in range(n)))
                if n <= 1: heads += ['y: .equ ' + ', '.join(['7'] * n), '.org ' + ', '.join(['9'] * n), 'y:' * n]
                for h in heads:
                    out.append('%s%s%s%s' % (h, sep, x, rng.choice(['\n', '\n', '\n', '', ' ;c\n', '\nq: ret\n'])))
    return out

def at_the_top(rng, thorough):
    """Data of every shape around the top of memory."""
    shapes = ['""', '"", ""', '"", "", ""', '1', '"", 1', '1, ""', '"a"', '"", "a"', '"a", ""', '1, 2', '"ab"', '"a", 1', '"\u00e9"', '"\u00e9", 1', '"\u20ac"', '"", "\u20ac", ""', '1, 2, 3', '"\U0001f600"', '1, "ab", ""', '"", 256', '256, ""', '', '"", "",']
    out = []
    for a in range(0xff8, 0x1000):
        for s in shapes:
            out.append('.org %d\n.db %s\n' % (a, s))
            k = rng.randrange(5)
            out.append(['.org %d\n.db %s\nx:\n.org 0\njp x\n', '.org 0\nret\n.org %d\n.db %s\n', '.org %d\n.db %s\ncls\n', '.org %d\n.db %s\n.db ""\n.org 5\ncls\n', '.org %d\n.db %s\n.db 1\n'][k] % (a, s))
    for s in shapes[1:]:
        for n in range(1, 4):
            out.append('.org $ffc\n' + ('.db %s\n' % s) * n)
    return out

SIZED = ['cls', 'ret', 'jp 5', 'ld v1, 2', 'drw v1, v2, 3', '.db 1', '.db ""', '.db "", ""', '.db "", "", ""', '.db "", 1', '.db 1, ""', '.db 1, 2', '.db 1, 2, 3', '.db "a"', '.db "ab"', '.db "a", "b"', '.db "\u00e9"', '.db "\u20ac", 1', '.db "\U0001f600"', '.db "\\n"', '.db "\\\\"', '.db "\\""', '.db " "',
         '.db "a b", "c"', '.db ";"', '.db "\n"', '.db "\r\n"', '.db "a\nb", 2', '.db 0', '.db 255, 0', '.db "' + 'x' * 255 + '"', '.db "' + 'x' * 256 + '"', '.db ' + ', '.join(['1'] * 255), '.db ' + ', '.join(['1'] * 256), '.db ' + ', '.join(['""'] * 9), '.org 0', '.org 1', '.org $200', '.org $ffe', '.org $fff', '.org 5\n.org 3', 'p:', 'p: .equ 7',
         'p: .equ 0', 'p:\nr:', 'p:\nr: .equ 9', ';c', '', '.db "",', '.db 1,', '.db\t1', '.DB 1', '.Org 9', '. db 1']

def sized(rng, thorough):
    """A label after every kind of statement, and after every two of them."""
    out = []
    for s in SIZED:
        for t in ('x: jp x', 'x:\nld i, x', 'jp x\n.org $300\ncls\nx: ret'):
            out.append('%s\n%s\n' % (s, t))
        out += ['jp x\n%s\nx:\n' % s, 'cls\n%s\nx: .db 1\njp x\n' % s, '.org $123\n%s\nx: call x\n' % s, 'x: %s\ny: jp x\njp y\n' % s, '%s\nx: .db "", ""\ny:\njp x\njp y\n' % s]
        for u in SIZED:
            if thorough or rng.random() < .4:
                out.append('%s\nx: %s\ny:\njp x\njp y\n' % (s, u) if rng.random() < .5 else '%s\n%s\nz: jp z\n' % (s, u))
    return [t for t in out if t.count('p:') < 2]

def distances(rng, thorough):
    """Overlapping sections any number of sections apart."""
    out = []
    for n in (520, 521) + ((1040, 1041) if thorough else ()):
        half = n // 2
        at = [3 * min(i, n - 1 - i) for i in range(n)]
        if rng.random() < .5: at = [3 * half - a for a in at]
        out.append(''.join('.org %d\n.db %d%s\n' % (a, i % 256, ', 1' if i % 3 == 0 else '') for i, a in enumerate(at)))
    for d in [2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 254, 255, 256, 257, 300]:
        a = rng.randrange(3000, 4000)
        mid = ''.join('.org %d\n.db 1\n' % (k * 5) for k in range(d - 1))
        out.append('.org %d\n.db 1, 2\n%s.org %d\n.db 3\n' % (a, mid, a + rng.choice([0, 1, 2])))
    return out

LIKE = ['$1f', '$f', '%101', '%00000001', '255', '0', '7', '65', '0x10', '0x41', '1e3', '-1', '+1', "'a'", 'a', 'A', 'cls', 'ret', 'v1', 'V0', 'vf', 'i', '[i]', 'dt', '.db 1', '.org 5', 'db', 'org', 'equ', ';c', '; ', 'a:', 'lab', 'lab:', ',', '1, 2', 'x,y', ' ', '  ', '\t', '\n', '\r\n',
        '\\n', '\\t', '\\0', '\\x41', '\\u0041', '\\\\', '\\"', '\\', '{}', '{0}', '%s', '%d', '%%', '$$', '$', '%', '@', '#', '#1', '&amp;', '<', '>', '(1)', 'jp lab', 'true', 'null', '.', ':', '::', '[', ']', '/*c*/', '//c', '\0', '\x01', '\x7f', '00', '007', '1f', 'ff', 'FF', '$', '$FFF', '%2',
        '\ufeff', '\u00a0', '\u2028', '\u200b', 'e\u0301', '\u00df', '\u0130', ':00000001FF', 'include "x"', '"', '^A', '~', '!', '?', '`', '|', '=', 'a=1', '\\e', "it's", 'caf\u00e9', 'x' * 16, 'x' * 17, '0' * 16, '1' * 32, 'cls\n', '\ncls', 'a\tb', ' lead', 'trail ', 'lab+1']

def lookalikes(rng, thorough):
    """Strings that look like something else, alone and in lists."""
    out = []
    for a in dict.fromkeys(LIKE):
        q = '"%s"' % a
        out += ['.db %s\n' % q, 'lab: .db %s, 1\njp lab\n' % q, '.db 1, %s\n' % q, '.db %s, %s\n' % (q, q), '.db "", %s, "%s"\ncls\n' % (q, rng.choice(LIKE))]
        out.append('%s %s\n' % (rng.choice(['.org', 'k: .equ', 'jp', 'ld v1,', 'lab: call', '', 'cls', '.foo']), q))
        out.append('.org $%x\n.db %s\n' % (0x1000 - len(a.encode()) + rng.randrange(2), q))
    return out

def wordlines(rng, thorough):
    """Words and other tokens before and after every statement on its line."""
    words = ['_', '_a', 'a', 'A9', 'x_y', 'zz', 'cls', 'ret', 'jp', 'ld', 'db', 'org', 'equ', 'nop', 'v1', 'i', 'dt', 'st', 'k', 'f', 'b', '1', '0', '$a', '%1', '"s"', '[i]', ',', ':', '.', '.db', '.org', '.equ', 'lab', 'rep', 'macro', 'include', 'end', 'lab:', '_:', 'a b', 'not', 'else', 'ldx', 'v16', 'hi', 'lo', 'sys', 'byte', 'word']
    words += [w for w in novel.fresh()[1] if 0 < len(w) < 20 and '\n' not in w and '"' not in w][:8]
    out = []
    for f in gen.FORMS:
        st = '%s %s' % (f[0], ', '.join(gen.operands(rng, f[1], lambda w: '3')))
        for w in (words if thorough else rng.sample(words, 12)):
            out += ['%s %s\n' % (w, st.strip()), '%s %s\n' % (st.strip(), w)]
    for st in ('cls', 'ret', '.db 1', '.org 5', 'x: .equ 7', 'x:', 'x: cls', 'jp 5', '.db "s"', 'ld v1, 2', ''):
        for w in words:
            out += ['%s %s\n' % (w, st), '%s %s\n' % (st, w), '%s\t%s %s\nret\n' % (rng.choice(words), w, st), '%s:%s %s\n' % (rng.choice(words), w, st), '%s %s %s\n' % (w, w, st), '%s %s\nlab: %s\n' % (w, st, rng.choice(words))]
    return out

def enormous(rng, thorough):
    """Many of anything: lines, tokens, statements, mistakes.  Only totality is judged."""
    n = 400000 if thorough else 120000
    units = [';c\n', ' \n', '\r\n', ';\n', '\t;c\n', '.db ""\n', '.db "",""\n', 'cls ;c\n', ';c\n\n', 'a: .equ 1\n', ':', ': ', 'x ', 'x\n', '1 ', '1\n', '"" ', '""\n', '"a"', '$1 ', '%1 ', '. ', '.x ', '.db\n', '.db ', '.org 0\n.db ""\n', ', ', ',\n', '1,', '"",', 'v1 ', 'v1,', 'jp\n', 'jp x\n', '[i] ', '[i],', 'i ', '@', '@\n', '$', '$\n', '%\n', '" ', '\\', '\\\n',
             'x: ', 'x:\n', 'x: x:\n', '.equ 1\n', '.org 5\n', '.org\n', 'ld v1,\n', 'ld v1, v2 ;c\n', '\u00e9', '\u00e9\n', '\ufeff', '\x0c', '\x0b', '\t', '\r', '\u2028', '\0\n', '.db 256\n', '.db 1,\n', 'foo 1\n', '.foo\n', '.org 0\n.db 1\n']
    units += [a + b for a, b in zip(rng.sample(units, 20), rng.sample(units, 20))]
    out = []
    for u in units:
        k = max(1, min(n, 500000 // len(u.encode()))) if not thorough else n
        if u in ('.org 0\n.db 1\n',) or ('.org' in u and '.db 1' in u): k = 2500
        out.append(u * k)
        if rng.random() < .4: out.append('cls\n' + u * k + 'ret\n')
        if rng.random() < .2: out.append('.db ' + u * k + '\n')
        if rng.random() < .2: out.append('.db 1, ' + u * k + '\n')
    return out

PUNCT = "!#&'()*+-/<=>?@[\\]^`{|}~.:;,$%\"" + '\u00e9\u00b7\u2019\u203f\u0301\u0660\u200d\u00aa\u30fb\x7f\x1b'

def punctuated(rng, thorough):
    """Names, numbers and strings with every other character (here ~) in or next to them."""
    out = []
    for c in PUNCT:
        put = lambda w: w.replace('~', c)
        for w in ('a~1', 'a~b', '~a', 'a~', '_~', 'a1~2', 'a~~b', 'a~1~2', '~a~'):
            out += [t.replace('NAME', put(w)) for t in ('NAME: jp NAME\n', 'NAME: .equ 5\nld v1, NAME\n')]
            if thorough or rng.random() < .5: out += [t.replace('NAME', put(w)) for t in ('cls\njp NAME\nNAME:\n', 'a: jp NAME\n', '.db NAME\n', 'NAME\n')]
        for w in ('1~2', '$1~f', '$~1', '%~1', '%1~0', '1~', '~1', '$f~', '%1~', '0~1', '12~345', 'v~1', 'v1~', '[i~]', '[~i]', '[i]~', 'i~', 'd~t', 'k~'):
            forms = ['.db NUM\n', 'ld v1, NUM\n', 'jp NUM\n', '.org NUM\ncls\n', 'a: .equ NUM\njp a\n', 'ld NUM, v1\n']
            out += [t.replace('NUM', put(w)) for t in (forms if thorough else rng.sample(forms, 2))]
        for w in ('c~ls', 'cls~', '~cls', '.d~b 1', '.~db 1', '.db~ 1', '.db~1', 'a~: cls', 'a:~ cls', 'ld~v1, 2', 'ld v1~, 2', 'ld v1,~ 2', 'ld v1, 2~', 'ld v1 ~ 2', 'ret ~', '~ ret', '.org~5', '.db "a"~', '.db ~"a"', '.db "a"~"b"', '.db "a~b"', 'cls~ret'):
            out.append(put(w) + '\n')
    return out

def repeats(rng, thorough):
    """Sections that come back, next to each other or further apart, with the
    same bytes or others, empty ones and other directives among them."""
    out = []
    kinds = ['.org 9\n.db 3\n', '.org 9\n.db 4\n', '.org 5\n.db 2\n', '.org 40\ncls\n', '.org 9\n', '.org 9\n.db ""\n', '.org 70\n.db "ab"\n', '.org 10\n.db 3\n', 'ret\n', '.db 3\n']
    for a in kinds:
        for b in kinds:
            for pre in ('', '.db 1\n', '.org 100\n.db 1\n'):
                for post in ('', '.org 20\ncls\n', 'x: jp x\n'): out.append(pre + a + b + post)
    for _ in range(3000 if thorough else 500):
        l = [rng.choice(kinds) for _ in range(rng.randrange(3, 8))]
        out.append(''.join(l))
    return out

def preamble(rng):
    """What may come before: labels, constants, sections, blanks, in any number."""
    parts = []
    n = rng.choice([1, 2, 3, 4, 5, 7, 9, 17])
    kind = rng.choice('lllecsdim')
    for k in range(n):
        c = kind if kind != 'm' else rng.choice('lecsdi')
        parts.append({'l': 'pre%d:\n', 'e': 'pre%d: .equ %d\n', 'c': '; %d\n', 's': '.org %d\n.db %d\n', 'd': '.db ""\n', 'i': 'nop\n'}[c])
        if c == 'l': parts[-1] %= k
        elif c == 'e': parts[-1] %= (k, rng.randrange(4096))
        elif c == 'c': parts[-1] %= k
        elif c == 's': parts[-1] %= (900 + 3 * k, k)
    return ''.join(parts)

def history(f, n):
    """Inputs of a corpus after a preamble, some with as much after them."""
    def g(r, t):
        l = [x for x in f(r, t) if isinstance(x, str) and len(x) < 1500]
        l = r.sample(l, min(n * (3 if t else 1), len(l)))
        return [preamble(r) + x + (preamble(r).replace('pre', 'post').replace('.org 9', '.org 7') if r.random() < .3 else '') for x in l]
    return g

both = lambda *fs: lambda r, t: [x for f in fs for x in f(r, t)]
some = lambda f, n: lambda r, t: (lambda l: l if t else r.sample(l, min(n, len(l))))(f(r, t))
CORPORA = {'C02': both(some(both(junctions, wordlines), 1400), some(punctuated, 300)), 'C03': both(neighbours, sized), 'C04': both(neighbours, some(sized, 400)), 'C05': both(some(both(junctions, at_the_top), 900), lookalikes), 'C06': both(some(at_the_top, 200), some(sized, 500), some(repeats, 600)), 'C07': at_the_top, 'C08': both(distances, some(repeats, 300)), 'C11': some(junctions, 500),
           'C12': neighbours, 'C10': both(some(lookalikes, 300), some(punctuated, 500)), 'C15': both(some(junctions, 1200), some(wordlines, 700)), 'C18': both(punctuated, junctions, wordlines, some(neighbours, 250))}

def corpus(pid, rng, thorough):
    if pid not in CORPORA: return []
    f = CORPORA[pid]
    return f(rng, thorough) + history(f, 700 if pid == 'C07' else 250)(rng, thorough)

def mosaics(rng, thorough):
    """Lists of parts, each a section that meets no other, so that the records
    of the whole are those of the parts, one after the other."""
    one = lambda a, n: '.org %d\n%s\n' % (a, '.db ' + ', '.join(str(rng.randrange(256)) for _ in range(n)) if n != 2 or rng.random() < .5 else rng.choice(['cls', 'ret', 'ld v3, 7', 'jp $234']))
    tight = [one(a, 1) for a in range(4095)]
    loose, a = [], 0
    while a < 4095:
        n = min(rng.choice([1, 2, 3, 15, 16, 17, 31, 32, 33, 50]), 4095 - a)
        loose.append(one(a, n)); a += n + rng.choice([0, 0, 1, 2])
    out = [tight, loose]
    sh = list(loose); rng.shuffle(sh); out.append(sh)
    for n in (254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3333):
        part = rng.sample(tight, n)
        if n % 2: part.sort(key=tight.index)
        out.append(part)
    for n in [k + d for k in novel.fresh()[0] if 2 < k < 4095 for d in (-1, 0, 1)][:12]: out.append(rng.sample(tight, n))
    return out

# --- the same tokens further down the file -----------------------------------

BASES = ['.db "a\u00e9\u20ac\U0001f600b"\nx: jp x\n', 'lab: cls\njp lab\n.db 1, 2, 3\n', 'cls\njp nowhere\n', 'ld v1, $1f\n@\n', '.db 1\n.org 0\n.db 2\n', 'k: .equ $123\n.org $300\nld i, k\n']

def shifted(rng, thorough):
    """(base, text, lines put before the second part, end of the first part):
    a long comment line pushes a base, or what follows its first line, across
    offsets where buffers of common sizes end."""
    out = []
    sizes = [1 << k for k in range(9, 23)] + [10000, 100000, 1000000] + [n for n in novel.fresh()[0] if 300 <= n <= 1 << 22][:6] + [1 << n for n in novel.fresh()[0] if 9 <= n <= 23][:4]
    for b in BASES:
        e = b.encode()
        cut = b.index('\n') + 1
        inside = [k for k in range(len(e)) if e[k] & 0xc0 == 0x80]
        for n in dict.fromkeys(sizes):
            for first in (0, cut):
                body = len(b[:first].encode())
                tail = e[body:]
                ks = [0] + [k - body for k in inside if k >= body] + [rng.randrange(len(tail))]
                if n > 70000: ks = ks[:1] + (rng.sample(ks[1:], min(2, len(ks) - 1)) if b == BASES[0] else [])
                for k in dict.fromkeys(ks):
                    fill = n - k - body - 2
                    out.append((b, b[:first] + ';' + 'c' * fill + '\n' + tail.decode(), first))
    return out
