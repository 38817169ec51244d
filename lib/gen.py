"""Input generators.  They only produce texts (and say nothing about what the
assembler should make of them); every random choice comes from the rng given."""
import random, re
from core import Named

HEX = '0123456789abcdef'

# The documented instruction forms, as operand kinds; used to write programs.
FORMS = [('nop', ''), ('cls', ''), ('ret', ''), ('trapret', ''), ('trap', ''), ('ld', 'i n'),
         ('jp', 'a'), ('call', 'a'), ('se', 'r b'), ('sne', 'r b'), ('se', 'r r'), ('ld', 'r b'), ('add', 'r b'),
         ('ld', 'r r'), ('or', 'r r'), ('and', 'r r'), ('xor', 'r r'), ('add', 'r r'), ('sub', 'r r'), ('shr', 'r'),
         ('subn', 'r r'), ('shl', 'r'), ('sne', 'r r'), ('ld', 'i a'), ('jp', 'z a'), ('rnd', 'r b'), ('drw', 'r r q'),
         ('skp', 'r'), ('sknp', 'r'), ('ld', 'r d'), ('ld', 'r k'), ('ld', 'd r'), ('ld', 's r'), ('add', 'i r'),
         ('ld', 'f r'), ('ld', 'B r'), ('ld', 'n r'), ('ld', 'r n')]
MNEMONICS = sorted({m for m, _ in FORMS})
FIXED = {'i': 'i', 'n': '[i]', 'd': 'dt', 's': 'st', 'k': 'k', 'f': 'f', 'B': 'b', 'z': 'v0'}
WIDTH = {'a': 4096, 'b': 256, 'q': 16}
BLANKS = [' ', '  ', '\t', ' \t ', '\r', '\v', '\f', '\x85', '\u00a0', '\u1680', '\u2028', '\u2029', '\u202f', '\u205f', '\u3000'] + [chr(c) for c in range(0x2000, 0x200b)]

def swapcase(rng, s):
    return ''.join(c.upper() if rng.random() < .5 else c.lower() for c in s)

def literal(rng, v, plain=False):
    k = rng.randrange(3 if plain else 9)
    if k == 0: return '%d' % v
    if k == 1: return '$%x' % v
    if k == 2: return '$%X' % v
    if k == 3: return '#' + swapcase(rng, '%x' % v)
    if k == 4: return '$%03x' % v
    if k == 5: return '0' * rng.randrange(1, 6) + '%d' % v
    b = bin(v)[2:]
    if k == 6: return '%' + b
    b = '0' * rng.choice([0, 0, 1, 3, 8, 12, 20, 60, 70]) + b
    return '%' + ''.join(rng.choice('.0') if c == '0' else '1' for c in b)

def interesting(rng, n):
    """A value below n, with a taste for the edges and for bit patterns."""
    k = rng.randrange(4)
    if k == 0: return rng.randrange(n)
    if k == 1: return rng.choice([0, 1, n - 1, n - 2, n // 2, n // 2 - 1])
    if k == 2: return (1 << rng.randrange(n.bit_length() - 1)) % n
    return rng.randrange(max(1, n >> rng.randrange(0, 8)))

_NEAR = ['v', 'V', 'vg', 'v10', 'va0', 'vv', 'v_', 'v0_', 'Vx', 'x0', 'i0', 'ii', '_i', 'dt1', 'dtt', 'd', 't', 's', 'std', 'kk', 'k_', 'bb',
         'ff', 'fb', 'b0', 'f0', '_', '__', '_0', 'a', 'A', 'e', 'E', 'g', 'org', 'db', 'equ', 'end', 'include', 'st_', 'dT_', 'vz', 'v1f']
def label(rng, used=()):
    for _ in range(50):
        k = rng.randrange(9)
        if k == 0: s = rng.choice(_NEAR)
        elif k == 1: s = rng.choice(MNEMONICS)
        elif k == 2: s = swapcase(rng, rng.choice(['loop', 'main', 'start', 'data', 'label']))
        elif k == 3: s = 'label_' + 'x' * rng.choice([1, 2, 7, 8, 9, 15, 16, 17, 30, 31, 32, 33, 62, 63, 64, 65, 127, 128, 255, 256, 300]) + rng.choice('ABab019_')
        elif k == 4: s = rng.choice('lLtT') + str(rng.randrange(1000))
        elif k == 5: s = rng.choice('_abcxyzABCXYZ') + ''.join(rng.choice('_abcxyzABCXYZ019') for _ in range(rng.randrange(0, 12)))
        elif k == 6: s = rng.choice(MNEMONICS + ['v1', 'dt', 'i']) + rng.choice(['_', '2', '_loop', 'x0'])
        elif k == 7: s = '_' * rng.randrange(1, 5) + str(rng.randrange(10))
        else: s = rng.choice(['sprite', 'Sprite', 'sprites', 'sprite_', 'sprite1', 'sprite2', 'sprite10'])
        if s not in used and not isreg(s):
            return s
    return 'u%d' % rng.randrange(10 ** 9)

def isreg(s):
    s = s.lower()
    return s in ('dt', 'st', 'i', 'k', 'b', 'f', '[i]') or bool(re.fullmatch('v[0-9a-f]', s))

def operands(rng, kinds, imm):
    out = []
    for k in kinds.split():
        if k == 'r': out.append('v' + rng.choice(HEX))
        elif k in FIXED: out.append(FIXED[k])
        else: out.append(imm(WIDTH[k]))
    return out

def instruction(rng, labels=None, plain=False, form=None):
    """A valid instruction; immediates are literals or one of labels {name: value}."""
    mn, kinds = form or rng.choice(FORMS)
    def imm(n):
        if labels:
            ok = [l for l, v in labels.items() if v < n]
            if ok and rng.random() < .6: return rng.choice(ok)
        return literal(rng, interesting(rng, n), plain)
    ops = operands(rng, kinds, imm)
    if not plain:
        mn = swapcase(rng, mn) if rng.random() < .3 else mn
        ops = [swapcase(rng, o) if isreg(o) and rng.random() < .3 else o for o in ops]
    sep = ', ' if plain else rng.choice([', ', ',', ' , ', ',\t'])
    return mn + (' ' if ops else '') + sep.join(ops)

CHARS = 'abcXYZ019 !#$%&()*+,-./:;<=>?@[]^_`{|}~' + '\u00e9\u00df\u03a9\u20ac\u4e2d\u3042\U0001f600\U0001f3b2\u07ff\u0800\uffff\U00010000\u007f\u0080\u00a0'
def string(rng, n=None):
    n = rng.choice([0, 1, 1, 2, 3, 5, 8, 13, 16, 17, 33]) if n is None else n
    body = ''
    for _ in range(n):
        k = rng.randrange(12)
        if k == 0: body += '\\' + rng.choice('nt"\\0xu\u00e9')
        elif k == 1: body += rng.choice(['\t', ';', "'", '\r'])
        elif k == 2: body += rng.choice('\n \n;')
        else: body += rng.choice(CHARS)
    return '"' + body + '"'

def db(rng, n=None, labels=None):
    n = rng.choice([1, 1, 1, 2, 3, 4, 7, 8, 15, 16, 17, 40]) if n is None else n
    args = [string(rng) if rng.random() < .25 else literal(rng, interesting(rng, 256)) for _ in range(n)]
    return rng.choice(['.db', '.db', '.DB', '.Db', '. db']) + ' ' + rng.choice([', ', ',']).join(args)

def dbn(rng, n):
    """A .db of exactly n bytes."""
    if n == 0: return '.db ""'
    if n > 40 and rng.random() < .7:
        return '.db "' + ''.join(rng.choice('abcdefghij0123456789 ;,') for _ in range(n)) + '"'
    return '.db ' + ', '.join(literal(rng, rng.randrange(256), True) for _ in range(n))

def trailer(rng):
    return rng.choice(['', '', '', ' ', ' ; comment', ';c', '\t; v0, "x', ' ; \u00e9\u4e2d', '\r', ' ;'])

def program(rng, size=None, labels=True, orgs=True, bad=0.0):
    """A program that is usually valid: sections, labels, constants, data, code."""
    size = rng.choice([1, 2, 4, 8, 8, 16, 30]) if size is None else size
    used, lines, consts = set(), [], {}
    names = []
    if labels:
        for _ in range(rng.randrange(0, 5)):
            n = label(rng, used); used.add(n); names.append(n)
        for _ in range(rng.randrange(0, 4)):
            n = label(rng, used); used.add(n)
            consts[n] = interesting(rng, rng.choice([16, 256, 4096]))
    todo = list(names)
    refs = {n: 4095 for n in names}
    refs.update(consts)
    at = rng.randrange(0x100, 0x300)
    for n, v in consts.items():
        if rng.random() < .7:
            lines.append(n + ':' + rng.choice([' ', '\n', '\t', ' ; c\n']) + rng.choice(['.equ ', '.EQU ']) + literal(rng, v))
        else:
            todo.append((n, v))
    for _ in range(size):
        k = rng.random()
        if todo and k < .2:
            t = todo.pop(rng.randrange(len(todo)))
            if isinstance(t, tuple): lines.append('%s: .equ %s' % (t[0], literal(rng, t[1])))
            else: lines.append(t + ':' + (' ' + instruction(rng, refs) if rng.random() < .3 else ''))
        elif orgs and k < .3:
            at = (at + rng.randrange(0x60, 0x200)) % 0xf00 if rng.random() < .85 else rng.randrange(4096)
            lines.append(rng.choice(['.org ', '.ORG ', '.Org ']) + literal(rng, at))
        elif k < .5:
            lines.append(db(rng))
        elif k < .55:
            lines.append('')
        else:
            lines.append(instruction(rng, refs))
    for t in todo:
        if isinstance(t, tuple): lines.append('%s: .equ %s' % (t[0], literal(rng, t[1])))
        else: lines.append(t + ':')
    if bad and rng.random() < bad:
        lines.insert(rng.randrange(len(lines) + 1), mistake(rng))
    out = ''
    for l in lines:
        out += rng.choice(['', '', '  ', '\t']) + l + trailer(rng) + '\n'
    return out

def mistake(rng):
    k = rng.randrange(16)
    r = 'v' + rng.choice(HEX)
    return [lambda: 'ld %s, %s' % (r, literal(rng, rng.randrange(256, 4096))),
            lambda: 'drw %s, %s, %s' % (r, r, literal(rng, rng.randrange(16, 300))),
            lambda: 'jp nowhere_%d' % rng.randrange(100),
            lambda: 'jp %s, $123' % ('v' + rng.choice(HEX[1:])),
            lambda: rng.choice(MNEMONICS) + ' ' + ', '.join(rng.choice(['v1', 'i', '[i]', 'k', 'dt', 'st', 'b', 'f', '5', '$fff']) for _ in range(rng.randrange(1, 5))),
            lambda: '.db %s' % literal(rng, rng.randrange(256, 4096)),
            lambda: '.db', lambda: '.org', lambda: '.org 1, 2', lambda: '.equ 5',
            lambda: '.org "a"', lambda: '.foo 1', lambda: 'x: .equ\n',
            lambda: 'twice:\ntwice:', lambda: rng.choice(['$', '%', '"abc', '[x]', '@', '4096', '%1000000000000', "'", '\u00e9', '[']),
            lambda: rng.choice([',', ':', '"s"', '5', '. 5', 'ld v1,, v2', 'ld "x"', '.db v1', '.db 1,, 2', 'a: :', '..db 1'])][k]()

def pack(stmts, per):
    return ['\n'.join(stmts[k:k + per]) + '\n' for k in range(0, len(stmts), per)]

# ------------------------------------------------------------------ corpora
def mixed(rng, n, bad=0.35):
    return [program(rng, bad=bad) for _ in range(n)]

def all_encodings(rng, spell):
    """Every valid combination of form, registers and immediate, once."""
    out = []
    for mn, kinds in FORMS:
        ks = kinds.split()
        combos = ['']
        for n, k in enumerate(ks):
            if k == 'r': vals = ['v' + h for h in HEX]
            elif k in FIXED: vals = [FIXED[k]]
            else: vals = range(WIDTH[k])
            combos = [(c + ', ' if n else '') + (v if isinstance(v, str) else spell(rng, v)) for c in combos for v in vals]
        out += [mn + (' ' + c if c else '') for c in combos]
    return out

def labelled(rng, share):
    """Every encoding with an immediate, the immediate given by a label."""
    out = []
    for mn, kinds in FORMS:
        ks = kinds.split()
        if not ks or ks[-1] not in WIDTH: continue
        n = WIDTH[ks[-1]]
        rows = [[]]
        for k in ks[:-1]:
            rows = [r + [v] for r in rows for v in (['v' + h for h in HEX] if k == 'r' else [FIXED[k]])]
        todo = [(r, v) for r in rows for v in range(n)]
        rng.shuffle(todo)
        todo = todo[:int(len(todo) * share) + 1]
        for k in range(0, len(todo), 200):
            part = todo[k:k + 200]
            vals = {}
            for _, v in part:
                if v not in vals: vals[v] = label(rng, vals.values())
            defs = ['%s: .equ %s' % (l, literal(rng, v)) for v, l in vals.items()]
            uses = ['%s %s' % (mn, ', '.join(r + [vals[v]])) for r, v in part]
            if rng.random() < .5: defs, uses = uses, defs
            out.append('\n'.join(defs + uses) + '\n')
    return out

def euler(rng, n):
    """A closed walk over 0..n-1 that takes every ordered pair once."""
    left = {a: rng.sample(range(n), n) for a in range(n)}
    stack, walk = [0], []
    while stack:
        if left[stack[-1]]: stack.append(left[stack[-1]].pop())
        else: walk.append(stack.pop())
    return walk

def walks(rng, rounds, per=45):
    """Programs in which every statement follows every other, rounds times over,
    with other operands each time."""
    kinds = FORMS + ['db1', 'db2', 'label', 'org', 'equ', 'ref']
    out = []
    for _ in range(rounds):
        w = euler(rng, len(kinds))
        for k in range(0, len(w) - 1, per):
            a = rng.choice([0, 0, 1, 0x1f0, 0x200, rng.randrange(0xd00)])
            body, names = (['.org %s' % literal(rng, a)] if a else []), []
            for x in w[k:k + per + 1]:
                f = kinds[x]
                if f == 'db1': n = rng.choice([1, 3, 5]); body.append(dbn(rng, n)); a += n
                elif f == 'db2': n = rng.choice([2, 4, 16]); body.append(dbn(rng, n)); a += n
                elif f == 'label': names.append('l%d' % len(names)); body.append(names[-1] + ':')
                elif f == 'org': a += rng.randrange(1, 8); body.append('.org %s' % literal(rng, a))
                elif f == 'equ': names.append('l%d' % len(names)); body.append('%s: .equ %s' % (names[-1], literal(rng, rng.randrange(4096))))
                elif f == 'ref': body.append(rng.choice(['jp ', 'call ', 'ld i, ', 'jp v0, ']) + 'l%d' % rng.randrange(len(names) + 1)); a += 2
                else:
                    mn, ops = f
                    body.append(mn + ' ' + ', '.join(operands(rng, ops, lambda n: literal(rng, rng.randrange(n) if rng.random() < .6 else interesting(rng, n), True)))); a += 2
            out.append('\n'.join(body + ['l%d:' % len(names)]) + '\n')
    return out

def c01(rng, thorough):
    spell = lambda r, v: literal(r, v, not thorough and r.random() < .5)
    ins = all_encodings(rng, spell)
    rng.shuffle(ins)
    out = pack(ins, 200)
    out += walks(rng, 24 if thorough else 8)
    out += labelled(rng, 1 if thorough else .3)
    # the same instruction again and again, and pairs of equal neighbours
    for form in FORMS:
        a, b = instruction(rng, form=form), instruction(rng, form=form)
        out += ['\n'.join([a, a, b, b, b, a]) + '\n', '\n'.join([a, rng.choice(['.db 7', 'cls', 'x:', '.org $300', '; c']), a, b, a]) + '\n', (a + '\n') * rng.choice([7, 16, 17, 100])]
    # each form alone, after odd amounts of data, at odd addresses and with labels as immediates
    for mn, kinds in FORMS:
        for _ in range(12 if thorough else 6):
            i1 = instruction(rng, form=(mn, kinds))
            out.append(i1 + '\n')
            out.append('.org %s\n%s\n%s\n%s\n' % (literal(rng, rng.randrange(4000)), dbn(rng, rng.randrange(4)), i1, instruction(rng)))
            consts = {label(rng): interesting(rng, rng.choice([16, 16, 256, 4096])) for _ in range(3)}
            out.append(''.join('%s: .equ %d\n' % c for c in consts.items()) + instruction(rng, consts, form=(mn, kinds)) + '\n')
            out.append(instruction(rng, consts, form=(mn, kinds)) + '\n' + ''.join('%s: .equ %d\n' % c for c in consts.items()))
            out.append('%s\n%s\n' % (instruction(rng), i1))
    for _ in range(400 if thorough else 120):
        out.append('\n'.join(instruction(rng) for _ in range(rng.randrange(2, 40))) + '\n')
    out.append('\n'.join(instruction(rng) for _ in range(2047)) + '\n')
    return out + mixed(rng, 1500 if thorough else 500, 0)

OPERANDS = ['v0', 'v1', 'vf', 'i', '[i]', 'dt', 'st', 'k', 'b', 'f', '5', '$10', '$ff', '$100', '$fff', 'c4', 'c8', 'c9', 'cc', 'nowhere']
CONSTS = {'c4': '15', 'c8': '$ff', 'c9': '$100', 'cc': '$fff'}
def given(ins):
    return ''.join('%s: .equ %s\n' % c for c in CONSTS.items() if c[0] in ins) + ins + '\n'
def c02(rng, thorough):
    out = []
    mns = MNEMONICS + ['foo', 'l', 'ldd', 'LD', 'jpp', 'sys', 'move', 'v0', 'db', 'org', 'halt', 'low', 'scd', 'exit']
    for m in mns:
        out.append(m + '\n')
        for a in OPERANDS:
            out.append(given('%s %s' % (m, a)))
    two = [(m, a, b) for m in mns for a in OPERANDS for b in OPERANDS]
    if not thorough: two = [t for t in two if t[0] in MNEMONICS]
    for m, a, b in two:
        out.append(given('%s %s, %s' % (m, a, b)))
    some = ['v0', 'v2', 'i', '[i]', 'dt', 'k', '3', '$10', '$123', 'c4', 'c8', 'cc']
    three = [(m, a, b, c) for m in MNEMONICS for a in some for b in some for c in some]
    for m, a, b, c in rng.sample(three, 4000 if thorough else 700):
        out.append(given('%s %s, %s, %s' % (m, a, b, c)))
    for a in OPERANDS:
        for m in ('drw', 'ld', 'jp', 'cls'):
            out.append(given('%s v1, v2, %s' % (m, a)))
            out.append(given('%s v1, v2, %s, v3' % (m, a)))
            out.append(given('%s v1, v2, 3, %s' % (m, a)))
            out.append(given('%s v1, v2, 3, 4, %s' % (m, a)))
    # immediates around and beyond the limit of each field
    w = {'a': 4096, 'b': 256, 'q': 16}
    for mn, kinds in FORMS:
        ks = kinds.split()
        if ks and ks[-1] in w:
            n = w[ks[-1]]
            vals = sorted({n - 2, n - 1, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1, 16, 15, 17, 255, 256, 257, 271, 272, 511, 512, 513, 1000, 2047, 2048, 4095, 0xf0f, 0xf00, 0xff0, 0x10f})
            vals += [rng.randrange(4096) for _ in range(40 if thorough else 8)]
            for v in vals:
                if v >= 4096: continue
                ops = operands(rng, ' '.join(ks[:-1]), None)
                out.append('%s %s\n' % (mn, ', '.join(ops + [literal(rng, v)])))
                out.append('%s %s\nq: .equ %s\n' % (mn, ', '.join(ops + ['q']), literal(rng, v)))
                out.append('.org %d\n%s %s\nq:\n' % (v - 2 if v >= 2 else 0, mn, ', '.join(ops + ['q'])))
    for h in 'ghxyzGHXYZ_':
        out.append('x: .equ 1\nld v%s, 1\n' % h)
    for r in ('v', 'v00', 'v0f', 'v10', 'vv', 'r0', '0v', 'v 1', 'v-1', 'v+', '[v1]', '[ i ]', '(i)', 'I]', '[i'):
        out += ['ld %s, 1\n' % r, 'shr %s\n' % r, 'ld v1, %s\n' % r, 'drw v1, %s, 3\n' % r]
    return out + mixed(rng, 1200 if thorough else 400, .8)

def c03(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 900):
        out.append(label_program(rng))
    # label name look-alikes: all in one program, each with its own address
    fam = [['a', 'A', 'aa', 'aA', 'Aa', 'AA'], ['loop', 'Loop', 'LOOP', 'loop1', 'loop10', 'loop2', 'loo', 'loop_', '_loop'],
           ['x' * n for n in (1, 2, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 400)],
           ['p' * 40 + c for c in 'abcABC012_'], ['q' * 300 + c for c in 'abAB01_'], MNEMONICS, [n for n in _NEAR if not isreg(n)],
           ['n%d' % n for n in range(200)], ['t%03d' % n for n in range(700 if thorough else 300)],
           ['_' * n for n in range(1, 20)], ['v' + c for c in 'gG_zZ'] + ['v0_', 'v00', 'v10']] + twins(rng)
    for f in fam:
        for rep in range(3 if thorough else 2):
            names = list(f); rng.shuffle(names)
            body = ['%s: %s' % (n, rng.choice(['cls', '.db 1', '.db 1,2,3', 'ret', 'ld v1, 2'])) for n in names]
            refs = ['%s %s' % (rng.choice(['jp', 'call', 'ld i,', 'jp v0,']), n) for n in names]
            rng.shuffle(refs)
            out.append('.org $%x\n' % rng.randrange(0x300) + '\n'.join(body + refs) + '\n')
            out.append('.org $%x\n' % rng.randrange(0x300) + '\n'.join(refs + body) + '\n')
            # and undefined neighbours are not confused with defined ones
            for n in rng.sample(names, 2 if len(names) > 100 else min(8, len(names))):
                out.append('\n'.join(b for b in body if not b.startswith(n + ':')) + '\njp %s\n' % n)
    # small-valued labels in narrow fields, at every address
    for a in list(range(0, 40)) + [254, 255, 256, 257, 4090, 4092]:
        for ins in ('ld v1, x', 'drw v1, v2, x', 'se v3, x', 'jp x', 'ld i, x', 'add v0, x', 'rnd v1, x', 'jp v0, x', 'call x', 'sne v1, x'):
            if rng.random() < (1 if thorough else .4):
                out.append('.org %d\nx:\n.org $300\n%s\n' % (a, ins))
                out.append('.org $300\n%s\n.org %d\n%s\nx: cls\n' % (ins, a - 2 if a > 1 else 0, 'nop' if a > 1 else ''))
    out += walks(rng, 12 if thorough else 3)
    return out + mixed(rng, 1200 if thorough else 500, .1)

_WORD = 'ABCDEFGHIJKLMNOPQRSTUVWXYZ_abcdefghijklmnopqrstuvwxyz'
def twins(rng):
    """Different names that a digest, a prefix or a sorted copy would confuse."""
    out = []
    # one character apart, anywhere in the name
    for n in (3, 7, 9, 12, 16, 17, 24, 25, 33, 40, 64, 65, 80, 130, 260):
        base = ''.join(rng.choice(_WORD) for _ in range(n))
        at = range(n) if n <= 40 else sorted(rng.sample(range(n), 20) + [n // 2, 8, 16, 32])
        out.append([base] + [base[:k] + 'Q' + base[k + 1:] for k in at if base[k] != 'Q'])
    # the same letters in another order
    for w in ('stop', 'abcd', 'loop1', 'xxyyz'):
        out.append(sorted({''.join(rng.sample(w, len(w))) for _ in range(12)} ))
    out = [[w for w in f if not w[0].isdigit()] for f in out]
    # equal sums c1 * m + c2: what polynomial digests confuse, alone and repeated
    for m in (31, 33, 37, 17, 7, 5, 3, 2):
        pairs = [(a, b) for a in _WORD for b in _WORD]
        by = {}
        for a, b in pairs: by.setdefault(ord(a) * m + ord(b), []).append(a + b)
        same = rng.choice(sorted((v for v in by.values() if len(v) > 1), key=lambda v: v[0]))
        two = same[:2]
        out.append(list(dict.fromkeys(same + [x + y for x in two for y in two] + ['k' + x + 'z' for x in same])))
    # very many names of one length
    for k, alpha in ((3, _WORD), (5, 'abcdefgh'), (8, 'xyz_')):
        out.append(sorted({rng.choice(_WORD) + ''.join(rng.choice(alpha) for _ in range(k)) for _ in range(600)}))
    return [[n for n in dict.fromkeys(f) if not isreg(n)] for f in out]

def label_program(rng):
    names, used = [], set()
    for _ in range(rng.choice([1, 2, 3, 5, 9])):
        n = label(rng, used); used.add(n); names.append(n)
    stm = []
    for n in names:
        stm.append(n + ':' + rng.choice(['\n', ' ', ' ; here\n', '\n\n']))
    for _ in range(rng.randrange(1, 10)):
        k = rng.randrange(6)
        if k == 0: stm.append(db(rng) + '\n')
        elif k == 1: stm.append('.org %s\n' % literal(rng, rng.choice([0, 1, 0x10, 0x1fe, 0x200, 0x400, 0x800, 0xf00, rng.randrange(0xfc0)])))
        else: stm.append(rng.choice(['jp ', 'call ', 'ld i, ', 'jp v0, ', 'JP ', 'ld v3, ', 'se v1, ', 'drw v1, v2, ']) + rng.choice(names) + '\n')
    rng.shuffle(stm)
    return ''.join(stm)

def c04(rng, thorough):
    out = []
    gap = ['', ' ', '\n', '\n\n', ' ; c\n', '\t\n ;x\n\n', '\r\n']
    for g in gap:
        for v in ('0', '1', '$ff', '$fff', '4095', '%1010', '#10', '255', '256', '15', '16'):
            for use in ('jp x', 'ld i, x', 'ld v1, x', 'drw v1, v2, x', 'jp v0, x'):
                if rng.random() < (1 if thorough else .5):
                    d = 'x:%s.equ %s%s\n' % (g, v, rng.choice(['', ' ; d', ' ']))
                    out.append(d + use + '\n'); out.append(use + '\n' + d); out.append('cls\n.org $200\n' + d + use + '\ny: jp y\n')
    mids = ['cls\n', '.db 1\n', '.org 5\n', 'y:\n', '.equ 1\n', 'y: .equ 3\n', '.db ""\n', '\n', '; c\n', '.foo\n', '.equ\n', '.equ "a"\n', '.equ 1, 2\n', '.equ 1,\n', '.equ z\n', '.EQU 9\n', '.eQu $a\n']
    for m in mids:
        out += ['x:\n%s.equ 7\njp x\n' % m, 'x: .equ 7\n%sjp x\n' % m, '%sx: .equ 7\njp x\n' % m, '%sjp x\nx:\n' % m, 'x:\n%s%sjp x\n' % (m, m),
                'x: %sx: %sjp x\n' % (m, m), 'x: .equ 3\n%sx: .equ 3\n' % m, '%s.equ 5\n' % m, 'x:\n%sx:\n' % m, '%s%s' % (m, m)]
    for _ in range(2500 if thorough else 1000):
        n = [label(rng) for _ in range(rng.choice([1, 2, 3]))]
        stm = []
        for _ in range(rng.randrange(2, 9)):
            l = rng.choice(n)
            stm.append(rng.choice(['%s:' % l, '%s: .equ %s' % (l, literal(rng, interesting(rng, 4096))), '.equ 3', 'jp ' + l, 'ld i, ' + l, 'cls', '.db 1, 2', '.org $100', '; c', '',
                                   l + ':\n', swapcase(rng, l) + ':', 'call ' + swapcase(rng, l)]))
        out.append('\n'.join(stm) + '\n')
    # many constants
    for k in (20, 100, 300):
        names = ['k%d' % j for j in range(k)]
        out.append(''.join('%s: .equ %d\n' % (n, (j * 37) % 4096) for j, n in enumerate(names)) + ''.join('jp %s\n' % n for n in names))
        dup = list(names); dup.insert(rng.randrange(k), names[rng.randrange(k)])
        out.append(''.join('%s: .equ %d\n' % (n, j) for j, n in enumerate(dup)))
    return out + mixed(rng, 1200 if thorough else 500, .3)

def c05(rng, thorough):
    out = ['.db ' + ', '.join(map(str, range(256))) + '\n', '.db ' + ', '.join('$%02X' % v for v in range(255, -1, -1)) + '\n']
    for v in range(256):
        out.append('.db %s\n' % literal(rng, v))
    for v in [256, 257, 258, 300, 383, 384, 511, 512, 513, 1000, 1023, 1024, 2048, 4095] + [rng.randrange(256, 4096) for _ in range(40)]:
        out += ['.db %s\n' % literal(rng, v), '.db 1, %s\n' % literal(rng, v), '.db "a", %s, 2\n' % literal(rng, v)]
    # each single character, and each after a backslash
    for c in list(range(0, 0x180)) + [rng.randrange(0x180, 0xd800) for _ in range(200)] + [rng.randrange(0xe000, 0x110000) for _ in range(100)] + [0x7ff, 0x800, 0xfff, 0x1000, 0x2028, 0x3000, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x10ffff]:
        out += ['.db "%s"\n' % chr(c), '.db "x\\%sy", 1\n' % chr(c), '.db "ab%scd%s"\n' % (chr(c), chr(c))]
    out.append('.db "' + ''.join(chr(c) for c in range(35, 92)) + '"\n')
    # every character of the basic plane, and some of every other
    for c in range(0x80, 0xffff, 1200):
        out.append('.db "' + ''.join(chr(x) for x in range(c, min(c + 1200, 0x10000)) if not 0xd800 <= x < 0xe000) + '"\n')
    for c in range(0x10000, 0x110000, 0x8000):
        out.append('.db "' + ''.join(chr(x) for x in range(c, c + 900)) + '"\n')
    for s in ('""', '"", ""', '"",1', '1,"",2', '"\\\\"', '"\\""', '"\\\\\\""', '"a\\', '"a\\"', '"a', '"', '"\\\n"', '"a\nb"', '"a\r\nb"', '"a;b" ; c', '"a,b","c"', '"a" "b"', '"a"1', '1"a"',
              '1 2', '1,', '1,2,', ',', ',1', '1,,2', '"a",', '', ' ', '; c', '1 ; c', '1, ; c', '"0",0,"0"', 'x', '1, x', 'v0', '1.5', '$1,$22,$0a', '%1,%10', '-1', '+1', "'a'", '1:', '"a":'):
        out += ['.db %s\n' % s, '.db %s\n.db 7\n' % s, 'cls\n.db %s\ncls\n' % s, '.db %s' % s]
    for n in (1, 2, 15, 16, 17, 31, 32, 33, 255, 256, 257, 1000, 2047, 4000, 4094, 4095):
        out += [dbn(rng, n) + '\n', '.db ' + ','.join(literal(rng, rng.randrange(256), True) for _ in range(n)) + '\n' if n < 3000 or thorough else ', '.join(['.db 1'] + ['2'] * (n - 1)) + '\n']
    for _ in range(2500 if thorough else 900):
        out.append('\n'.join(db(rng) for _ in range(rng.choice([1, 1, 2, 4]))) + trailer(rng) + '\n')
    return out + mixed(rng, 800 if thorough else 300, .2)

def section(rng, a, n):
    """n bytes at address a, in some mixture of code and data."""
    s = '.org %s\n' % literal(rng, a)
    while n > 0:
        if n >= 2 and rng.random() < .5:
            k = min(n // 2, rng.randrange(1, 6))
            s += ''.join(instruction(rng, plain=True) + '\n' for _ in range(k)); n -= 2 * k
        else:
            k = min(n, rng.choice([1, 1, 2, 3, 16, 50]))
            s += dbn(rng, k) + '\n'; n -= k
    return s

def reorg(rng, n):
    """An .org to the start, the end, the inside or just beyond what was just written."""
    out = []
    for _ in range(n):
        a = rng.choice([0, 1, 0x10, 0xff, 0x100, 0x200, 0x300, rng.randrange(2000)])
        k = rng.choice([1, 2, 3, 15, 16, 17, 32, 100, 128, 255, 256, 257, 300, 511, 512, 1000, 2000])
        first = '.org %d\n' % a if a or rng.random() < .5 else ''
        body = dbn(rng, k) + '\n' if k % 2 or rng.random() < .5 else 'cls\n' * (k // 2)
        b = rng.choice([a, a, a + k, a + k, a + k, a + k - 1, a + k + 1, a + k // 2, a + 1, 0, a - 1 if a else 0])
        rest = rng.choice(['', 'cls\n', '.db 1\n', '.db ""\n', 'x: jp x\n', '.db "' + 'w' * k + '"\n', '.org %d\nret\n' % (a + k), '.org %d\nret\n' % b])
        more = rng.choice(['', '', '.org %d\n.db 4\n' % rng.randrange(4000), '.org %d\n' % a])
        out.append(first + body + '.org %d\n' % min(b, 4095) + rest + more)
    return out

def c06(rng, thorough):
    out = []
    for _ in range(2500 if thorough else 900):
        # disjoint sections in random order
        secs, a = [], rng.randrange(0, 64)
        for _ in range(rng.choice([1, 2, 3, 5, 8])):
            n = rng.choice([0, 1, 2, 3, 5, 15, 16, 17, 30])
            if a + n > 4090: break
            secs.append((a, n)); a += n + rng.choice([0, 0, 1, 2, 16, rng.randrange(700)])
        if rng.random() < .6: rng.shuffle(secs)
        parts = [section(rng, *s) for s in secs]
        if rng.random() < .3: parts.insert(rng.randrange(len(parts) + 1), '.org %d\n' % rng.randrange(4096))
        if rng.random() < .3: parts.insert(0, 'x:\n')
        out.append(''.join(parts))
    out += reorg(rng, 300 if thorough else 120)
    # long sections, many sections, unbroken runs without any .org
    for n in (100, 500, 1024, 2047):
        out.append('\n'.join(instruction(rng, plain=True) for _ in range(n)) + '\n')
    for n in (50, 200, 400 if thorough else 200):
        order = list(range(n)); rng.shuffle(order)
        out.append(''.join('.org %d\n.db %d\n' % (k * 9, k % 256) for k in order))
    for a in range(0, 4096, 13 if thorough else 41):
        out.append('.org %s\n.db 1, 2\n' % literal(rng, a))
    for a in (0, 1, 0x0ff, 0x100, 0x1ff, 0x200, 0x201, 0x7ff, 0x800, 0xeff, 0xf00, 0xff0, 0xffc):
        out += ['.org %d\n' % a, '.org %d\ncls\n' % a, 'cls\n.org %d\n.db 5\n' % a, '.org %d\n.org %d\ncls\n' % (a, a ^ 0x111), '.org %d\nx: .org $321\njp x\n' % a, '.db 9\n.org %d\n.db ""\n' % a,
                '.org %d\n.db 1\n.org %d\n.db 2\n' % (a, a + 1), '.org %d\n.db 2\n.org %d\n.db 1\n' % (a + 1, a)]
    out += ['', '\n', '; only\n', 'x:\n', '.org $200\n', 'x: .equ 5\n', '.org 0\n.org 1\n', '.db ""\n']
    out += walks(rng, 12 if thorough else 3)
    return out + mixed(rng, 1500 if thorough else 600, 0)

def c07(rng, thorough):
    out = []
    edge = list(range(4080, 4096))
    for a in edge:
        for s in (0, 1, 2, 3, 4, 5, 8, 14, 15, 16, 17):
            if s: out.append('.org %s\n%s\n' % (literal(rng, a), dbn(rng, s)))
            out.append('.org %d\n%s\ncls\n' % (a, dbn(rng, s)))
            out.append('.org %d\ncls\n%s\n' % (a, dbn(rng, s)))
            if rng.random() < .5: out.append('.org %d\n%s\nx: .org 0\njp x\n' % (a, dbn(rng, s)))
        for k in range(1, 9):
            out.append('.org %d\n' % a + 'cls\n' * k)
            out.append('.org %d\n' % a + 'cls\n' * k + '.org $100\nret\n')
            out.append('.org %d\n' % a + 'ret\n' * k + '.db 1\n')
        out.append('.org %d\n.db ""\n.db ""\n' % a)
        out.append('.org %d\nx:\n.org 0\njp x\n' % a)
    for n in (4000, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4100, 4111, 4112, 5000, 8190, 8191, 8192, 8193, 8200, 12288):
        q = '.db "%s"\n' % ('z' * n)
        out += [q, q + 'cls\n', 'cls\n' + q, q + '.db 1\n', '.db 1\n' + q, '.org 1\n' + q, '.org $800\n' + q, '.org $fff\n' + q, q + '.org 0\n', 'x: ' + q]
        m = '\u00e9' * (n // 2) + 'z' * (n % 2)
        out += ['.db "%s"\n' % m, '.org 1\n.db "%s"\n' % m]
    for n in (2045, 2046, 2047, 2048, 2049, 2060):
        out += ['cls\n' * n, '.db 1\n' + 'cls\n' * n, 'cls\n' * n + '.db 1\n', '.org 0\n' + 'nop\n' * n + 'x: jp x\n'][:(4 if thorough else 2)]
    for _ in range(1500 if thorough else 500):
        a = rng.choice([rng.randrange(4096), rng.randrange(3900, 4096)])
        stm = ['.org %d' % a]
        left = 4095 - a
        while left > 40:
            n = min(left - rng.randrange(0, 20), rng.choice([100, 500, 1000])); stm.append(dbn(rng, n)); left -= n
        for _ in range(rng.randrange(1, 12)):
            stm.append(rng.choice(['cls', 'ret', '.db 1', '.db 1, 2, 3', '.db ""', 'x%d:' % rng.randrange(10 ** 6), '.db "\u00e9\u20ac"', dbn(rng, rng.randrange(1, 20))]))
        if rng.random() < .2: stm.append('.org $10\nret')
        out.append('\n'.join(stm) + '\n')
    return out + mixed(rng, 600 if thorough else 200, .1)

def c08(rng, thorough):
    out = []
    for _ in range(4000 if thorough else 1800):
        k = rng.choice([2, 2, 3, 4, 6, 10])
        base = rng.choice([0, 0, 0x200, 0x7f0, 0xfd0])
        span = rng.choice([4, 8, 20, 60])
        parts = []
        for _ in range(k):
            a = base + rng.randrange(span)
            n = rng.choice([0, 1, 1, 2, 3, 4, 8, span, 17])
            n = min(n, 4095 - a)
            parts.append(('.org %d\n' % a if parts or rng.random() < .8 else '') + (dbn(rng, n) if n % 2 or rng.random() < .5 else '\n'.join(['cls'] * (n // 2))) + '\n')
        out.append(''.join(parts))
    out += reorg(rng, 300 if thorough else 120)
    # exact relations of two sections [a,a+m) and [b,b+n), at several places
    for base in (0, 0x1fe, 0xff0 - 8):
        for m in (1, 2, 3, 4):
            for n in (1, 2, 3, 4):
                for d in range(-5, 6):
                    if base + 5 + d >= 0:
                        out.append('.org %d\n%s\n.org %d\n%s\n' % (base + 5, dbn(rng, m), base + 5 + d, dbn(rng, n)))
    # one clash among many sections that do not clash, far apart in the source
    for n in (5, 20, 60, 150):
        for _ in range(4 if thorough else 2):
            secs = ['.org %d\n.db 1, 2, 3\n' % (k * 20) for k in range(n)]
            rng.shuffle(secs)
            out.append(''.join(secs))
            c = rng.randrange(n); off = rng.choice([-3, -2, -1, 0, 1, 2, 3])
            if c * 20 + off >= 0:
                secs.insert(rng.randrange(n + 1), '.org %d\n.db 9, 9\n' % (c * 20 + off)); out.append(''.join(secs))
    # very many pairs
    for n in (12, 17, 24, 34, 47):
        out.append('.org $%x\n.db %d\n' % (rng.randrange(0xfff), rng.randrange(256)) * n)
        out.append(''.join('.org %d\n.db 1, 2, 3\n' % (2 * k) for k in range(3 * n)))
    big = dbn(rng, 3000)
    for a in (0, 1, 0xbb7, 0xbb8, 0xbb9, 0xc00, 0x500):
        out += ['%s\n.org %d\n.db 1\n' % (big, a), '.org %d\n.db 1\n.org 0\n%s\n' % (a, big)]
    out += ['.org 4094\n.db 1\n.org 4094\n.db 1\n', '.org 4090\n.db 1,2,3,4,5\n.org 4094\n.db 1\n', '.org 4090\n.db 1,2,3,4\n.org 4094\n.db 1\n', '.org 4094\n.db 1\n.org 0\n.db 1\n',
            '.org $fff\n.db ""\n.org 0\ncls\n', '.db "%s"\n.org 0\n.db 1\n' % ('z' * 4095), '.org 0\n.db 1\n.org 0\n.db "%s"\n' % ('z' * 4095)]
    return out + mixed(rng, 800 if thorough else 300, 0)

def c09(rng, thorough):
    out = []
    for n in list(range(1, 70)) + [79, 80, 81, 127, 128, 129, 239, 240, 241, 255, 256, 257, 271, 272, 273, 495, 496, 511, 512, 513, 1000, 1024, 2048, 4080, 4094, 4095]:
        for a in {0, 1, 0x0f0, 0x0f8, 0x100, 0x200, 0x1f8, 0xff0, rng.randrange(4096)}:
            if a + n <= 4095: out.append('.org %d\n%s\n' % (a, dbn(rng, n)))
    for v in range(256):
        out.append('.org %d\n.db %d\n' % (rng.randrange(4095), v))
        out.append('.org %d\n.db %s\n' % (rng.randrange(4000), ', '.join([str(v)] * rng.choice([2, 15, 16, 17, 32]))))
    # every checksum value
    for k in range(256):
        out.append('.org $%x\n.db %d, %d\n' % (rng.randrange(4000), k, rng.randrange(256)))
    for a in range(0, 4095, 7 if thorough else 29):
        out.append('.org %d\n%s\n' % (a, dbn(rng, min(4095 - a, rng.choice([1, 2, 16, 17, 33])))))
    for _ in range(2000 if thorough else 600):
        secs, a = [], rng.randrange(0, 64)
        for _ in range(rng.choice([1, 2, 3, 6])):
            n = rng.choice([1, 2, 15, 16, 17, 31, 32, 33, 48, 64, rng.randrange(1, 100)])
            if a + n > 4090: break
            secs.append('.org %d\n%s\n' % (a, dbn(rng, n))); a += n + rng.choice([0, 0, 1, 16, rng.randrange(500)])
        rng.shuffle(secs); out.append(''.join(secs))
    out += ['', '\n', ';c\n', 'x:\n', '.org $200\n', '.db ""\n']
    return out + mixed(rng, 1200 if thorough else 400, 0)

def c10(rng, thorough):
    spells = [lambda v: '%d' % v, lambda v: '0%d' % v, lambda v: '%05d' % v, lambda v: '$%x' % v, lambda v: '$%X' % v, lambda v: '#%x' % v, lambda v: '#%03X' % v, lambda v: '$%03x' % v,
              lambda v: '%' + bin(v)[2:], lambda v: '%' + bin(v)[2:].replace('0', '.'), lambda v: '%' + bin(v)[2:].zfill(12), lambda v: '%' + '.' * 5 + bin(v)[2:],
              lambda v: '%' + bin(v)[2:].zfill(12).replace('0', '.'), lambda v: '0' * 30 + '%d' % v, lambda v: '%' + '0' * 64 + bin(v)[2:], lambda v: '%' + '.' * 130 + bin(v)[2:]]
    out = []
    for n, sp in enumerate(spells):
        step = 1 if n < 9 or thorough else 7
        ins = ['jp ' + sp(v) for v in range(rng.randrange(step), 4096, step)]
        out += pack(ins, 256)
    for sp in spells:
        for v in list(range(0, 20)) + [127, 128, 170, 254, 255] + [rng.randrange(256) for _ in range(10)]:
            out += ['.db %s\n' % sp(v), 'ld v1, %s\n' % sp(v), 'x: .equ %s\njp x\n' % sp(v), '.org %s\ncls\n' % sp(v)]
            if v < 16: out.append('drw v1, v2, %s\n' % sp(v))
    # every value in every other place a number may stand
    for n, sp in enumerate(spells):
        out += ['.db ' + ', '.join(sp(v) for v in range(256)) + '\n', '\n'.join('ld v%x, %s' % (v % 16, sp(v)) for v in range(256)) + '\n',
                '\n'.join('drw v1, v2, ' + sp(v) for v in range(16)) + '\n']
        vs = list(range(4095)); rng.shuffle(vs)
        vs = vs[:4095 if thorough else 700]
        out += [''.join('.org %s\n.db %d\n' % (sp(v), v % 251) for v in vs[k:k + 60]) for k in range(0, len(vs), 60)]
        out += [''.join('c%d: .equ %s\njp c%d\n' % (v, sp(v), v) for v in vs[k:k + 100]) for k in range(0, len(vs), 100)]
        for v in rng.sample(range(256, 4096), 40 if thorough else 12):
            out += ['.db %s\n' % sp(v), 'ld v1, %s\n' % sp(v), 'drw v1, v2, %s\n' % sp(v % 240 + 16)]
    for n in range(1, 24):
        for _ in range(12):
            b = rng.choice(['1', '1', '0', '.']) + ''.join(rng.choice('01.') for _ in range(n - 1))
            out.append('jp %' + b + '\n')
            if n < 13: out += ['.db 1, %' + b + '\n', '.org %' + b + '\n.db 1\n']
        for b in ('1' + '.' * (n - 1), '1' + '0' * (n - 1), '.' * (n - 1) + '1', '1' * n, '10' * n, '1.' * n, '.1' * n):
            out += ['jp %' + b + '\n', 'x: .equ %%%s\njp x\n' % b]
        d = str(rng.randrange(10 ** (n - 1), 10 ** n))
        out += ['jp %s\n' % d, '.db %s\n' % d, '.org %s\n' % d]
    for n in range(1, 45):
        v = rng.randrange(4096)
        out += ['jp %s%d\n' % ('0' * n, v), 'jp %%%s%s\n' % ('0' * n, bin(v)[2:]), 'jp %%%s%s\n' % ('.' * n, bin(v)[2:]), '.db %s%d\n' % ('0' * n, v % 256), '.org %s%d\ncls\n' % ('0' * n, v % 4000), 'jp %s4096\n' % ('0' * n), 'jp %%%s1000000000000\n' % ('0' * n),
                'jp $%s\n' % ('0' * n), 'jp #%s1\n' % ('0' * n), '.db 1, $%s1, 2\n' % ('0' * n)]
    big = list(range(4096, 4110)) + [4351, 4352, 5000, 8191, 8192, 9999, 10000, 65535, 65536, 65537, 69631, 99999, 2 ** 20, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 1, 2 ** 32 + 4095,
           2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 1, 2 ** 64 + 5, 2 ** 65 + 7, 2 ** 128, 2 ** 128 + 9, 10 ** 19, 10 ** 20, 10 ** 30, 10 ** 60 + 1] + [2 ** k for k in range(12, 70)] + [2 ** k + 1 for k in range(12, 140, 3)]
    big += [rng.randrange(4096, 10 ** rng.randrange(4, 25)) for _ in range(200 if thorough else 60)]
    for v in big:
        for ctx in ('jp %s\n', '.db %s\n', '.org %s\ncls\n', 'x: .equ %s\n', 'ld v1, %s\n', 'drw v1, v2, %s\n'):
            for lit in ('%d' % v, '000%d' % v, '%' + bin(v)[2:], '%00' + bin(v)[2:].replace('0', '.'), '$%x' % v, '#%X' % v):
                if rng.random() < (.6 if thorough else .12): out.append(ctx % lit)
    odd = ['$', '#', '%', '$g', '#-1', '%2', '%12', '%102', '12a', '0x10', '0b1', '1_000', '$1g', '$ 1', '# 1', '% 1', '-1', '+1', '1.0', '$12.', '%1.1.', '%.', '%..', '%...............', '0', '00', '0000000000', '$0', '$00', '$000', '$0000', '$00001', '$1234', '$fffff', '#12345',
           '%01', '%' + '0' * 200, '%' + '1' * 12, '%' + '1' * 13, '%' + '.' * 90 + '1' * 12, '4095', '4096', '04095', '04096', '12h', '$FFG', 'FFh', '0xff', '1e3', '\u0661', '\uff11', '\u00b2', '1\u0661', '$\u0661', '$$1', '#$1', '%%1', '$#1', '1$', '1#2', '1%1', '%1$f', '12 34', '$1 $2', '$abc def']
    for l in odd:
        out += [c % l for c in ('jp %s\n', '.db %s\n', '.db 1, %s\n', '.org %s\n', 'x: .equ %s\n', '%s\n', 'ld v1, %s\n', '.db %s, 2\n', 'jp %s', 'cls %s\n')]
    return out + mixed(rng, 600 if thorough else 200, .1)

def tokens(text):
    """Splits a program text into tokens and the gaps between them (for decoration only)."""
    return re.findall(r'"(?:[^"\\]|\\.)*"|;[^\n]*|\[[iI]\]|[$#][0-9a-fA-F]{1,3}|%[01.]+|[A-Za-z_][A-Za-z0-9_]*|[0-9]+|\n|[.:,]|[^\S\n]+|.', text, re.S)

def decorate(rng, text, amount=.4):
    """The same program with other comments, blank lines and blanks."""
    out = []
    toks = [t for t in tokens(text) if not (t.isspace() and t != '\n') and not t.startswith(';')]
    prev = '\n'
    def blank(): return ''.join(rng.choice(BLANKS) for _ in range(rng.choice([1, 1, 1, 2, 3])))
    def comment(): return ';' + rng.choice(['', ' c', ';;', ' "', ' x: .equ 5', ' \u00e9\u4e2d', ' ld v1, 2', '\t', ' $', ' @', '.db 1', ', 3', '"unterminated', '\\', '[i]', '%', '\r', "'", '4096', ' ' * 80, 'x' * 300])
    for t in toks:
        if t == '\n':
            if rng.random() < amount: out.append(rng.choice(['', blank()]) + comment())
            elif rng.random() < amount: out.append(blank())
            out.append('\n')
            while rng.random() < amount * .5: out.append(rng.choice(['', blank(), comment(), blank() + comment()]) + '\n')
        else:
            need = prev not in ('\n',) and (prev[-1].isalnum() or prev[-1] in '_.%$#') and (t[0].isalnum() or t[0] in '_.')
            if prev == '.' and t[0].isalnum(): need = False
            if need or rng.random() < amount: out.append(blank())
            out.append(t)
        prev = t
    return ''.join(out)

def recase(rng, text):
    """The same program with other letter case wherever case does not matter."""
    out = []
    toks = tokens(text)
    sig = [t for t in toks if not (t.isspace() and t != '\n')]
    labels = {sig[k] for k in range(len(sig) - 1) if sig[k + 1] == ':'}
    for k, t in enumerate(toks):
        if re.fullmatch(r'[$#][0-9a-fA-F]{1,3}', t): out.append(swapcase(rng, t))
        elif re.fullmatch(r'\[[iI]\]', t): out.append(swapcase(rng, t))
        elif re.fullmatch(r'[A-Za-z_][A-Za-z0-9_]*', t):
            rest = [x for x in toks[k + 1:k + 4] if not (x.isspace() and x != '\n')]
            islabel = bool(rest) and rest[0] == ':'
            before = [x for x in toks[max(0, k - 3):k] if not (x.isspace() and x != '\n')]
            first = not before or before[-1] in ('\n', ':', '.')
            if islabel: out.append(t)
            elif isreg(t) or (first and t.lower() in MNEMONICS + ['db', 'org', 'equ']): out.append(swapcase(rng, t))
            else: out.append(t)
        else: out.append(t)
    return ''.join(out)

def c11_bases(rng, thorough):
    b = [program(rng, bad=.25) for _ in range(700 if thorough else 260)]
    for form in FORMS: b.append(instruction(rng, form=form) + '\n')
    for _ in range(60): b.append(db(rng) + '\n')
    b += ['x: .equ 5\njp x\n', 'x:\n.equ 5\njp x\n', '.db 1, 2, 3\n', '.db 1,\n', 'ld v1,\n', 'ld v1, 2,\n', '.db ";", " ; ", "a;b" ; c\n', '.db "  a  b\t"\n', '.db\n', 'cls\n', 'a: b: c: jp a\n', '.org $200\ncls\n',
          'jp $200 ret\n', '.db 1 cls\n', 'x: cls\n', '.equ 5\n', '. db 1\n', 'x :\njp x\n', '.db " "\n', '.db "\\" ; "\n', 'ld [i], v1\n', 'ld v1, [i]\n', 'ld i, [i]\n']
    return b

def c11_large(rng, sizes):
    """Programs with very long comments, blanks and runs of lines: (base, variants)."""
    out = []
    for base in ['cls\nld v1, $2f\nx: jp x\n', 'x: .equ 5\n.db 1, "a ; b", 3\njp x\n', 'ld v1 v2\n', 'jp nowhere\n', '.org $200\ndrw va, vb, 3\n.org $100\nld [i], v3\n']:
        toks = [t for t in tokens(base) if t != ' ']
        vs = []
        for n in sizes:
            k = rng.randrange(len(toks))
            b = rng.choice(BLANKS)
            run = b * (n // len(b.encode()) + 1)
            gap = lambda filler, k: ''.join((filler if j == k else ' ') + t for j, t in enumerate(toks))
            vs.append(gap(run, k))
            vs.append(gap(' ' * n, rng.randrange(len(toks))))
            vs.append(base + ' ' * n + '\n')
            vs.append(base.replace('\n', ' ;' + 'c' * n + '\n', 1))
            vs.append(base.replace('\n', ' ;' + rng.choice(['\u00e9', '"', ';', ' ', ':', '\u4e2d ']) * (n // 2) + '\n', 1))
            vs.append('\n' * n + base)
            if n <= 70000:
                vs.append(base.replace('\n', '\n' + ' \n' * n, 1))
                vs.append(';\n' * n + base)
                vs.append(base.replace('\n', '\n' + '; c\n' * n, 1))
        out.append((base, vs))
    return out

C12_BASES = ['x: .equ $aBc\njp x\n', 'Loop: jp Loop\n', '.db $aB, #cD, "MiXed"\n', '.org $aBc\ncls\n']

def c12_variants(rng, thorough):
    """(base, variants)"""
    out = []
    for mn, kinds in FORMS:
        for _ in range(6 if thorough else 3):
            base = instruction(rng, plain=True, form=(mn, kinds)) + '\n'
            low = base.lower()
            vs = [low.upper(), low.title(), low.swapcase()] + [recase(rng, base) for _ in range(6)]
            out.append((base, vs))
    # every case variant of every word, alone
    import itertools
    def every(w): return [''.join(p) for p in itertools.product(*[sorted({c.lower(), c.upper()}) for c in w])]
    args = {}
    for mn, kinds in FORMS: args.setdefault(mn, kinds)
    for mn in MNEMONICS:
        ops = ', '.join(operands(rng, args[mn], lambda n: '1'))
        out.append(('%s %s\n' % (mn, ops), ['%s %s\n' % (w, ops) for w in every(mn)]))
    for d in ('db', 'org', 'equ'):
        out.append(('x: .%s 7\njp x\n' % d, ['x: .%s 7\njp x\n' % w for w in every(d)]))
    for reg, ctx in (('dt', 'ld v1, %s'), ('dt', 'ld %s, v1'), ('st', 'ld %s, v1'), ('k', 'ld v1, %s'), ('i', 'ld %s, 5'), ('i', 'add %s, v1'), ('[i]', 'ld %s, v1'), ('[i]', 'ld v1, %s'), ('i', 'ld %s, [i]'), ('[i]', 'ld i, %s'), ('b', 'ld %s, v1'), ('f', 'ld %s, v1')):
        out.append((ctx % reg + '\n', [ctx % w + '\n' for w in every(reg)]))
    for h in HEX:
        for ctx in ('shr %s', 'ld v1, %s', 'ld %s, v1', 'drw %s, v2, 3', 'drw v2, %s, 3', 'ld dt, %s', 'skp %s', 'ld %s, 5'):
            out.append((ctx % ('v' + h) + '\n', [ctx % w + '\n' for w in every('v' + h)]))
    for v in [rng.randrange(4096) for _ in range(120)] + [0xabc, 0xdef, 0xfed, 0xa, 0xb, 0xc, 0xd, 0xe, 0xf, 0xaf]:
        out.append(('jp $%x\n' % v, ['jp %s\n' % w for w in every('$%x' % v)] + ['jp %s\n' % w for w in every('#%x' % v)]))
    for _ in range(300 if thorough else 120):
        base = program(rng, bad=.2)
        out.append((base, [recase(rng, base) for _ in range(4)]))
    return out

def c12_labels(rng, thorough):
    """Programs where label case matters."""
    out = []
    for _ in range(1200 if thorough else 500):
        n = label(rng)
        vs = list({n, n.upper(), n.lower(), n.title(), swapcase(rng, n), swapcase(rng, n)})
        vs = [v for v in vs if not isreg(v)]
        rng.shuffle(vs)
        d = vs[:rng.randrange(1, len(vs) + 1)] if vs else ['zz']
        body = ['%s: %s' % (v, rng.choice(['cls', '.db 3', '.equ %d' % rng.randrange(4096)])) for v in d] + ['jp ' + rng.choice(vs or ['zz']) for _ in range(rng.randrange(1, 4))]
        if rng.random() < .3: rng.shuffle(body)
        out.append('\n'.join(body) + '\n')
    for w in ('ABC', 'abc', 'aBc', 'MiXeD'):
        out += ['.db "%s"\n' % w, 'x: .db "%s"\n' % w]
    return out

def fuzz(rng, n):
    out = []
    alpha = ['ld', 'jp', 'v1', 'V9', 'i', '[i]', 'x', 'x:', '.db', '.org', '.equ', '.', ':', ',', '"s"', '"', '\\', '5', '$1f', '#', '%', '%101', '4096', '\n', '\n', ' ', '\t', ';c', ';', '[', ']', '@', '\u00e9', '\U0001f600', '\0', '\r', '\x7f', '_', '-', '\u2028', '\ufeff', 'cls', 'drw v1, v2, 3', '.db 1, 2']
    for _ in range(n):
        k = rng.randrange(4)
        if k == 0:
            out.append(''.join(rng.choice(alpha) for _ in range(rng.randrange(1, 14))))
        elif k == 1:
            out.append(' '.join(rng.choice(alpha) for _ in range(rng.randrange(1, 14))) + '\n')
        elif k == 2:
            p = program(rng, bad=.2)
            p = list(p)
            for _ in range(rng.randrange(1, 4)):
                q = rng.randrange(len(p) + 1)
                j = rng.randrange(4)
                if j == 0 and p: del p[q % len(p)]
                elif j == 1: p.insert(q, rng.choice(alpha))
                elif j == 2 and p: p[q % len(p)] = chr(rng.choice([rng.randrange(1, 128), rng.randrange(128, 0x800), 0x1f600]))
                elif p: del p[q:]
            out.append(''.join(p))
        else:
            out.append(bytes(rng.choice([rng.randrange(256), rng.randrange(32, 127)]) for _ in range(rng.randrange(0, 60))))
    return out

def truncations(rng, thorough):
    base = ['a: ld v1, $12 ; c\n.db "x\\"y", %1.1, 300\n', '.org $200\nx: .equ 5\ndrw v1, v2, x\n', 'jp [i], "q\u00e9\U0001f600"\n', '.db 1,\n;\nld i, [i]\n']
    base += [program(rng, 6, bad=.2) for _ in range(12 if thorough else 4)]
    return [b[:k] for b in base for k in range(len(b) + 1)]

def badutf8(rng, thorough):
    seqs = [b'\x80', b'\xff', b'\xc0\x80', b'\xc1\xbf', b'\xc3', b'\xc3(', b'\xe0\x80\x80', b'\xe0\x9f\xbf', b'\xe2\x82', b'\xe2\x28\xa1', b'\xed\xa0\x80', b'\xed\xbf\xbf', b'\xf0\x80\x80\x80', b'\xf0\x8f\xbf\xbf', b'\xf4\x90\x80\x80', b'\xf5\x80\x80\x80', b'\xf8\x88\x80\x80\x80', b'\xf0\x9f\x98', b'\xfe', b'\xed\x9f\xbf', b'\xee\x80\x80', b'\xf4\x8f\xbf\xbf', b'\xf0\x90\x80\x80', b'\xe0\xa0\x80', b'\xc2\x80']
    out = []
    for s in seqs:
        out += [s, b'cls\n' + s, b'.db "' + s + b'"\n', b'; ' + s + b'\ncls\n', s + b'\n', b'cls\n' * 2000 + s]
    return out

def huge(rng, thorough):
    """Large inputs that the specification also runs."""
    k = 3 if thorough else 1
    out = ['.db ' + ', '.join(['1'] * 4095) + '\n', '.db ' + ', '.join(['1'] * 4096) + '\n', '.db ' + '1,' * 3000 + '\n', 'ld ' + ', '.join(['v1'] * 3000) + '\n', 'jp ' + 'a' * 3000 + '\n', 'x' * 5000 + ':\n',
           '.db "' + 'a' * 6000 + '"\n', '.db "' + '\u00e9' * 1500 + '"\n', 'jp ' + '1' * 3000 + '\n', 'jp %' + '0' * 3000 + '1\n', 'jp %' + '1' * 3000 + '\n', '\n' * 4000, ' ' * 4000 + 'cls\n', ';' + 'c' * 5000 + '\ncls\n',
           ''.join('l%d:\n' % n for n in range(1500)), 'cls\n' * 2047, 'cls\n' * 2048, '.org 1\n' * 1500, ':' * 3000, ',' * 3000, '.' * 3000, '"' * 3001, '[' * 3000, 'a: ' * 1000, 'a ' * 2001, '"\n' * 1001, '\\' * 2000, '$1' * 1500, '5 ' * 1500, '%1' * 1500,
           ''.join('.org %d\n.db 1\n' % (n * 3) for n in range(600)), ''.join('.org %d\n.db 1\n' % 7 for n in range(60))]
    return out

def enormous(rng, thorough):
    """Inputs too large for TLC; only totality is judged."""
    m = 4 if thorough else 1
    return ['.db ' + ', '.join(['1'] * (40000 * m)) + '\n', 'ld ' + ', '.join(['v1'] * (40000 * m)) + '\n', 'jp ' + 'a' * (300000 * m) + '\n', '.db "' + 'a' * (500000 * m) + '"\n', ';' + 'c' * (800000 * m) + '\n', '\n' * (200000 * m), ' ' * (300000 * m),
            'jp ' + '9' * (200000 * m) + '\n', 'jp %' + '0' * (200000 * m) + '\n', 'jp $' + 'f' * 100000 + '\n', 'cls\n' * (50000 * m), 'a:' * 30000, ''.join('l%d: .equ 1\n' % n for n in range(20000 * m)), '.org 1\n' * (30000 * m), ''.join('.org %d\n.db 1\n' % (n % 4095) for n in range(4095)) if thorough else ''.join('.org %d\n.db 1\n' % (n % 4095) for n in range(1200)),
            '"' + '\\"' * (100000 * m) + '"', '.db "' + '\\\\' * (100000 * m) + '"\n', '.db "' + '\U0001f600' * (50000 * m) + '"\n', '"' + 'a\n' * (50000 * m), bytes(rng.randrange(256) for _ in range(100000)), b'\0' * 100000, '\U0001f600' * 50000,
            'ld v1, ' * 30000 + '\n', ('.db ' + ', '.join(['"a"'] * 100) + '\n') * 300, ('x' * 2000 + ' ') * 100, ',' * 100000, '.' * 100000, ':' * 100000, '[' * 100000, '[i]' * 50000]

NAMES = ['t.s', 'game.asm', 'a', './t.s', 'sub/t.s', 'sub/deeper/x.y.s', './sub/../t.s', 'a b.s', '\u00e9\u4e2d.s', 'a:b.s', ':', 't.s:3', '-x.s', '--', "it's.s", '"q".s', '%s.s', '{}.s', '$1.s', 'tab\there.s', 'x' * 200 + '.s', 'UPPER.S', '.hidden', 'a\\b.s', 't.hex.s', ' lead', 'trail ', 'sub//t.s', '*.s', '1', '0.s', 'error']
PROGS = ['c8s', '/usr/bin/c8s', './c8s', 'my c8s', 'C8S', '\u00e9', 'x', '{}', '-c8s', 'a/b']
def named(rng, n):
    """Mistakes of every kind in files of every name."""
    bad = [lambda: mistake(rng) + '\n', lambda: 'cls\n\n  ' + mistake(rng) + '\n', lambda: '.db 1\n.org 0\n.db 2\n', lambda: '.db "a\nb" $\n', lambda: 'ld v1,', lambda: program(rng, 4, bad=1),
           lambda: 'x:\nx:\n', lambda: 'jp y\n', lambda: '.db 1, 2\n.org 1\ncls\n.org 0\n.db 1\n']
    out = [Named(b(), m, rng.choice(PROGS)) for m in NAMES for b in rng.sample(bad, min(n, len(bad)))]
    return out + [Named(b(), 't.s', g) for g in PROGS for b in bad]

ODD = ['\u0301', '\ufb03', '\u0130', '\u00df', '\u1e9e', '\u0345', '\u200d', '\U0001f468\u200d\U0001f469\u200d\U0001f467', '\U0001f1e9\U0001f1ea', '\u3042', '\uff21', '\u00e9', 'e\u0301', '\U0001f600', '\t', '\x01', '\x7f', '\x85', '\u2028', '\u202e', '\ufeff', '\0', '\x1b[31m', '\r', '\x0b', '\x0c', '\uffff', '\U0010ffff', '\u0e33', '\u1100\u1161', '\u05d0', '\u00ad']
def echoes(rng, thorough):
    """Mistakes whose diagnostics repeat names, operands and values of the source."""
    out = []
    for _ in range(900 if thorough else 350):
        n = label(rng)
        alt = list(dict.fromkeys([n, n.upper(), n.lower(), n.title(), swapcase(rng, n), n + '_', '_' + n, n[:-1] or 'q', n + '0', label(rng)]))
        alt = [a for a in alt if not isreg(a)] or ['q']
        defs = rng.sample(alt, rng.randint(1, min(4, len(alt))))
        lines = ['%s: %s' % (d, rng.choice(['', 'cls', '.db 1, 2', '.equ %d' % rng.randrange(4096)])) for d in defs]
        k = rng.randrange(5)
        if k == 0: lines.append(rng.choice(defs) + ':')
        elif k == 1: lines.append(rng.choice(['jp ', 'ld i, ', 'ld v1, ', 'drw v1, v2, ', 'call ']) + rng.choice(alt))
        elif k == 2: lines.append('%s %s' % (swapcase(rng, rng.choice(MNEMONICS)), ', '.join(rng.choice(['v1', 'VA', 'i', 'I', '[I]', 'K', 'dT', 'St', 'b', 'F', '5', '$fff', '$0a', '%101', rng.choice(defs), rng.choice(alt)]) for _ in range(rng.randrange(1, 7)))))
        elif k == 3: lines.append('.%s %s' % (rng.choice([rng.choice(alt), swapcase(rng, rng.choice(['db', 'org', 'equ', 'end', 'byte']))]), rng.choice(['', '1', '1, 2', '"a"', '300', '1, 2, 4095, 256', '"a", "b", 999, 1000', '"a", "b"', '4095'])))
        else: lines.append('%s %s' % (rng.choice(['ld v1,', 'drw v1, v2,', 'se v3,', 'add v2,', 'rnd v0,']), rng.choice([str(rng.randrange(16, 4096)), rng.choice(defs)])))
        if rng.random() < .4: rng.shuffle(lines)
        out.append('\n'.join(lines) + '\n')
    return out

def columns(rng, thorough):
    """Where wide, composed, invisible and multi-byte characters stand before the mistake."""
    out = []
    for c in ODD:
        for n in (1, 2, 3, 7):
            s = c * n
            out += ['.db "%s" @\n' % s, '.db "%s", $\n' % s, '.db "%s" "%s"\n' % (s, s), '; %s\n @\n' % s, '.db "%s\n%s" @\n' % (s, s), 'x: .db "%s", 4096\n' % s, '.db "%s", 1, 300\n' % s, '"%s"\n' % s, 'ld v1, "%s"\n' % s, '.org "%s"\n' % s, '.db 1 "%s\n"\n' % s,
                    '.db "%s" foo v1, 2\n' % s, '.db "%s" x: x:\n' % s, '.db "%s" jp nowhere\n' % s, '%s@\n' % s, 'cls %s\n' % s, 'cls ; %s\n%s\n' % (s, s), '.db "\\%s" $\n' % s, '.db "%s' % s, '.db "%s", .\n' % s]
    return out if thorough else rng.sample(out, 1200)

def c15(rng, thorough):
    """Rejected programs: every kind of mistake, at many positions."""
    out = []
    lead = ['', '\n', '\n\n  ', 'cls\n', '; \u00e9\u4e2d\n', '.db "\u00e9\U0001f600"\n', 'cls ; \u00e9\n\t', '.db "a\nb"\n', 'x: ', 'x:\n', '.db "a\n\n\nb" ', '\t \u3000', 'ld v1, 2 ', '.org $200\n', '\r\n\r\n', 'cls\n' * 9, 'cls\n' * 99, ' ' * 8, ' ' * 9, ' ' * 98, ' ' * 99, '.db "' + 'z' * 90 + '" ',
            'z: .equ 5\n', '.db 1, 2, 3 ; "\n', '; c', '.db "\\"" ', '\u2028\u2028', '\x85', '.db "\r\n" ', '\ufeff']
    for l in lead:
        for _ in range(24 if thorough else 14):
            out.append(l + mistake(rng) + rng.choice(['\n', '\n', '', ' ; c\n', '\ncls\n', '\n@\n', '\njp undefined_label\n']))
    for tok in ('5', '$ff', '"s"', '"a\nb"', '"\u00e9\u00e9"', '""', ',', ':', '@', '"', '$', '%', '[', '4096', '99999999999999999999999', '%1111111111111', '\u00e9', '\U0001f600', "'", '\0', '[i', '[j]', '\\', '\u0301', '-', '%' + '1' * 70, '\x7f', '!'):
        for ctx in ('%s\n', 'cls\n  %s\n', 'ld %s, v1\n', 'ld v1, %s\n', '.db %s\n', '.db 1, %s\n', '. %s\n', '.%s', 'x: %s\n', 'ld v1 %s\n', 'ld v1, %s', '.org %s\n', 'jp %s', '\u00e9%s', '.db "\u00e9", %s', 'a: b: %s', '.db 1 %s\n'):
            out.append(ctx % tok)
    for end in ('ld', 'ld v1,', 'ld v1', '.', '.db', '.db 1,', 'x', 'x:', 'cls', '.db "a"', '.org', '. ', 'ld ', 'a: .equ', '.db 1, ', 'cls ;', 'ld v1, ;', 'ld v1,\n', '.db 1,\n'):
        out += [end, 'cls\n' + end, end + ' ', end + '\n\n']
    for _ in range(1500 if thorough else 600):
        # two mistakes in one program: the first one counts
        p = program(rng, bad=0).split('\n')
        for _ in range(rng.choice([1, 2, 2, 3])):
            p.insert(rng.randrange(len(p)), mistake(rng))
        out.append('\n'.join(p))
    return out + fuzz(rng, 1500 if thorough else 500) + truncations(rng, thorough) + mixed(rng, 1000 if thorough else 300, .9) + c08(rng, False)[:300] + named(rng, 9 if thorough else 4) + columns(rng, thorough) + echoes(rng, thorough) + rng.sample(charsweep(rng, thorough), 4000 if thorough else 900)

def special_chars(rng):
    """Characters whose case mapping changes their number, and some of every category."""
    import unicodedata
    cats, multi = {}, []
    for c in range(0x110000):
        if 0xd800 <= c < 0xe000: continue
        ch = chr(c)
        cats.setdefault(unicodedata.category(ch) + str(len(ch.encode())), []).append(c)
        if len(ch.upper()) > 1 or len(ch.lower()) > 1: multi.append(c)
    pick = []
    for k in sorted(cats): pick += rng.sample(cats[k], min(5, len(cats[k]))) + [cats[k][0], cats[k][-1]]
    return multi, pick

def charsweep(rng, thorough):
    """Characters that may or may not belong, standing between and inside tokens."""
    cs = list(range(0, 0x250)) + list(range(0x1680, 0x1682)) + list(range(0x180b, 0x1810)) + list(range(0x1ff8, 0x2070)) + list(range(0x2ffc, 0x3008)) + [0x1fff, 0x2800, 0x3164, 0xfeff, 0xfffc, 0xfffd, 0xfffe, 0xffff, 0xff10, 0xff21, 0xff1a, 0xff0c, 0xff0e, 0x661, 0x7c0, 0x966, 0x2160, 0x212a, 0x17f, 0x130, 0x131, 0x301, 0x200b, 0x200c, 0x200d, 0x2060, 0xe000, 0xd7ff, 0x10000, 0x1d7ce, 0x1f600, 0xe0020, 0x10ffff]
    cs += [rng.randrange(0x250, 0xd800) for _ in range(300)] + [rng.randrange(0xe000, 0x110000) for _ in range(100)]
    multi, pick = special_chars(rng)
    # those that case folding, digit or blank tests may take for an ASCII one
    folds = {0x17f, 0x212a, 0x130, 0x131, 0xfeff, 0x200b, 0x661, 0xff10, 0xff21, 0xff41, 0x2028, 0x180e, 0x1d7ce, 0x37e, 0x2024, 0xa0}
    out = []
    for c in sorted(folds - set(cs)) + cs + multi + pick:
        ctx = ['cls\n%s\nret\n', 'cls %s\nret\n', 'cls%s\nret\n', 'jp%s5\nret\n', 'ld v1,%s5\n', '.db 1%s, 2\n', '%scls\n', 'jp a%s\na:\n', 'a%sb: cls\n', 'ld v%s, 1\n', 'jp 1%s0\n', '.%sdb 1\n', 'x%s: jp x\n', 'jp $%s1\n', 'ld [%s], v1\n', '; %s\ncls\n', 'cls ;%s\nret\n', '.d%sb 1\n', 'c%sls\n', 'cls\n%s']
        for x in (ctx if c < 256 or thorough or c in folds else rng.sample(ctx, 5)):
            out.append(x % chr(c))
    return out

def c18(rng, thorough):
    toks = ['a', 'x', 'ld', 'cls', 'v1', 'i', '[i]', '1', '$ff', '"s"', '""', ',', ',', ':', '.', '\n', '\n', ';c\n', 'db', 'org', 'equ', '.db', '.org', 'a:', 'jp', '"', '@', '[', '%', '$', '\\', '4096']
    out = []
    for _ in range(8000 if thorough else 3000):
        n = rng.randrange(1, 9)
        out.append(rng.choice([' ', ' ', '', '\t']).join(rng.choice(toks) for _ in range(n)) + rng.choice(['\n', '\n', '']))
    # valid lines with one token removed, doubled, or swapped
    for _ in range(3000 if thorough else 1200):
        base = '\n'.join([rng.choice([instruction(rng), db(rng), 'x%d: cls' % rng.randrange(9), '.org $%x' % rng.randrange(4000)]) for _ in range(rng.choice([1, 2, 3]))]) + '\n'
        t = [x for x in tokens(base)]
        k = rng.randrange(len(t))
        op = rng.randrange(4)
        if op == 0: del t[k]
        elif op == 1: t.insert(k, t[k] + ' ')
        elif op == 2: t.insert(k, rng.choice(toks) + ' ')
        else:
            j = rng.randrange(len(t)); t[k], t[j] = t[j], t[k]
        out.append(''.join(t))
    # something valid, then something wrong, then something valid
    wrong = [',', ':', '5', '"s"', '"', '@', '.', '. 1', '.db ,', 'ld ,', 'ld v1,,v2', '.db 1,,2', ': x', 'x::', 'x: :', '..org 5', '[', '[v1]', ']', '(', '%', '%2', '$', '$g', "'a'", 'ld v1 v2', 'ld v1; v2', 'db 1', 'org 5', '.db 1 2', '.db x', '.org x', 'a b c', 'ld v1, v2 v3', '1 ld', ', ld v1, v2', 'ld v1, "s"', '-1', '#', '&', '\u00e9', '\0', 'cls,', 'cls :', 'x : cls', 'cls cls', 'ld v1, 2 cls', '.db 1 cls', '.db 1 .db 2', '.org 5 cls', 'x: y: cls']
    for w in wrong:
        for a in ('', 'cls\n', '.db 1\n', 'q:\n'):
            for z in ('\n', '\ncls\n', '', ' ; c\n', '\n.db 9\n'):
                out.append(a + w + z)
    sweep = charsweep(rng, thorough)
    return out + (sweep if thorough else rng.sample(sweep, 3500)) + mixed(rng, 800 if thorough else 300, .6) + truncations(rng, thorough)

def c20(rng, thorough):
    """Programs of every kind, mostly accepted ones: a run that succeeds is silent."""
    out = mixed(rng, 1500 if thorough else 500, .05)
    for c in (c01, c03, c04, c05, c06, c07, c08, c09, c10):
        l = [s for s in c(rng, False) if not isinstance(s, bytes) and len(s) < 4000]
        out += rng.sample(l, min(len(l), 900 if thorough else 200))
    for n in (2, 15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1025, 2049, 3585, 4095):
        out += ['.db 1\n' * n if n < 600 else '.db ' + ', '.join(['1'] * n) + '\n', ''.join('l%d:\n' % k for k in range(min(n, 600))), '.org %d\n' % n * 2 + 'cls\n', '; c\n' * min(n, 800) + 'ret\n', '.db "' + 'x' * n + '"\n',
                ''.join('x%d: .equ %d\n' % (k, k % 4096) for k in range(min(n, 500)))]
    return out
