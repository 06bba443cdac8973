"""Inputs for the real code: families of modules, by property."""
import random, re, os, struct
from oracle import T, OPS, OPN, UNIMPL, ENUM, ECODE, MASK, STRUCT, UNITS, SETS

MAGIC = 0x07230203
HEAD = [MAGIC, 0x00010000, 0x00080001, 100, 0]
EDGE = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 99, 100, 127, 128, 255, 256, 257, 999, 1000, 1023, 1024, 4095, 4096, 9999, 10000, 32767, 32768, 65534, 65535,
        65536, 65537, 99999, 100000, 0x7FFFFF, 0xFFFFFF, 0x1000000, 999999999, 1000000000, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFF0000, 0xFFFFFFFE, 0xFFFFFFFF,
        0x01020304, 0x04030201, MAGIC, 0x03022307, 0x00FF00FF, 0xFF00FF00, 0x20202020, 0x00200020]
WORDS = ['', 'a', 'ab', 'abc', 'abcd', 'abcde', 'abcdef', 'abcdefg', 'abcdefgh', 'abcdefghi', 'main', 'gl_Position', '"', '\\', 'x"y', 'a b', 'tab\there', 'two\nlines',
         'caf\u00e9', '\u65e5\u672c', '\U0001F600', '\u00e9', 'a\u00e9', 'ab\u00e9', 'abc\u00e9', 'abcd\u00e9', '\u65e5ab', 'a\u65e5', 'ab\u65e5', '\U0001F600a', 'ab\U0001F600', ' ', '  lead', 'trail ', '%5', '{}', '{0}', '%s',
         'x' * 15, 'x' * 16, 'x' * 17, 'y' * 63, 'y' * 64, 'y' * 65, 'z' * 255, 'z' * 256, 'z' * 257, 'w' * 1023, 'w' * 1024, '\x01', '\x7f', '\r\n', 'GLSL.std.450', 'Test.a', 'OpNop']
# characters that text handling is apt to treat as something else: white space, marks, controls, the ends of the ranges
ODD = list('\ufeff\u00a0\u0085\u2028\u2029\u200b\u200d\u202e\u3000\u0301\u00ad\ufffd\uffff\ufffe\ud7ff\ue000\U00010000\U0010ffff\x7f\x80\x0b\x0c\x1b\x1f\t\n\r\'`$%#;|')
ODDSTR = [f % c for c in ODD for f in ('%s', '%sabc', 'abc%s', 'ab%scd', '%s%s') if f != '%s%s'] + [c + c for c in ODD[:9]]
BADSTR = [b'\xff', b'\xc3', b'\xc3\x28', b'\xe6\x97', b'\xf0\x9f\x98', b'\xed\xa0\x80', b'\xc0\x80', b'ab\xff', b'abc\xff', b'abcd\xff', b'\xf4\x90\x80\x80', b'\xe6\x97\xa5\xff', b'a\x80']


def swords(s, pad=b'\0'):
    b = s.encode('utf-8') if isinstance(s, str) else s
    n = len(b)
    b = b + b'\0'
    b += (pad * 4)[:-len(b) % 4]
    return list(struct.unpack('<%dI' % (len(b) // 4), b))


def inst(name, *ws):
    op = OPN[name]
    return [(len(ws) + 1) << 16 | op['code']] + list(ws)


def pack(words, le=True):
    return struct.pack('%s%dI' % ('<' if le else '>', len(words)), *words)


def module(insts, le=True, head=None, tail=b''):
    w = list(head or HEAD)
    for i in insts:
        w.extend(i)
    return pack(w, le) + tail


def sizes(dic, cap):
    """Sizes that the changed source mentions"""
    return [x for x in dic.get('new', []) if 0 < x <= cap]


class G:
    """Random values. `simple` keeps enumerants, masks and strings to a fixed few."""

    def __init__(self, rng, simple=False, dic=None):
        self.r, self.simple = rng, simple
        self.ints = EDGE + list((dic or {}).get('ints', []))
        self.new = list((dic or {}).get('new', []))
        self.strs = WORDS + ODDSTR + 4 * list((dic or {}).get('strs', []))
        self.ids = None
        self.sizes = [31, 32, 33, 63, 64, 65, 100, 128, 129] + sizes(dic or {}, 300)

    def word(self):
        r = self.r
        x = r.random()
        if self.new and x < 0.1:
            return r.choice(self.new)
        if x < 0.5:
            return r.randrange(1, 100)
        if x < 0.8:
            return r.choice(self.ints) & 0xFFFFFFFF
        if x < 0.9:
            return 1 << r.randrange(32)
        return r.getrandbits(32)

    def string(self):
        r = self.r
        if self.simple:
            return r.choice(['', 'a', 'main', 'abcd', 'color out'])
        if r.random() < 0.6:
            return r.choice(self.strs)
        return ''.join(r.choice('abcXYZ_019 .$\u00e9\u65e5\U0001F600"\\') for _ in range(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 12, 31, 32, 33])))

    def enc(self, t):
        r = self.r
        if t == 'u32' or t in UNITS:
            return [self.word()]
        if t == 'LitBytes':
            return [self.word() for _ in range(r.choice([0, 1, 1, 2, 3, 4]))]
        if t == 'LitString':
            return swords(self.string())
        if t.startswith('Option<'):
            return self.enc(t[7:-1]) if r.random() < 0.6 else []
        if t.startswith('Vec<'):
            out = []
            for _ in range(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17]) if r.random() < 0.97 else r.choice(self.sizes)):
                out += self.enc(t[4:-1])
            return out
        if t in MASK:
            bits = [b[1] or 8 for b in MASK[t]['bits']]
            m = 0 if self.simple else sum(b for b in bits if r.random() < 0.5)
            return [m] + ([self.word()] if t == 'LoopControl' and m & 8 else [])
        if t in STRUCT:
            return [w for _, ft in STRUCT[t] for w in self.enc(ft)]
        codes = sorted(ECODE[t])
        c = codes[0] if self.simple else r.choice(codes)
        if self.simple and ECODE[t][c]['args']:
            c = [x for x in codes if not ECODE[t][x]['args']][0]
        return [c] + [w for a in ECODE[t][c]['args'] for w in self.enc(a)]

    def op(self, name):
        return inst(name, *[w for _, t in OPN[name]['fields'] for w in self.enc(t)])


PLAIN = [o['name'] for o in T['ops'] if o['code'] is not None and o['name'] not in ('OpExtInst', 'OpExtInstImport')]
IMPORT = inst('OpExtInstImport', 1, *swords('GLSL.std.450'))


# ------------------------------------------------------------------ families
def fam_header(r, dic, n):
    g = G(r, True, dic)
    base = HEAD
    out = []
    for le in (True, False):
        for body in ([], [inst('OpNop')]):
            d = module(body, le)
            out.append((0, 0, d))
            for cut in range(0, 25):
                out.append((0, 0, d[:cut]))
        for pos in range(5):
            vals = [0, 1, MAGIC, 0x03022307, 0x00010000, 0x00000100, 0x01000000, 0x00010001, 0x00010100, 0x01010000, 0x00020000, 0x00010010, 0x00011000,
                    0x00010600, 0x00010300, 0x10000, 0x20000, 0xFFFFFFFF, 0x80000000, 0x07230202, 0x07230303, 0x07220203, 0x06230203, 0x87230203, 0x23070302] + EDGE + dic.get('ints', [])
            if pos == 2:
                vals = vals + [t << 16 | v for t in range(0, 40) for v in (0, 1, 0xFFFF)] + [0xFFFF << 16, 0x8000 << 16 | 7] + \
                    [(t & 0xFFFF) << 16 | (v & 0xFFFF) for t in dic.get('new', []) for v in dic.get('new', [])[:20]]
            if pos < 2:
                vals = vals + [base[pos] ^ (1 << b) for b in range(32)]
                vals += [(base[pos] & ~(0xFF << s)) | (x << s) for s in (0, 8, 16, 24) for x in range(0, 256, 1 if pos == 1 else 17)]
            for v in vals:
                h = list(base)
                h[pos] = v & 0xFFFFFFFF
                out.append((0, 0, module([], le, h)))
    for _ in range(n):
        h = [MAGIC, 0x10000, g.word(), g.word(), 0]
        if r.random() < 0.3:
            h[r.randrange(5)] = g.word()
        le = r.random() < 0.5
        out.append((0, 0, module([inst('OpNop')] * r.randrange(3), le, h)))
    return out


def fam_endian(r, dic, n):
    """Pairs: the same module in both byte orders"""
    g = G(r, False, dic)
    out = []
    for x in EDGE + dic.get('ints', []):
        out.append((0, [inst('OpConstant', 1, 2, x & 0xFFFFFFFF)], None))
        out.append((0, [], [MAGIC, 0x10000, x & 0xFFFFFFFF, 5, 0]))
        out.append((0, [], [MAGIC, 0x10000, 7, x & 0xFFFFFFFF, 0]))
        out.append((0, [], [MAGIC, x & 0xFFFFFFFF, 7, 9, 0]))
        out.append((0, [], [MAGIC, 0x10000, 7, 9, x & 0xFFFFFFFF]))
    for s in g.strs:
        out.append((0, [inst('OpName', 1, *swords(s))], None))
    for k in [8, 16, 17, 32, 64, 65, 100, 128, 256, 257, 500, 1000, 1024, 2000, 4096] + sizes(dic, 5000):
        out.append((0, [inst('OpTypeStruct', 1, *[g.word() for _ in range(k)])], None))
        out.append((0, [inst('OpString', 1, *swords('s' * k))], None))
        out.append((0, [inst('OpTypeFloat', i, 32) for i in range(k)], None))
    for _ in range(n):
        insts = [g.op(r.choice(PLAIN)) for _ in range(r.randrange(0, 6))]
        k = 0
        if r.random() < 0.3:
            k = r.choice([1, 2, 3])
            insts = ext_mod(r, g, k)
        if r.random() < 0.2 and insts:
            i = r.choice(insts)
            i[r.randrange(len(i))] ^= 1 << r.randrange(32)
        h = [MAGIC, 0x10000, g.word(), g.word(), 0] if r.random() < 0.5 else None
        out.append((k, insts, h))
    return [((k, 0, module(i, True, h)), (k, 0, module(i, False, h))) for k, i, h in out] + trunc_pairs(r, g)


def trunc_pairs(r, g):
    out = []
    for _ in range(60):
        i = [g.op(r.choice(PLAIN)) for _ in range(3)]
        a, b = module(i, True), module(i, False)
        c = r.randrange(4, len(a)) // 4 * 4
        out.append(((0, 0, a[:c]), (0, 0, b[:c])))
        t = bytes(r.randrange(256) for _ in range(r.randrange(1, 4)))
        out.append(((0, 0, a[:c] + t), (0, 0, b[:c] + t)))
        out.append(((0, 0, a + t), (0, 0, b + t)))
    return out


def fam_framing(r, dic, n):
    g = G(r, True, dic)
    out = []
    names = ['OpNop', 'OpTypeVoid', 'OpFunctionEnd', 'OpTypeStruct', 'OpMemoryModel', 'OpConstant', 'OpReturn', 'OpLabel', 'OpName', 'OpTypeFunction']

    def good():
        return g.op(r.choice(names))
    # every op: one word short, one word too many, and a word count that does not match
    for name in PLAIN:
        for d in (-1, 1, 2):
            i = g.op(name)
            i = i[:d] if d < 0 else i + [g.word() for _ in range(d)]
            if len(i) == 0:
                continue
            i[0] = len(i) << 16 | i[0] & 0xFFFF
            out.append((0, 0, module([i])))
            out.append((0, 0, module([inst('OpNop'), i, inst('OpNop')])))
        for wc in (0, 1, 2, 3, 200, 0x7FFF, 0x8000, 0xFFFF):
            i = g.op(name)
            i[0] = wc << 16 | i[0] & 0xFFFF
            out.append((0, 0, module([i])))
    for code in (0, 8, 34, 56, 253, 300, 65535):
        for wc in (0, 1, 2, 5):
            for k in range(0, 7):
                out.append((0, 0, module([[wc << 16 | code] + [0] * k])))
    for t in range(1, 8):
        for body in ([], [inst('OpNop')], [inst('OpTypeVoid', 4)], [good(), good()]):
            for le in (True, False):
                out.append((0, 0, module(body, le, None, b'\0' * t)))
                out.append((0, 0, module(body, le, None, bytes([1, 0, 2, 0, 0, 0, 1, 0][:t]))))
                d = module(body, le)
                if len(d) - t >= 20:
                    out.append((0, 0, d[:-t]))
    for m in (1, 2, 3, 4, 9, 10, 11, 16, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 300, 512, 1023, 1024, 1025, 1500, 4096, 5000) + tuple(x for x in dic.get('new', []) if 0 < x < 9000):
        out.append((0, 0, module([inst('OpNop')] * m)))
        out.append((0, 0, module([inst('OpTypeStruct', *range(m))])))
        out.append((0, 0, module([inst('OpConstant', *range(m + 2)), inst('OpNop')], m % 2 == 0)))
    out.append((0, 0, module([inst('OpTypeStruct', *([5] * 65534)), inst('OpTypeVoid', 6)])))
    for m in (32766, 32767, 32768, 40000, 65533):
        out.append((0, 0, module([inst('OpTypeStruct', *([5] * m)), inst('OpTypeVoid', 6)])))
    out.append((0, 0, module([inst('OpTypeVoid', i) for i in range(66000)])))
    for _ in range(n):
        b = [good() for _ in range(r.randrange(1, 12))]
        x = r.random()
        if x < 0.3:
            i = r.choice(b)
            i[0] = (max(0, len(i) + r.choice([-2, -1, 1, 2, 3])) & 0xFFFF) << 16 | i[0] & 0xFFFF
        elif x < 0.5:
            b.insert(r.randrange(len(b) + 1), [r.choice([0, 1, 2]) << 16 | r.choice([0, 19, 56, 300])])
        d = module(b, r.random() < 0.5)
        if x > 0.7:
            d = d[:r.randrange(20, len(d) + 1)]
        out.append((0, 0, d))
    return out


def fam_opcodes(r, dic, n):
    g = G(r, True, dic)
    out = []
    for code in list(range(0, 420)) + [1000, 4095, 4416, 5000, 32767, 32768, 65535] + [x & 0xFFFF for x in dic.get('new', [])]:
        if code not in OPS:
            for extra in (0, 1, 3):
                out.append((0, 0, module([[(1 + extra) << 16 | code] + [7] * extra])))
                out.append((0, 0, module([inst('OpNop'), [(1 + extra) << 16 | code] + [7] * extra])))
    for name in PLAIN:
        nf = len(OPN[name]['fields'])
        i = 0
        # each plain operand word at each edge value, the others distinct
        for rep in range(6):
            out.append((0, 0, module([g.op(name)])))
        g.ids = 10
        for x in [0, 1, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF] + dic.get('new', []):
            w = []
            k = 50
            for _, t in OPN[name]['fields']:
                e = g.enc(t)
                if t == 'u32' or t in UNITS or t in ('Vec<OpId>', 'LitBytes', 'Vec<PhiArg>', 'Option<OpId>'):
                    e = [x & 0xFFFFFFFF if r.random() < 0.6 else k + j for j, _ in enumerate(e)]
                    k += 10
                w += e
            out.append((0, 0, module([inst(name, *w)])))
    for _ in range(n):
        out.append((0, 0, module([g.op(r.choice(PLAIN)) for _ in range(r.randrange(1, 8))], r.random() < 0.8)))
    return out


def carriers(t):
    """Instructions with an operand of the type, as (name, index of the field)"""
    res = []
    for o in T['ops']:
        if o['code'] is None or o['name'] in ('OpExtInst', 'OpExtInstImport'):
            continue
        for i, (n, ft) in enumerate(o['fields']):
            if ft in (t, 'Option<%s>' % t, 'Vec<%s>' % t):
                res.append((o['name'], i))
    return res


def place(g, name, idx, ws):
    """The instruction with the words as its operand; later optional operands are left out"""
    out = []
    for i, (n, t) in enumerate(OPN[name]['fields']):
        if i == idx:
            out += ws
        elif i > idx and t.startswith('Option<'):
            continue
        elif i < idx and t.startswith('Option<'):
            out += g.enc(t[7:-1])
        else:
            out += g.enc(t)
    return inst(name, *out)


NESTED = {'BuiltIn': 11, 'FunctionParameterAttribute': 38, 'FpRoundingMode': 39, 'FpFastMathMode': 40, 'LinkageType': 41}


def swapped(w):
    return int.from_bytes(w.to_bytes(4, 'little'), 'big')


def fam_enums(r, dic, n):
    g = G(r, True, dic)
    out = []
    beyond = [0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 255, 256, 1000, 4416, 5000, 65535, 65536] + dic.get('ints', [])[:200] + dic.get('new', [])

    def put(t, w):
        if t in NESTED:
            pre = [NESTED[t]] + (swords('nm') if t == 'LinkageType' else [])
            for c, i in carriers('Decoration'):
                out.append((0, 0, module([place(g, c, i, pre + w)])))
        for c, i in carriers(t):
            out.append((0, 0, module([place(g, c, i, w)])))
    for t, e in ENUM.items():
        if not e.get('read'):
            continue
        mx = max(ECODE[t])
        for c in list(range(mx + 20)) + [c + (1 << b) for c in sorted(ECODE[t])[:8] for b in (8, 16, 31)] + [swapped(c) for c in ECODE[t]] + [(c << b) & 0xFFFFFFFF for c in sorted(ECODE[t])[:8] for b in (8, 16, 24)] + [0xFFFFFFFF - c for c in sorted(ECODE[t])[:4]] + beyond:
            v = ECODE[t].get(c)
            if v and v['args']:
                for _ in range(3):
                    put(t, [c] + [w for a in v['args'] for w in g.enc(a)])
                put(t, [c] + [w for a in v['args'] for w in (swords('L') if a == 'LitString' else [1])])
                put(t, [c])
            else:
                put(t, [c & 0xFFFFFFFF])
    for t, m in MASK.items():
        bits = [b[1] or 8 for b in m['bits']]
        vals = list(range(sum(bits) + 1)) + [swapped(c) for c in range(sum(bits) + 1)] + [c << 16 for c in range(sum(bits) + 1)] + [c | c << b for c in range(sum(bits) + 1) for b in (8, 16)] + [1 << b for b in range(32)] + [1 | 1 << b for b in range(32)] + [sum(bits) + 1, 0xFFFFFFFF, 0x80000000] + beyond
        for v in vals:
            v &= 0xFFFFFFFF
            if t == 'LoopControl' and v & 8:
                for d in (0, 1, 9, 0xFFFFFFFF):
                    put(t, [v, d])
                put(t, [v])
            else:
                put(t, [v])
    return out


def fam_strings(r, dic, n):
    g = G(r, True, dic)
    out = []
    cs = carriers('LitString')

    def put(ws):
        for c, i in cs:
            out.append((0, 0, module([place(g, c, i, ws)])))
        for c, i in carriers('Decoration'):
            out.append((0, 0, module([place(g, c, i, [41] + ws + [1])])))
    ss = WORDS + ODDSTR + dic.get('strs', [])
    for x in dic.get('new', []):
        if 0 < x < 300:
            ss += ['q' * (x - 1), 'q' * x, 'q' * (x + 1)]
    for s in ss:
        put(swords(s))
        put(swords(s, b'\xff'))
        put(swords(s, b'z'))
    for b in BADSTR:
        put(swords(b))
    for b in range(1, 256):
        put(swords(bytes([b])))
        put(swords(b'abc' + bytes([b])))
    # long texts, whole and spoilt at the start, in the middle and at the end
    for k in (15, 16, 17, 31, 33, 63, 65, 100, 127, 129, 255, 257, 513, 1025, 4099):
        for t in ('w' * k, ('ab\u00e9\u65e5' * k)[:k], ('a\U0001F600' * k)[:k]):
            b = t.encode()
            for v in [b] + [b[:j] + x + b[j:] for j in (0, 1, len(b) // 2, len(b) - 1, len(b)) for x in (b'\xff', b'\x80', b'\xc3', b'\xe6\x97', b'\xed\xa0\x80')]:
                c, i = r.choice(cs)
                out.append((0, 0, module([place(g, c, i, swords(v))])))
    # every character of a byte at every place of a short text, and longer ones at some
    for j in range(20):
        for x in list(range(1, 128)) + [0x80, 0xA0, 0xFF, 0x7FF, 0x800, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFF, 0x10000, 0x10FFFF]:
            c, i = r.choice(cs)
            out.append((0, 0, module([place(g, c, i, swords('k' * j + chr(x) + 'k' * r.randrange(5)))])))
    for s in ('', 'abc', 'abcd', 'ab'):
        put(swords(s) + [0])
        put(swords(s) + [0x61])
        put([0x64636261] * len(s))          # no nul at all
        put([0x64636261] * len(s) + [0x00636261])
    for _ in range(n):
        c, i = r.choice(cs)
        b = bytes(r.choice([97, 98, 0xC3, 0xA9, 0xE6, 0x97, 0xA5, 0x20, 0x7F, 0x80, 0xF0, 0x9F, 0x98]) for _ in range(r.randrange(0, 14)))
        if r.random() < 0.6:
            b = ''.join(r.choice(ODD) if r.random() < 0.1 else r.choice('abcdef \u00e9\u65e5\U0001F600"\\\t') for _ in range(r.randrange(0, 40))).encode()
        out.append((0, 0, module([place(g, c, i, swords(b, r.choice([b'\0', b'x', b'\xff'])))])))
    return out


VAR = [(o['name'], i, t) for o in T['ops'] if o['code'] is not None and o['name'] not in ('OpExtInst', 'OpExtInstImport')
       for i, (_, t) in enumerate(o['fields']) if t.startswith(('Option<', 'Vec<')) or t == 'LitBytes']


def fam_varlen(r, dic, n):
    g = G(r, True, dic)
    out = []
    var = VAR
    lens = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 4096] + [x for x in dic.get('new', []) if 0 < x < 3000]
    for name, i, t in var:
        for k in lens:
            if t == 'Option<LitString>' and k:
                ws = swords('s' * (4 * k - 1 - r.randrange(3)))
            elif t.startswith('Option<'):
                if k > 3:
                    break
                ws = [w for _ in range(k) for w in g.enc(t[7:-1])]
            elif t == 'LitBytes':
                ws = [g.word() for _ in range(k)]
            else:
                ws = [w for _ in range(k) for w in g.enc(t[4:-1])]
            m = place(g, name, i, ws)
            out.append((0, 0, module([m, inst('OpNop')])))
            if t == 'Vec<PhiArg>' or t == 'Option<BranchWeights>':
                out.append((0, 0, module([place(g, name, i, ws + [9])])))
        pre = [w for _, ft in OPN[name]['fields'][:i] for w in (g.enc(ft[7:-1]) if ft.startswith('Option<') else g.enc(ft))]
        for x in EDGE:
            out.append((0, 0, module([inst(name, *(pre + [x] * 1))])))
            out.append((0, 0, module([inst(name, *(pre + [3, x]))])))
    for _ in range(n):
        out.append((0, 0, module([g.op(r.choice(var)[0]) for _ in range(r.randrange(1, 5))])))
    return out


def ext_mod(r, g, k):
    names = ['GLSL.std.450', 'Test.a', 'Test.b', 'Test.c', '', 'GLSL.std.45', 'GLSL.std.4500', 'glsl.std.450', 'OpenCL.std', 'GLSL.std.450 ', ' GLSL.std.450', 'GLSL']
    have = [s[2] for s in SETS[k]]
    insts = []
    ids = [1, 2, 3, 4, 0, 0xFFFFFFFF, 257, 65537]
    used = []
    for _ in range(r.randrange(0, 4)):
        i = r.choice(ids)
        if i in used and r.random() < 0.7:
            continue
        used.append(i)
        insts.append(inst('OpExtInstImport', i, *swords(r.choice(have) if have and r.random() < 0.85 else r.choice(names))))
    for _ in range(r.randrange(0, 5)):
        s = r.choice(used) if used and r.random() < 0.85 else r.choice(ids)
        x = r.random()
        num = r.choice([13, 14]) if x < 0.5 else r.choice([0, 1, 2, 3, 4, 5, 7, 12, 15, 99, 100, 101, 269, 270, 65549, 0x8000000D, 0xFFFFFFFF]) if x < 0.9 else g.word()
        nargs = r.choice([0, 1, 1, 1, 2, 3])
        insts.append(inst('OpExtInst', g.word(), g.word(), s, num, *[g.word() for _ in range(nargs)]))
        if r.random() < 0.15:
            insts.append(inst('OpExtInstImport', r.choice(ids), *swords(r.choice(have or names))))
    return insts


def fam_ext(r, dic, n):
    g = G(r, True, dic)
    out = []
    for k in range(4):
        for nm in ['GLSL.std.450', 'Test.a', 'Test.b', 'Test.c', '', 'GLSL.std.45', 'GLSL.std.4500', 'glsl.std.450', 'GLSL.std.450 ', 'OpenCL.std', 'SPV_x'] + dic.get('strs', []):
            imp = inst('OpExtInstImport', 5, *swords(nm))
            out.append((k, 0, module([imp])))
            out.append((k, 0, module([imp, imp])))
            out.append((k, 0, module([imp, inst('OpExtInstImport', 6, *swords(nm))])))
            for num in [0, 1, 2, 3, 5, 7, 12, 13, 14, 15, 99, 100, 0xFFFFFFFF] + list(range(16, 82)) + [x | x << b for x in (13, 14) for b in (8, 16, 24)] + [x << b for x in (13, 14) for b in (8, 16, 24)] + [x | 1 << b for x in (13, 14) for b in range(4, 32)] + dic.get('new', []):
                for na in ((0, 1, 2, 3) if num < 16 or num > 81 else (1,)):
                    out.append((k, 0, module([imp, inst('OpExtInst', 2, 9, 5, num, *range(20, 20 + na))])))
            out.append((k, 0, module([imp, inst('OpExtInst', 2, 9, 4, 13, 20)])))
            out.append((k, 0, module([inst('OpExtInst', 2, 9, 5, 13, 20), imp])))
            out.append((k, 0, module([imp, [1 << 16 | 12]])))
            for na in range(1, 4):
                out.append((k, 0, module([imp, inst('OpExtInst', *([5] * na))])))
        for a in ('GLSL.std.450', 'Test.a', 'Test.b'):
            for b in ('GLSL.std.450', 'Test.a', 'Test.b'):
                for ia, ib in ((1, 2), (2, 1), (1, 1), (1, 257), (7, 0)):
                    m = [inst('OpExtInstImport', ia, *swords(a)), inst('OpExtInstImport', ib, *swords(b))]
                    for s in (ia, ib, 3):
                        for num in (13, 14, 2):
                            out.append((k, 0, module(m + [inst('OpExtInst', 2, 9, s, num, 33)])))
        # many imports
        have = [s[2] for s in SETS[k]]
        for c in [4, 5, 8, 9, 10, 12, 13, 16, 17, 20, 31, 32, 33, 64, 65, 100, 128, 129, 256, 257] + sizes(dic, 1000) if have else []:
            base = r.choice([1, 1, 50, 0x7FFFFFFF])
            m = [inst('OpExtInstImport', base + i, *swords(have[i % len(have)])) for i in range(c)]
            out.append((k, 0, module(m)))
            out.append((k, 0, module(m + [inst('OpExtInst', 2, 9, base + i, num, 33) for i in sorted(set([0, 1, c // 2, c - 2, c - 1])) for num in (13, 14)])))
            for i in (0, c // 2, c - 1, c):
                out.append((k, 0, module(m + [inst('OpExtInst', 2, 9, base + i, 13, 33)])))
                out.append((k, 0, module(m + [inst('OpExtInstImport', base + i, *swords(have[0])), inst('OpExtInst', 2, 9, base, 13, 33)])))
    for _ in range(n):
        k = r.randrange(4)
        out.append((k, 0, module(ext_mod(r, g, k), r.random() < 0.7)))
    return out


def fam_garbage(r, dic, n):
    g = G(r, False, dic)
    out = []
    for _ in range(n):
        x = r.random()
        if x < 0.15:
            d = bytes(r.getrandbits(8) for _ in range(r.randrange(0, 60)))
        elif x < 0.4:
            d = module([[g.word() for _ in range(r.randrange(1, 6))] for _ in range(r.randrange(0, 5))], r.random() < 0.5)
        elif x < 0.7:
            ws = []
            for _ in range(r.randrange(1, 5)):
                nw = r.randrange(0, 7)
                ws.append([(nw + 1) << 16 | r.choice(list(OPS) + [r.randrange(330)])] + [g.word() if r.random() < 0.6 else r.randrange(50) for _ in range(nw)])
            d = module(ws, r.random() < 0.5)
        else:
            d = bytearray(module([g.op(r.choice(PLAIN)) for _ in range(r.randrange(1, 6))]))
            for _ in range(r.randrange(1, 4)):
                d[r.randrange(20 if r.random() < 0.8 else 0, len(d))] = r.getrandbits(8)
            d = bytes(d)
        out.append((r.randrange(4), 0, d))
    for i, k in ((inst('OpNop'), 70000), (inst('OpName', 3, *swords('main')), 20000), (inst('OpTypeStruct', 3, *range(65000)), 2)):
        out.append((0, 0, module([i] * k)))
        out.append((0, 0, module([i] * k, tail=b'\0\0')))
    return out


# ---------------------------------------------------------------- whole modules
DEBUG = [o['name'] for o in T['ops'] if o['code'] is not None and o['group'] == 'GroupDebug']
ANN = [o['name'] for o in T['ops'] if o['group'] == 'GroupAnnotation']
GLOB = [o['name'] for o in T['ops'] if o['code'] is not None and o['group'] in ('GroupType', 'GroupConstant')]
CODE = [o['name'] for o in T['ops'] if o['code'] is not None and o['group'] == 'GroupCode' and o['name'] != 'OpExtInst']
FN_CODE = ECODE['StorageClass']
FUNCTION = [c for c, v in ECODE['StorageClass'].items() if v['name'] == 'Function'][0]


def variable(g, r, fn):
    sc = FUNCTION if fn else r.choice([c for c in ECODE['StorageClass'] if c != FUNCTION])
    return inst('OpVariable', g.word(), g.word(), sc, *([g.word()] if r.random() < 0.5 else []))


def some(r, big=0.05):
    return r.choice([0, 0, 1, 1, 2, 3, 4]) if r.random() > big else r.randrange(5, 40)


def code_inst(g, r):
    x = r.random()
    if x < 0.15:
        return variable(g, r, True)
    if x < 0.3:
        return inst('OpExtInst', 2, g.word(), 1, r.choice([13, 14]), g.word())
    return g.op(r.choice(CODE))


def layout(r, g, dic, fns=None):
    """A module in layout order, as a list of instructions"""
    m = []
    for _ in range(some(r)):
        m.append(g.op('OpCapability'))
    for _ in range(some(r)):
        m.append(g.op('OpExtension'))
    m.append(IMPORT[:])
    m.append(g.op('OpMemoryModel'))
    for _ in range(some(r)):
        m.append(g.op('OpEntryPoint'))
    for _ in range(some(r)):
        m.append(g.op('OpExecutionMode'))
    for _ in range(some(r)):
        m.append(g.op(r.choice(DEBUG)))
    for _ in range(some(r)):
        m.append(g.op(r.choice(ANN)))
    for _ in range(some(r, 0.1)):
        m.append(variable(g, r, False) if r.random() < 0.3 else g.op(r.choice(GLOB)))
    if fns is not None:
        return m + fns
    for _ in range(some(r)):
        m.append(g.op('OpFunction'))
        m += [g.op('OpFunctionParameter') for _ in range(some(r))]
        m.append(inst('OpFunctionEnd'))
    for _ in range(some(r)):
        m += function(r, g, blocks_random(r, g) if r.random() < 0.5 else structured(r, g))
    return m


def function(r, g, blocks):
    m = [g.op('OpFunction')] + [g.op('OpFunctionParameter') for _ in range(some(r))]
    for b in blocks:
        m += b
    return m + [inst('OpFunctionEnd')]


def block(r, g, label, branch, merge=None, code=None):
    b = [inst('OpLabel', label)]
    for _ in range(some(r) if code is None else code):
        b.append(code_inst(g, r))
    if merge:
        b.append(merge)
    return b + [branch]


def br(t):
    return inst('OpBranch', t)


def cond(g, r, a, b, w=None):
    return inst('OpBranchConditional', g.word(), a, b, *(([g.word(), g.word()] if r.random() < 0.4 else []) if w is None else w))


def blocks_random(r, g):
    n = r.randrange(0, 6)
    ids = [r.randrange(1, n + 2) if r.random() < 0.15 else i + 1 for i in range(n)]
    out = []
    for i in range(n):
        t = lambda: r.choice(ids + [n + 5]) if r.random() < 0.95 else g.word()
        x = r.random()
        branch = inst('OpReturn') if x < 0.3 else br(t()) if x < 0.65 else cond(g, r, t(), t())
        y = r.random()
        merge = None if y < 0.5 else inst('OpSelectionMerge', t(), r.randrange(4)) if y < 0.75 else inst('OpLoopMerge', t(), t(), *r.choice([[0], [1], [2], [4], [8, 5]]))
        out.append(block(r, g, ids[i], branch, merge))
    return out


def structured(r, g, depth=None, code=None, budget=14):
    """Blocks of a function with nested selections and loops, in a random order after the entry"""
    nxt = [r.choice([1, 1, 10, 1000])]
    out = []
    left = [budget]

    def new():
        nxt[0] += r.choice([1, 1, 2, 7])
        return nxt[0]

    def seq(start, end, d, loops):
        """Blocks from label `start` that leave to `end` (None: return)"""
        left[0] -= 1
        x = r.random()
        if left[0] <= 0 or d <= 0 or x < 0.2:
            out.append(block(r, g, start, br(end) if end is not None else inst('OpReturn'), None, code))
        elif x < 0.35:
            n = new()
            out.append(block(r, g, start, br(n), None, code))
            seq(n, end, d, loops)
        elif x < 0.65:
            mb = new()
            t = mb if r.random() < 0.2 else new()
            f = mb if r.random() < 0.3 else new()
            out.append(block(r, g, start, cond(g, r, t, f), inst('OpSelectionMerge', mb, r.choice([0, 0, 1, 2, 3])), code))
            if t != mb:
                seq(t, mb, d - 1, loops)
            if f != mb:
                seq(f, mb, d - 1, loops)
            seq(mb, end, d, loops)
        elif x < 0.88 or not loops or end != loops[-1][0]:
            after, body, cont = new(), new(), new()
            out.append(block(r, g, start, br(body), inst('OpLoopMerge', after, cont, *r.choice([[0], [0], [1], [2], [4], [5], [8, 3], [15, 0]])), code))
            seq(body, start, d - 1, loops + [(start, after)])
            seq(after, end, d, loops)
        else:
            head, after = loops[-1]
            n = new()
            out.append(block(r, g, start, cond(g, r, n, r.choice([head, after])), None, code))
            seq(n, end, d - 1, loops)
    entry = new()
    seq(entry, None, depth if depth is not None else r.choice([1, 2, 3, 4, 5]), [])
    i = [k for k, b in enumerate(out) if b[0][1] == entry][0]
    first = out.pop(i)
    if r.random() < 0.5:
        r.shuffle(out)
    return [first] + out


def fam_layout(r, dic, n):
    g = G(r, False, dic)
    out = []

    def add(m, x=0):
        out.append((1, x, module(m)))
    mm = inst('OpMemoryModel', 0, 1)
    fn, end, lab, ret = inst('OpFunction', 1, 2, 0, 3), inst('OpFunctionEnd'), inst('OpLabel', 9), inst('OpReturn')
    par = inst('OpFunctionParameter', 1, 4)
    G1 = G(r, True, dic)
    # every kind of instruction at every place of a small module
    base = [inst('OpCapability', 1), inst('OpExtension', *swords('e')), IMPORT, mm, inst('OpEntryPoint', 0, 2, *swords('m')), inst('OpExecutionMode', 2, 7),
            inst('OpName', 2, *swords('n')), inst('OpDecorate', 2, 2), inst('OpTypeVoid', 1), fn, par, end, fn, par, lab, inst('OpNop'), inst('OpSelectionMerge', 9, 0), inst('OpBranch', 9), end]
    add(base)
    for name in PLAIN + ['V', 'X', 'I']:
        for at in range(len(base) + 1):
            i = variable(G1, r, False) if name == 'V' else variable(G1, r, True) if name == 'OpVariable' else inst('OpExtInst', 2, 3, 1, 13, 4) if name == 'X' else inst('OpExtInstImport', 8, *swords('GLSL.std.450')) if name == 'I' else G1.op(name)
            if name == 'X' and at < 3:
                continue
            add(base[:at] + [i] + base[at:])
    for x in range(1, 7):
        for at in range(0, 16):
            add(base, at << 4 | x)
    for k in range(len(base)):
        if k != 2:
            add(base[:k] + base[k + 1:])
            add(base[:k])
        for j in range(len(base)):
            if k != 2 and j != 2:
                b = list(base)
                b[k], b[j] = b[j], b[k]
                add(b)
    for sc in ECODE['StorageClass']:
        v = inst('OpVariable', 1, 2, sc)
        add([mm, v])
        add([mm, fn, lab, v, ret, end])
    tails = [[], [fn], [end], [lab], [ret], [par], [fn, end], [fn, par], [fn, par, end], [fn, lab, ret, end], [fn, lab, ret], [fn, lab], [fn, lab, inst('OpNop')], [fn, fn], [fn, end, fn, end],
             [fn, end, fn, lab, ret, end], [fn, lab, ret, end, fn, end], [fn, lab, ret, end, fn, lab, ret, end], [fn, lab, ret, lab, ret, end], [fn, par, par, lab, ret, end, fn], [fn, lab, ret, end, end],
             [fn, lab, ret, end, mm], [fn, lab, inst('OpLoopMerge', 9, 9, 0), ret, end], [fn, lab, inst('OpLoopMerge', 9, 9, 0), inst('OpSelectionMerge', 9, 0), ret, end],
             [fn, lab, inst('OpLoopMerge', 9, 9, 0), inst('OpNop'), ret, end], [fn, inst('OpNop'), lab, ret, end], [fn, lab, ret, inst('OpNop'), end], [fn, par, lab, par, ret, end]]
    for t in tails:
        for u in tails:
            add([mm] + t + u)
    add([])
    for k in [10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 255, 256, 257, 1000, 3000] + sizes(dic, 6000):
        add([inst('OpCapability', 1)] * k + [mm])
        add([mm] + [inst('OpTypeVoid', i) for i in range(k)])
        add([mm] + [fn, end] * k)
        add([mm] + [fn, lab, ret, end] * k)
        add([mm, fn, lab] + [inst('OpNop')] * k + [ret, end])
        add([mm, fn] + [par] * k + [lab, ret, end])
        add([mm, fn] + [w for i in range(k) for w in (inst('OpLabel', i), ret)] + [end])
    for _ in range(n):
        m = layout(r, g, dic)
        if r.random() < 0.4 and len(m) > 1:
            x = r.random()
            k = r.randrange(len(m))
            j = r.randrange(len(m))
            if x < 0.3:
                m[k], m[j] = m[j], m[k]
            elif x < 0.5:
                m.insert(j, m[k])
            elif x < 0.7:
                m.insert(j, g.op(r.choice(PLAIN)))
            elif x < 0.85:
                m.pop(k)
            else:
                m = m[:k]
        add(m)
    return out


def mutate_cfg(r, g, blocks):
    b = [list(map(list, x)) for x in blocks]
    labels = [x[0][1] for x in b]
    for _ in range(r.choice([1, 1, 2]) if b else 0):
        x = r.choice(b)
        y = r.random()
        last = x[-1]
        if y < 0.35 and len(last) > 1:
            op = last[0] & 0xFFFF
            if op == OPN['OpBranch']['code']:
                last[1] = r.choice(labels + [77777])
            elif op == OPN['OpBranchConditional']['code']:
                last[r.choice([2, 3])] = r.choice(labels + [77777])
        elif y < 0.5:
            i = x[-2]
            if i[0] & 0xFFFF in (OPN['OpSelectionMerge']['code'], OPN['OpLoopMerge']['code']):
                if r.random() < 0.5:
                    i[1] = r.choice(labels + [77777])
                else:
                    x.pop(-2)
            else:
                x.insert(-1, r.choice([inst('OpSelectionMerge', r.choice(labels), 0), inst('OpLoopMerge', r.choice(labels), r.choice(labels), 0)]))
        elif y < 0.65:
            x[-1] = r.choice([inst('OpReturn'), br(r.choice(labels)), cond(g, r, r.choice(labels), r.choice(labels))])
        elif y < 0.75:
            x[0][1] = r.choice(labels)
        elif y < 0.85 and len(b) > 1:
            b.remove(x)
        elif len(last) == 4 + 2 * (len(last) > 4) and last[0] & 0xFFFF == OPN['OpBranchConditional']['code']:
            last[2], last[3] = last[3], last[2]
    return b


def cfg_module(r, g, fns):
    m = [IMPORT[:], inst('OpMemoryModel', 0, 1)]
    for f in fns:
        m += [inst('OpFunction', 1, 2, 0, 3)]
        for b in f:
            m += b
        m += [inst('OpFunctionEnd')]
    return m


def small_cfgs(r, g, limit):
    """Functions of one to three blocks: every branch and merge among the labels"""
    import itertools
    out = []
    for n in (1, 2, 3):
        labs = list(range(1, n + 1))
        tg = labs + ([9] if n < 3 else [])
        brs = [inst('OpReturn')] + [br(t) for t in tg] + [inst('OpBranchConditional', 5, a, b) for a in tg for b in tg]
        mgs = [None] + [inst('OpSelectionMerge', t, 0) for t in tg] + [inst('OpLoopMerge', t, tg[0], 0) for t in tg]
        per = [(b, m) for b in brs for m in mgs]
        total = len(per) ** n
        if total <= limit:
            combos = itertools.product(per, repeat=n)
        else:
            combos = ([r.choice(per) for _ in range(n)] for _ in range(limit))
        for c in combos:
            out.append([[inst('OpLabel', labs[i])] + ([m] if m else []) + [b] for i, (b, m) in enumerate(c)])
    return out


def fam_cfg(r, dic, n, small=600):
    g = G(r, False, dic)
    out = []

    def add(fns):
        m = module(cfg_module(r, g, fns))
        out.append((1, 0, m))
        if len(out) % 5 == 0 and len(m) < 3000:
            out.append((1, r.choice((12, 14, 15)), m))
    for f in small_cfgs(r, g, small):
        add([f])
    # long chains, deep nesting, many blocks
    for k in (2, 5, 10, 16, 17, 31, 32, 33, 60, 64, 65, 100, 127, 128, 129, 130, 200, 255, 256, 257, 300) + tuple(sizes(dic, 600)):
        add([[[inst('OpLabel', i), br(i + 1)] for i in range(k)] + [[inst('OpLabel', k), inst('OpReturn')]]])
    for k in [1, 2, 3, 4, 5, 8, 9, 10, 16, 17, 32, 33, 64, 65, 100, 128, 129, 256, 257, 300] + sizes(dic, 2000):
        c = [code_inst(g, r) for _ in range(k)]
        v = [variable(g, r, True) for _ in range(k)]
        add([[[inst('OpLabel', 1)] + c + [inst('OpReturn')]]])
        add([[[inst('OpLabel', 1)] + v + c[:3] + [inst('OpReturn')]]])
        add([[[inst('OpLabel', 1), inst('OpSelectionMerge', 3, 0), inst('OpBranchConditional', 5, 2, 3)], [inst('OpLabel', 2)] + c + [br(3)], [inst('OpLabel', 3)] + v + [inst('OpReturn')]]])
        add([[[inst('OpLabel', 1)] + c + [inst('OpReturn')]] for _ in range(min(k, 40))])
    for k in list(range(1, 13)) + [16, 17, 32, 33] + sizes(dic, 120):
        b = []
        for i in range(k):       # nested selections
            b.append([inst('OpLabel', 10 + i), inst('OpSelectionMerge', 1000 + i, i % 4), cond(g, r, 10 + i + 1, 1000 + i)])
        b.append([inst('OpLabel', 10 + k), br(1000 + k - 1)])
        for i in range(k):
            b.append([inst('OpLabel', 1000 + i), br(1000 + i - 1) if i else inst('OpReturn')])
        add([b])
        b = []
        for i in range(k):       # nested loops
            b.append([inst('OpLabel', 10 + i), inst('OpLoopMerge', 1000 + i, 5, i % 3), br(10 + i + 1)])
        b.append([inst('OpLabel', 10 + k), inst('OpBranchConditional', 3, 10 + k + 1, 1000 + k - 1)])
        b.append([inst('OpLabel', 10 + k + 1), br(10 + k - 1)])
        for i in range(k):
            b.append([inst('OpLabel', 1000 + i), br(10 + i - 1) if i else inst('OpReturn')])
        add([b])
        b = []
        for i in range(k):       # selections and loops in turn
            if i % 2:
                b.append([inst('OpLabel', 10 + i), inst('OpLoopMerge', 1000 + i, 5, 0), br(10 + i + 1)])
            else:
                b.append([inst('OpLabel', 10 + i), inst('OpSelectionMerge', 1000 + i, 0), cond(g, r, 10 + i + 1, 1000 + i)])
        b.append([inst('OpLabel', 10 + k), br(10 + k - 1 if (k - 1) % 2 else 1000 + k - 1)])
        for i in range(k):
            t = (10 + i - 1 if (i - 1) % 2 else 1000 + i - 1)
            b.append([inst('OpLabel', 1000 + i), br(t) if i else inst('OpReturn')])
        add([b])
    for w in ([], [0, 0], [1, 0], [0, 1], [7, 9], [0xFFFFFFFF, 1]):
        for h in range(4):
            add([[[inst('OpLabel', 1), inst('OpSelectionMerge', 3, h), inst('OpBranchConditional', 5, 2, 3, *w)], [inst('OpLabel', 2), br(3)], [inst('OpLabel', 3), inst('OpReturn')]]])
        for h in [[x] for x in range(8)] + [[x, d] for x in range(8, 16) for d in (0, 4)]:
            add([[[inst('OpLabel', 1), inst('OpLoopMerge', 3, 4, *h), br(2)], [inst('OpLabel', 2), inst('OpBranchConditional', 5, 4, 3, *w)], [inst('OpLabel', 4), br(1)], [inst('OpLabel', 3), inst('OpReturn')]]])
            add([[[inst('OpLabel', 1), inst('OpLoopMerge', 3, 4, *h), br(2)], [inst('OpLabel', 2), inst('OpBranchConditional', 5, 4, 1, *w)], [inst('OpLabel', 4), br(1)], [inst('OpLabel', 3), inst('OpReturn')]]])
    for _ in range(n):
        fns = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            x = r.random()
            f = structured(r, g, None, None if r.random() < 0.4 else 0, r.choice([6, 10, 14, 22])) if x < 0.9 else blocks_random(r, g)
            if r.random() < 0.35:
                f = mutate_cfg(r, g, f)
            fns.append(f)
        add(fns)
    return out


def fam_text(r, dic, n):
    g = G(r, False, dic)
    s = G(r, True, dic)
    out = []
    for h in list(range(0, 40)) + [255, 256, 1000, 1001, 4096, 32768, 65535]:
        for v in (0, 1, h, 65535 - h, 65535):
            for b in (7, h, v, h << 16 | v):
                out.append((0, 0, module([], True, [MAGIC, 0x10000, h << 16 | v, b, 0])))
    for name in PLAIN:
        for i in range(6):
            out.append((0, 0, module([(g if i else s).op(name)])))
        for x in [0, 9, 10, 99, 100, 999, 1000, 9999, 10000, 99999, 100000, 999999, 1000000, 9999999, 10000000, 99999999, 100000000, 999999999, 1000000000, 9999999999 & 0xFFFFFFFF, 0xFFFFFFFF]:
            w = []
            for _, t in OPN[name]['fields']:
                e = s.enc(t)
                w += [x] if t in ('ResultId', 'OpId') else e
            out.append((0, 0, module([inst(name, *w)])))
    for x in range(1, 7):
        out.append((0, x, module([inst('OpNop')])))
    for name, i, t in VAR:
        if not t.startswith('Option<'):
            for k in [2, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 258, 300] + sizes(dic, 3000):
                ws = [g.word() for _ in range(k)] if t == 'LitBytes' else [w for _ in range(k) for w in s.enc(t[4:-1])]
                out.append((0, 0, module([place(s, name, i, ws)])))
    for k in [2, 3, 10, 16, 17, 32, 33, 64, 65, 100, 101, 128, 129, 256, 257, 1000, 1001] + sizes(dic, 5000):
        out.append((0, 0, module([s.op(r.choice(PLAIN)) for _ in range(k)])))
        out.append((0, 0, module([inst('OpString', 3, *swords('t' * (k if k < 1500 else 1)))])))
        out.append((0, 0, module([inst('OpTypeVoid', i) for i in range(k)])))
    out += fam_ext(r, dic, 100)[::7]
    return out


def fam_layout_big(r, dic, n):
    mm = inst('OpMemoryModel', 0, 1)
    fn, end, lab, ret = inst('OpFunction', 1, 2, 0, 3), inst('OpFunctionEnd'), inst('OpLabel', 9), inst('OpReturn')
    k = 66000
    return [(0, 0, module(m)) for m in ([inst('OpCapability', 1)] * k + [mm], [mm] + [inst('OpTypeVoid', 3)] * k, [mm] + [fn, end] * (k // 2),
                                       [mm, fn, lab] + [inst('OpNop')] * k + [ret, end], [mm, fn] + [lab, ret] * (k // 2) + [end], [mm] + [fn, lab, ret, end] * (k // 4))]


def fam_copies(r, dic, n):
    """Each instruction beside itself with one word changed, and whole modules"""
    out = [(0, 0, b''), (0, 0, module([]))]
    for rep in range(3):
        g = G(r, rep == 0, dic)
        for name in PLAIN:
            a = g.op(name)
            v = [a, g.op(name), a]
            for i in range(1, min(len(a), 7)):
                for b in (1, 2, 1 << r.randrange(32), 1 << 31) if rep < 2 else [1 << x for x in range(0, 32, 3)]:
                    w = list(a)
                    w[i] ^= b
                    if valid(w):
                        v.append(w)
            out.append((0, 0, module(v)))
    # lists that differ in order, in length, in repetition, or only far back
    for name, i, t in VAR:
        if t.startswith('Option<'):
            continue
        for rep in range(3):
            g = G(r, rep > 0, dic)
            item = (lambda: [g.word()]) if t == 'LitBytes' else (lambda: g.enc(t[4:-1]))
            a, b, c = item(), item(), item()
            if rep == 2 and len(a) == 2:
                b, c = [a[0], b[1]], [b[0], a[1]]
            n0 = r.choice([10, 40, 70, 140, 300])
            far = [item() for _ in range(n0)]
            pre = place(g, name, i, [])[1:]
            for x in ([], a), ([a, b, c], b), ([a, a, b], a), (far, c):
                v = []
                for l in (x[0], x[0][::-1], x[0][1:] + x[0][:1], x[0][:-1], x[0] + [x[1]], x[0][:-1] + [x[1]], [x[1]] + x[0][1:], x[0] + x[0][-1:], [a, b, b], [b, a, a], [a, b, c], [a, c, b]):
                    w = inst(name, *(pre + [y for z in l for y in z]))
                    if valid(w):
                        v.append(w)
                out.append((0, 0, module(v)))
    g = G(r, False, dic)
    for t in sorted(ENUM) + sorted(MASK):
        vals = sorted(ECODE[t]) if t in ENUM and ENUM[t].get('read') else [b[1] or 8 for b in MASK[t]['bits']] + [0] if t in MASK else []
        for c, i in carriers(t)[:2]:
            v = []
            for x in vals[:40]:
                a = ECODE[t][x]['args'] if t in ENUM else []
                w = place(g, c, i, [x] + [w for y in a for w in g.enc(y)] + ([5] if t == 'LoopControl' and x & 8 else []))
                if valid(w):
                    v.append(w)
            if v:
                out.append((0, 0, module(v)))
    for _ in range(n):
        out.append((1, 0, module(layout(r, g, dic), r.random() < 0.8)))
    for k in (1, 2, 3):
        for _ in range(40):
            out.append((k, 0, module(ext_twins(r, g, k))))
    return out


def valid(w):
    from oracle import expect
    return expect((0, 0, module([w]))).err is None


def ext_twins(r, g, k):
    have = [s[2] for s in SETS[k]]
    insts = [inst('OpExtInstImport', i + 1, *swords(n)) for i, n in enumerate(have)]
    for _ in range(3):
        s = r.randrange(len(have)) + 1
        num, x = r.choice([13, 14, 13, 14, 1, 5]), g.word()
        for d in (0, 1):
            insts.append(inst('OpExtInst', 2, 9, s, num, x ^ d))
            insts.append(inst('OpExtInst', 2, 9, s, num ^ 3 if num > 12 else num, x ^ d))
        insts.append(inst('OpExtInst', 2, 9, r.randrange(len(have)) + 1, num, x))
    return insts


FAMS = {k[4:]: v for k, v in list(globals().items()) if k.startswith('fam_')}


def unescaped(s):
    """The text of a Rust string or character literal"""
    def one(m):
        x = m.group(1)
        if x[0] == 'u':
            n = int(x[2:-1].replace('_', ''), 16)
            return chr(n) if n < 0x110000 and not 0xd800 <= n < 0xe000 else ''
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        if x[0] == '\n':
            return ''
        return {'n': '\n', 'r': '\r', 't': '\t', '0': '\0'}.get(x, x)
    return re.sub(r'\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|\n\s*|.)', one, s, flags=re.S)


def literals(src):
    """How often each integer and string literal occurs in the source"""
    ints, strs = {}, {}
    for root, ds, fs in os.walk(src):
        if 'tests' in ds:
            ds.remove('tests')
        for f in fs:
            if f.endswith('.rs'):
                t = open(os.path.join(root, f), errors='replace').read()
                t = re.sub(r'//[^\n]*', '', t)
                for s in re.findall(r'"((?:[^"\\]|\\.)*)"', t):
                    if len(s) < 300:
                        strs[s] = strs.get(s, 0) + 1
                t = re.sub(r'"(?:[^"\\]|\\.)*"', '""', t)
                for s in re.findall(r'(?<![\w.])(0x[0-9a-fA-F_]+?|0b[01_]+|0o[0-7_]+|[0-9][0-9_]*)(?:[ui](?:8|16|32|64|size))?\b', t):
                    try:
                        k = str(int(s.replace('_', ''), 0 if s[:2] in ('0x', '0b', '0o') else 10))
                        ints[k] = ints.get(k, 0) + 1
                    except ValueError:
                        pass
                for s in re.findall(r"b?'(\\[^u']|\\'|\\x..|\\u\{[0-9a-fA-F_]+\}|[^'\\])'", t):
                    c = unescaped(s)
                    if len(c) == 1:
                        ints[str(ord(c))] = ints.get(str(ord(c)), 0) + 1
    return ints, strs


def mine(src, baseline):
    """Hints for the search: the literals, and those that occur more often than in the reference tree"""
    ints, strs = literals(src)
    new = set()
    for x in ints:
        if ints[x] > baseline['ints'].get(x, 0):
            x = int(x)
            new.update(y & 0xFFFFFFFF for y in (x - 1, x, x + 1) if y >= 0)
    news = []
    for x in ints:
        if ints[x] > baseline['ints'].get(x, 0) and 32 <= int(x) < 0x110000 and not 0xd800 <= int(x) < 0xe000:
            c = chr(int(x))
            news += [c, c + 'abc', 'abc' + c, 'ab' + c + 'cd']
    for s in strs:
        if strs[s] > baseline['strs'].get(s, 0):
            t = unescaped(s)
            if not re.search('[\x00-\x08\x1e]', t):
                news += [t, t + 'x', 'x' + t]
    return {'ints': sorted(set(int(x) & 0xFFFFFFFF for x in ints)), 'new': sorted(new), 'strs': news}
