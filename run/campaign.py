"""Runs cases on the real code (the replay program) and compares with the oracle, per property."""
import os, random, re, resource, struct, subprocess, sys, time
import cases, oracle

sys.setrecursionlimit(20000)
CRASH = 'CRASH'


def _limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def feed(cs):
    return b''.join(struct.pack('<I', len(d) + 2) + bytes([k, x]) + d for k, x, d in cs)


# which characters Debug writes as \u{..} depends on the tables of the standard library, not on the code under test
ESC_RE = re.compile(r'\\\\|\\u\{([0-9a-f]+)\}')


def unescape(t):
    def f(m):
        v = int(m.group(1), 16) if m.group(1) else 0
        return chr(v) if v >= 0x80 else m.group(0)
    return ESC_RE.sub(f, t) if '\\u{' in t else t


def parse(out):
    res, p, n = [], 0, len(out)
    while True:
        s = []
        for _ in range(7):
            if p + 4 > n:
                return res
            m = struct.unpack_from('<I', out, p)[0]
            if p + 4 + m > n:
                return res
            t = out[p + 4:p + 4 + m].decode('utf-8', 'replace')
            s.append(unescape(t) if len(s) in (0, 2, 3) else t)
            p += 4 + m
        res.append(s)


ENV = {}


def one(binary, case, timeout=20):
    """(sections or None, the step that crashed or hung, how)"""
    try:
        p = subprocess.run([binary], input=feed([case]), capture_output=True, timeout=timeout, preexec_fn=_limits, env=dict(os.environ, STAGE='1', **ENV))
    except subprocess.TimeoutExpired as e:
        st = re.findall(rb'STAGE (\w+)', e.stderr or b'')
        return None, (st[-1].decode() if st else 'read'), 'no answer within %d s' % timeout
    r = parse(p.stdout)
    if r:
        return r[0], None, None
    st = re.findall(rb'STAGE (\w+)', p.stderr)
    return None, (st[-1].decode() if st else 'read'), 'the process ended with status %d' % p.returncode


def run_real(binary, cs):
    """Per case the seven sections, or (CRASH, step, how)"""
    res = []
    while len(res) < len(cs):
        part = cs[len(res):len(res) + 4000]
        try:
            p = subprocess.run([binary], input=feed(part), capture_output=True, timeout=60 + len(part) * (0.05 if ENV else 0.01), preexec_fn=_limits, env=dict(os.environ, **ENV))
            out = p.stdout
        except subprocess.TimeoutExpired as e:
            out = e.stdout or b''
        r = parse(out)[:len(part)]
        res.extend(r)
        if len(r) < len(part):
            s, step, how = one(binary, part[len(r)])
            res.append(s if s is not None else (CRASH, step, how))
    return res


# ------------------------------------------------------------- projections
HEAD_ERR = ('BadMagic', 'UnknownVersionBytes', 'UnknownVersion', 'UnknownReservedSchema')
FRAME_ERR = ('UnexpectedEndOfStream', 'UnexpectedStreamAlignment', 'WrongWordCountForOp', 'UnexpectedEndOfInstruction', 'InstructionHadExcessData')
HEAD_RE = re.compile(r'Ok\((RawModule \{ version: .*?, generator: .*?, bound: \d+, instructions: \[)')


def err_name(s):
    m = re.match(r'Err\((\w+)', s)
    return m.group(1) if m else None


def diff(what, want, got):
    return {'what': what, 'expected': want, 'observed': got}


def crashed(g):
    return isinstance(g, tuple)


# set when an obligation of the property's own functions fails that says: it returns, without a panic
PANICS = [False]


def p_header(case, w, g):
    if crashed(g):
        return diff('reading the module', w.s[0], g[2]) if PANICS[0] and g[1] == 'read' else None
    got, e = g[0], err_name(g[0])
    n = len(case[2])
    if n <= 20 or (w.err and w.err.name in HEAD_ERR):
        return diff('result of reading the module', w.s[0], got) if got != w.s[0] else None
    if e in HEAD_ERR:
        return diff('result of reading the module', w.s[0], got)
    m = HEAD_RE.match(got)
    if w.module and m:
        h = oracle.header_dbg(w.module)
        return diff('header of the module', h, m.group(1)) if m.group(1) != h else None
    return None


BASIC = {'OpNop', 'OpTypeVoid', 'OpTypeStruct', 'OpConstant'}


def panic(w, g):
    """The result is a panic, or none"""
    if PANICS[0] and (not crashed(g) or g[1] == 'read'):
        return diff('reading the module', w.s[0], g[2] if crashed(g) else 'a panic')
    return None


def p_framing(case, w, g):
    if crashed(g) or g[0] == 'PANIC':
        return panic(w, g)
    got, e = g[0], err_name(g[0])
    if w.err:
        if w.err.name in FRAME_ERR:
            return diff('result of reading the module', w.s[0], got) if got != w.s[0] and (e is None or e in FRAME_ERR) else None
        return diff('result of reading the module', w.s[0], got) if e in FRAME_ERR else None
    if e:
        return diff('result of reading the module', w.s[0], got) if e in FRAME_ERR else None
    names = [i.t for i in w.module.insts]
    if set(names) <= BASIC:
        return diff('result of reading the module', w.s[0], got) if got != w.s[0] else None
    have = re.findall(r'(Op\w+)\(\1\b', got)
    return diff('instructions read', ' '.join(names), ' '.join(have)) if len(have) != len(names) else None


def p_read(case, w, g):
    if crashed(g) or g[0] == 'PANIC':
        return panic(w, g)
    return diff('result of reading the module', w.s[0], g[0]) if g[0] != w.s[0] else None


def p_read_total(case, w, g):
    if crashed(g):
        return diff('reading the module', w.s[0], g[2]) if g[1] == 'read' else None
    return diff('reading the module', w.s[0], 'a panic') if g[0] == 'PANIC' else None


def p_text(case, w, g):
    if crashed(g):
        return diff('text of the module', w.s[1], g[2]) if g[1] == 'text' else None
    if g[0] != w.s[0]:
        return None
    return diff('text of the module' if w.module else 'text of the error', w.s[1], g[1]) if g[1] != w.s[1] else None


def p_partition(case, w, g):
    if PANICS[0] and w.secs and p_valid_total(case, w, g):
        return p_valid_total(case, w, g)
    if crashed(g) or g[0] != w.s[0] or not w.module or g[2] == 'PANIC':
        return None
    if not w.secs:
        # out of layout order: no sections read in order hold these instructions
        return diff('result of validate', w.s[2], g[2]) if g[2].startswith('Ok(') else None
    return diff('result of validate', w.s[2], g[2]) if g[2] != w.s[2] else None


def p_accept(case, w, g):
    if PANICS[0] and w.module and p_valid_total(case, w, g):
        return p_valid_total(case, w, g)
    if crashed(g) or g[0] != w.s[0] or not w.module or g[2] == 'PANIC':
        return None
    if w.secs:
        return diff('result of validate', w.s[2], g[2]) if not g[2].startswith('Ok(') else None
    return diff('result of validate', w.s[2], g[2]) if g[2] != w.s[2] else None


def p_valid_total(case, w, g):
    if crashed(g):
        return diff('validating the module', w.s[2], g[2]) if g[1] == 'validate' else None
    return diff('validating the module', w.s[2], 'a panic') if g[2] == 'PANIC' else None


def per_fn(w, g, k):
    if w.s[3] is None or not w.secs or g[2] != w.s[2] or g[0] != w.s[0]:
        return []
    a, b = w.s[k].split(oracle.SEP), g[k].split(oracle.SEP)
    return list(zip(a, b)) if len(a) == len(b) else [(w.s[k], g[k])]


def p_tree(case, w, g):
    if crashed(g):
        return p_tree_total(case, w, g) if PANICS[0] and w.s[3] and 'Ok' in w.s[3] else None
    for a, b in per_fn(w, g, 3):
        if PANICS[0] and b == 'PANIC' and a.startswith('Ok'):
            return diff('control flow of a function', a, b)
        if b != 'PANIC' and a != b and (a.startswith('Ok') or b.startswith('Ok')):
            return diff('control flow of a function', a, b)
    return None


def p_tree_total(case, w, g):
    if crashed(g):
        return diff('control flow of a function', w.s[3], g[2]) if g[1] == 'control' and w.s[3] is not None else None
    for a, b in per_fn(w, g, 3):
        if a != b and (b == 'PANIC' or a.startswith('Err') or b.startswith('Err')):
            return diff('control flow of a function', a, b)
    return None


def p_print(case, w, g):
    if crashed(g):
        return diff('text of the control flow', w.s[4], g[2]) if g[1] == 'print' and w.s[3] is not None else None
    if not w.secs or w.s[3] is None or g[3] != w.s[3] or g[1] != w.s[1]:
        return None
    for k, what in ((4, 'text of the control flow tree'), (5, 'text of the function')):
        for a, b in per_fn(w, g, k):
            if a != b:
                return diff(what, a, b)
    return None


def p_copy(case, w, g):
    if crashed(g) or g[6] in ('', 'PANIC'):
        return None
    what, _, detail = g[6].partition(': ')
    return diff('copies and comparisons', 'copies equal to their originals, and equality exactly of values that show the same', what + ': ' + detail)


# property: families with the number of random cases, projection
PLAN = {
    'C01': ([('header', 800)], p_header),
    'C02': ([('endian', 1500)], None),
    'C03': ([('framing', 1500)], p_framing),
    'C04': ([('opcodes', 1500)], p_read),
    'C05': ([('enums', 0)], p_read),
    'C06': ([('strings', 1500)], p_read),
    'C07': ([('varlen', 1000)], p_read),
    'C08': ([('ext', 2000)], p_read),
    'C09': ([('garbage', 8000), ('framing', 500), ('strings', 300), ('varlen', 300), ('header', 100), ('ext', 300)], p_read_total),
    'C10': ([('layout', 1200)], p_partition),
    'C11': ([('layout', 1200)], p_accept),
    'C12': ([('layout', 1000), ('layout_big', 0)], p_valid_total),
    'C13': ([('cfg', 1500)], p_tree),
    'C14': ([('cfg', 1500)], p_tree_total),
    'C15': ([('cfg', 1000)], p_print),
    'C17': ([('copies', 150), ('ext', 300), ('cfg', 60)], p_copy),
    'C16': ([('text', 500), ('enums', 0), ('strings', 200)], p_text),
}


def p_valid(case, w, g):
    if crashed(g) or g[0] != w.s[0] or not w.module:
        return None
    return diff('result of validate', w.s[2], g[2]) if g[2] != w.s[2] else None


def p_flow(case, w, g):
    if crashed(g):
        return None
    for a, b in per_fn(w, g, 3):
        if a != b:
            return diff('control flow of a function', a, b)
    return None


# what else an obligation that failed may show as: properties that share their functions
WIDE = {'C01': p_read, 'C03': p_read, 'C09': p_read, 'C10': p_valid, 'C11': p_valid, 'C12': p_valid, 'C13': p_flow, 'C14': p_flow}


class Campaign:
    def __init__(self, binary, prop, dic):
        self.binary, self.prop, self.dic = binary, prop, dic
        self.n, self.distinct, self.found, self.samples = 0, set(), None, []
        self.fams = {}
        self.proj = None
        ENV.clear()
        PANICS[0] = False
        if prop == 'C17':
            ENV['COPIES'] = '1'

    def run(self, seed, scale=1.0, deadline=None):
        """True when a violation was found"""
        fams, proj = PLAN[self.prop]
        proj = self.proj or proj
        for f, n in fams:
            if deadline and time.time() > deadline:
                return False
            r = random.Random('%s/%s/%d' % (self.prop, f, seed))
            cs = cases.FAMS[f](r, self.dic, int(n * scale))
            if self.prop == 'C02':
                bad = self.pairs(cs)
            else:
                bad = self.single(f, cs, proj, deadline)
            if bad:
                return True
        return False

    def note(self, f, cs):
        self.n += len(cs)
        self.fams[f] = self.fams.get(f, 0) + len(cs)
        for c in cs:
            if len(c[2]) > 20:
                self.distinct.add(hash(c))
        if len(self.samples) < 3 and cs:
            c = cs[len(cs) // 2]
            self.samples.append({'family': f, 'sets': c[0], 'insert': c[1], 'module_hex': c[2][:200].hex()})

    def single(self, f, cs, proj, deadline):
        for k in range(0, len(cs), 4000):
            if deadline and time.time() > deadline:
                return False
            part = cs[k:k + 4000]
            self.note(f, part)
            for c, g in zip(part, run_real(self.binary, part)):
                w = None if ENV else oracle.expect(c)
                d = proj(c, w, g)
                if d:
                    self.found = (c, d)
                    return True
        return False

    def pairs(self, cs):
        self.note('endian', [c for p in cs for c in p])
        a = run_real(self.binary, [p[0] for p in cs])
        b = run_real(self.binary, [p[1] for p in cs])
        for (c, c2), x, y in zip(cs, a, b):
            if crashed(x) or crashed(y):
                if crashed(x) != crashed(y) and 'read' in (x[1] if crashed(x) else '', y[1] if crashed(y) else ''):
                    self.found = (c2, diff('the same module in the other byte order', x[2] if crashed(x) else x[0], y[2] if crashed(y) else y[0]))
                    return True
                continue
            if x[0] != y[0]:
                self.found = (c2, diff('the same module in the other byte order', x[0], y[0]))
                return True
        return False


def minimise(binary, prop, case, d, proj=None):
    """Drop instructions while the violation stays"""
    proj = proj or PLAN[prop][1]
    if proj is None:
        return case, d
    k, x, data = case
    if data[:4] not in (b'\x03\x02\x23\x07', b'\x07\x23\x02\x03') or len(data) < 24 or x:
        return case, d
    fmt = '<' if data[0] == 3 else '>'
    insts, pos = [], 20
    while pos + 4 <= len(data):
        wc = struct.unpack_from(fmt + 'I', data, pos)[0] >> 16
        if wc == 0 or pos + 4 * wc > len(data):
            break
        insts.append(data[pos:pos + 4 * wc])
        pos += 4 * wc
    tail = data[pos:]
    t0 = time.time()
    size = max(1, len(insts) // 2)
    while size >= 1 and time.time() - t0 < 15:
        i = 0
        while i < len(insts) and time.time() - t0 < 15:
            c = (k, x, data[:20] + b''.join(insts[:i] + insts[i + size:]) + tail)
            d2 = proj(c, None if ENV else oracle.expect(c), run_real(binary, [c])[0])
            if d2:
                insts = insts[:i] + insts[i + size:]
                case, d = c, d2
            else:
                i += size
        size //= 2
    return case, d
