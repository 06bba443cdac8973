"""What the library must do with a case, computed from the specification tables alone.

Independent of the Rust code: used to replay failed obligations against the real code
(find a failing input), never to decide a property.
"""
import json, os, struct

HERE = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(HERE, '..', 'spec', 'tables.json')))
OPS = {o['code']: o for o in T['ops'] if o['code'] is not None}
OPN = {o['name']: o for o in T['ops']}
UNIMPL = {c: n for c, n in T['unimplemented']}
DESC = dict(T['descriptions'])
VENDOR, TOOLNAME, TOOLS = dict(T['vendors']), dict(T['toolnames']), dict(T['tools'])
ENUM = {n: e for n, e in T['enums'].items()}
ECODE = {n: {v['code']: v for v in e['variants'] if v['code'] is not None} for n, e in ENUM.items()}
MASK = T['masks']
STRUCT = T['structs']
UNITS = ('OpId', 'ResultId', 'SourceVersion', 'MemberIndex')


class ReadErr(Exception):
    def __init__(self, name, *args):
        self.name, self.a = name, args

    def debug(self):
        return self.name + ('(%s)' % ', '.join(debug(x) for x in self.a) if self.a else '')


# ------------------------------------------------------------------- values
class W:
    """A newtype around a word"""
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, n


class E:
    __slots__ = ('t', 'v', 'a')

    def __init__(self, t, v, a=()):
        self.t, self.v, self.a = t, v, a


class S:
    """A struct (an instruction, a mask ...) with named fields"""
    __slots__ = ('t', 'f')

    def __init__(self, t, f):
        self.t, self.f = t, f

    def __getitem__(self, k):
        for n, v in self.f:
            if n == k:
                return v
        raise KeyError(k)


class Some:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


def esc(s):
    out = '"'
    for c in s:
        o = ord(c)
        if c == '"':
            out += '\\"'
        elif c == '\\':
            out += '\\\\'
        elif c == '\n':
            out += '\\n'
        elif c == '\t':
            out += '\\t'
        elif c == '\r':
            out += '\\r'
        elif o < 32 or o == 127:
            out += '\\u{%x}' % o
        else:
            out += c
    return out + '"'


def debug(v):
    if v is None:
        return 'None'
    if v is True or v is False:
        return 'true' if v else 'false'
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return esc(v)
    if isinstance(v, W):
        return '%s(%d)' % (v.t, v.n)
    if isinstance(v, Some):
        return 'Some(%s)' % debug(v.v)
    if isinstance(v, list):
        return '[%s]' % ', '.join(map(debug, v))
    if isinstance(v, E):
        if v.t == 'ext':
            return 'ExtInstBox(%s)' % v.a[0]
        return v.v + ('(%s)' % ', '.join(map(debug, v.a)) if v.a else '')
    if not v.f:
        return v.t
    return '%s { %s }' % (v.t, ', '.join('%s: %s' % (n, debug(x)) for n, x in v.f))


def text(v):
    """Display"""
    if isinstance(v, int):
        return str(v)
    if isinstance(v, str):
        return v
    if isinstance(v, W):
        return ('%%%d' if v.t in ('OpId', 'ResultId', 'BlockId') else '%d') % v.n
    if isinstance(v, E):
        if v.t == 'ext':
            return v.a[1]
        for x in ENUM[v.t]['variants']:
            if x['name'] == v.v:
                return x['text'].replace('\\"', '"').replace('{}', '\x00').replace('\x00', '%s') % tuple(map(text, v.a)) if v.a else x['text']
    if isinstance(v, S):
        if v.t in MASK:
            parts = []
            for n, bit, tx in MASK[v.t]['bits']:
                x = v[n]
                if isinstance(x, Some):
                    parts.append('DependencyLength(%d)' % x.v)
                elif x:
                    parts.append(tx)
            return ' | '.join(parts) or 'None'
        if v.t in STRUCT:
            return ' '.join(text(x) for _, x in v.f)
    raise ValueError(v)


def arg(v):
    if v is None:
        return ''
    if isinstance(v, Some):
        return arg(v.v)
    if isinstance(v, list):
        return ''.join(map(arg, v))
    if isinstance(v, str):
        return ' "%s"' % v
    return ' ' + text(v)


def inst_text(i):
    op = OPN[i.t]
    out = '%12s = ' % ('%%%d' % i['result_id'].n) if op['has_result'] else ' ' * 15
    return out + i.t + ''.join(arg(i[n]) for n in op['shown'])


# ------------------------------------------------------------------- decoding
class Cur:
    __slots__ = ('w', 'i')

    def __init__(self, w):
        self.w, self.i = w, 0

    def word(self):
        if self.i >= len(self.w):
            raise ReadErr('UnexpectedEndOfInstruction')
        self.i += 1
        return self.w[self.i - 1]


def dec(t, c):
    if t == 'u32':
        return c.word()
    if t in UNITS:
        return W(t, c.word())
    if t == 'LitBytes':
        return dec('Vec<u32>', c)
    if t == 'LitString':
        b = bytearray()
        while True:
            for x in struct.pack('<I', c.word()):
                if x == 0:
                    try:
                        return bytes(b).decode('utf-8')
                    except UnicodeDecodeError:
                        raise ReadErr('InvalidString')
                b.append(x)
    if t.startswith('Option<'):
        return None if c.i == len(c.w) else Some(dec(t[7:-1], c))
    if t.startswith('Vec<'):
        out = []
        while c.i < len(c.w):
            out.append(dec(t[4:-1], c))
        return out
    if t in MASK:
        m = MASK[t]
        x = c.word()
        ok = sum(b[1] for b in m['bits'] if b[1]) | (8 if t == 'LoopControl' else 0)
        if x & ~ok:
            raise ReadErr(m['err'], x)
        return S(t, [(n, bool(x & bit)) if bit else (n, Some(c.word()) if x & 8 else None) for n, bit, _ in m['bits']])
    if t in STRUCT:
        return S(t, [(n, dec(ft, c)) for n, ft in STRUCT[t]])
    x = c.word()
    v = ECODE[t].get(x)
    if v is None:
        if ENUM[t].get('err'):
            raise ReadErr(ENUM[t]['err'], x)
        return E(t, 'Other', (x,))
    return E(t, v['name'], tuple(dec(a, c) for a in v['args']))


# instruction sets of the replay program, by configuration
SETS = {
    0: [], 1: [('glsl', 0, 'GLSL.std.450')],
    2: [('test', 1, 'Test.a'), ('glsl', 0, 'GLSL.std.450'), ('test', 2, 'Test.b')],
    3: [('test', 3, 'Test.a'), ('test', 4, 'Test.a'), ('test', 5, 'GLSL.std.450'), ('glsl', 0, 'GLSL.std.450'), ('test', 6, '')],
}


def dec_ext(s, inst, c):
    kind, tag, name = s
    if kind == 'glsl':
        if inst not in (13, 14):
            raise ReadErr('UnknownExtInstOp', name, inst)
        n = 'Sin' if inst == 13 else 'Cos'
        x = W('OpId', c.word())
        return E('ext', 'x', ('%s(%s { x: OpId(%d) })' % (n, n, x.n), '%s %%%d' % (n, x.n)))
    if inst >= 100:
        raise ReadErr('UnknownExtInstOp', name, inst)
    v = []
    n = inst % 4
    while (c.i < len(c.w)) if n == 3 else len(v) < n:
        v.append(c.word())
    return E('ext', 'x', ('TestInst(%d, %d, %s)' % (tag, inst, debug(v)), 'Test%d.%d%s' % (tag, inst, ''.join(' %d' % x for x in v))))


def dec_op(code, wc, c, known, bound):
    if code in UNIMPL:
        raise ReadErr('UnimplementedOp', UNIMPL[code])
    if code not in OPS:
        raise ReadErr('UnknownOp', code, wc)
    op = OPS[code]
    if op['name'] == 'OpExtInst':
        rt, ri, s, inst = W('OpId', c.word()), W('ResultId', c.word()), W('OpId', c.word()), c.word()
        if s.n not in bound:
            raise ReadErr('UnknownInstSetId', s)
        return S('OpExtInst', [('result_type', rt), ('result_id', ri), ('set', s), ('instruction', dec_ext(bound[s.n], inst, c))])
    v = S(op['name'], [(n, dec(t, c)) for n, t in op['fields']])
    if op['name'] == 'OpExtInstImport':
        for s in known:
            if s[2] == v['name']:
                if v['result_id'].n in bound:
                    raise ReadErr('DuplicateResultId', v['result_id'])
                bound[v['result_id'].n] = s
                break
        else:
            raise ReadErr('UnknownInstSet', v['name'])
    return v


class Module:
    pass


def read(data, k):
    n = len(data)

    def short(pos):
        return ReadErr('UnexpectedEndOfStream' if (n - pos) % 4 == 0 else 'UnexpectedStreamAlignment')
    if n < 4:
        raise short(0)
    if data[:4] == b'\x03\x02\x23\x07':
        fmt = '<I'
    elif data[:4] == b'\x07\x23\x02\x03':
        fmt = '>I'
    else:
        raise ReadErr('BadMagic')
    if n < 8:
        raise short(4)
    v = struct.unpack_from(fmt, data, 4)[0]
    if v != 0x10000:
        raise ReadErr('UnknownVersionBytes', v >> 24, v >> 16 & 255, v >> 8 & 255, v & 255)
    if n < 20:
        raise short(8)
    g, b, sch = struct.unpack_from(fmt[0] + 'III', data, 8)
    if sch != 0:
        raise ReadErr('UnknownReservedSchema')
    m = Module()
    m.tool, m.toolver, m.bound, m.insts = g >> 16, g & 0xFFFF, b, []
    bound, pos = {}, 20
    while pos < n:
        if n - pos < 4:
            raise short(pos)
        head = struct.unpack_from(fmt, data, pos)[0]
        wc = head >> 16
        if wc == 0:
            raise ReadErr('WrongWordCountForOp')
        if n - pos < 4 * wc:
            raise short(pos)
        c = Cur(struct.unpack_from('%s%dI' % (fmt[0], wc - 1), data, pos + 4))
        i = dec_op(head & 0xFFFF, wc, c, SETS[k], bound)
        if c.i != len(c.w):
            raise ReadErr('InstructionHadExcessData')
        m.insts.append(i)
        pos += 4 * wc
    return m


EXTRA = {1: ('OpTypeEvent', lambda: [('result_id', W('ResultId', 7))]),
         2: ('OpTypeDeviceEvent', lambda: [('result_id', W('ResultId', 7))]),
         3: ('OpTypeQueue', lambda: [('result_id', W('ResultId', 7))]),
         4: ('OpTypePipe', lambda: [('result_id', W('ResultId', 7)), ('access_qualifier', E('AccessQualifier', 'ReadWrite'))]),
         5: ('OpTypeForwardPointer', lambda: [('pointer_type', W('OpId', 7)), ('storage_class', E('StorageClass', 'Uniform'))]),
         6: ('OpSource', lambda: [('language', E('SourceLanguage', 'Glsl')), ('version', W('SourceVersion', 7)), ('file', None), ('source', Some('s'))])}


def tool_dbg(t):
    return TOOLS.get(t) or 'Other(%d)' % t


def header_dbg(m):
    return 'RawModule { version: Version(1, 0), generator: Generator { tool: %s, version: %d }, bound: %d, instructions: [' % (
        tool_dbg(m.tool), m.toolver, m.bound)


def gen_name(t):
    n = TOOLS.get(t)
    if n is None:
        return 'Unknown'
    return VENDOR[n] + (' ' + TOOLNAME[n] if n in TOOLNAME else '')


def module_dbg(m):
    return 'Ok(%s%s] })' % (header_dbg(m), ', '.join('%s(%s)' % (i.t, debug_inst(i)) for i in m.insts))


def debug_inst(i):
    if not i.f:
        return i.t
    return '%s { %s }' % (i.t, ', '.join('%s: %s' % (n, debug(x)) for n, x in i.f))


def module_text(m):
    return '; SPIR-V\n; Version: 1.0\n; Generator: %s; %d\n; Bound: %d\n; Schema: 0\n' % (gen_name(m.tool), m.toolver, m.bound) + \
        ''.join(inst_text(i) + '\n' for i in m.insts)


# ------------------------------------------------------------------- layout
class ValErr(Exception):
    def __init__(self, name, *args):
        self.name, self.a = name, args

    def debug(self):
        return self.name + ('(%s)' % ', '.join(map(str, self.a)) if self.a else '')


def group(i):
    g = OPN[i.t]['group']
    if g == 'Variable':
        return 'GroupCode' if i['storage_class'].v == 'Function' else 'GroupGlobal'
    if g in ('GroupType', 'GroupConstant'):
        return 'GroupGlobal'
    return g


def validate(insts):
    """The sections as lists of instructions; functions as (function, params, blocks)"""
    gs = [group(i) for i in insts]
    n = len(insts)
    i = 0
    secs = {}
    for name, g in [('capabilities', 'OpCapability'), ('extensions', 'OpExtension'), ('ext_inst_imports', 'OpExtInstImport'), ('memory_model', None),
                    ('entry_points', 'OpEntryPoint'), ('execution_modes', 'OpExecutionMode'), ('debug', 'GroupDebug'), ('annotations', 'GroupAnnotation'),
                    ('globals', 'GroupGlobal')]:
        if g is None:
            if i >= n or gs[i] != 'OpMemoryModel':
                raise ValErr('MemoryModelMissing')
            secs[name] = insts[i]
            i += 1
            continue
        j = i
        while j < n and gs[j] == g:
            j += 1
        secs[name] = insts[i:j]
        i = j
    decls, defs = [], []
    # declarations first
    while n - i >= 2:
        if gs[i] != 'OpFunction':
            raise ValErr('ExpectedOpFunction', i)
        j = i + 1
        while j < n and gs[j] == 'OpFunctionParameter':
            j += 1
        if j < n and gs[j] == 'OpFunctionEnd':
            decls.append((insts[i], insts[i + 1:j]))
            i = j + 1
        else:
            break
    while n - i >= 2:
        if gs[i] != 'OpFunction':
            raise ValErr('ExpectedOpFunction', i)
        j = i + 1
        while j < n and gs[j] == 'OpFunctionParameter':
            j += 1
        ps = insts[i + 1:j]
        blocks = []
        while j < n and gs[j] == 'OpLabel':
            lab = j
            j += 1
            while j < n and gs[j] == 'GroupCode':
                j += 1
            code = insts[lab + 1:j]
            merge = None
            if j < n and gs[j] == 'GroupMerge':
                merge = insts[j]
                j += 1
            if not (j < n and gs[j] == 'GroupBranch'):
                raise ValErr('ExpectedBranch', j)
            blocks.append((insts[lab], code, merge, insts[j]))
            j += 1
        if not (j < n and gs[j] == 'OpFunctionEnd'):
            raise ValErr('ExpectedOpFunctionEnd', j)
        defs.append((insts[i], ps, blocks))
        i = j + 1
    if i < n:
        raise ValErr('UnexpectedInstruction', i)
    secs['decls'], secs['defs'] = decls, defs
    return secs


def wrap(i):
    return '%s(%s)' % (i.t, debug_inst(i))


def wrap_global(i):
    g = OPN[i.t]['group']
    return '%s(%s)' % (g, wrap(i)) if g.startswith('Group') else wrap(i)


def logical_dbg(s):
    L = lambda f, xs: '[%s]' % ', '.join(map(f, xs))
    blk = lambda b: 'BasicBlock { label: %s, code: %s, merge: %s, branch: %s }' % (
        debug_inst(b[0]), L(wrap, b[1]), 'None' if b[2] is None else 'Some(%s)' % wrap(b[2]), wrap(b[3]))
    return ('Ok(LogicalModule { capabilities: %s, extensions: %s, ext_inst_imports: %s, memory_model: %s, entry_points: %s, execution_modes: %s, '
            'debug: %s, annotations: %s, globals: %s, function_declarations: %s, function_definitions: %s })' % (
                L(lambda i: debug(i['capability']), s['capabilities']), L(lambda i: debug(i['name']), s['extensions']),
                L(debug_inst, s['ext_inst_imports']), debug_inst(s['memory_model']), L(debug_inst, s['entry_points']),
                L(debug_inst, s['execution_modes']), L(wrap, s['debug']), L(wrap, s['annotations']), L(wrap_global, s['globals']),
                L(lambda d: 'FunctionDeclaration { function: %s, parameters: %s }' % (debug_inst(d[0]), L(debug_inst, d[1])), s['decls']),
                L(lambda d: 'FunctionDefinition { function: %s, parameters: %s, blocks: %s }' % (
                    debug_inst(d[0]), L(debug_inst, d[1]), L(blk, d[2])), s['defs'])))


# ------------------------------------------------------------- control flow
class CfErr(Exception):
    def __init__(self, s):
        self.s = s


class TooBig(Exception):
    pass


NOHINT_S = S('SelectionControl', [('flatten', False), ('dont_flatten', False)])


def mk_block(chains):
    if len(chains) == 1:
        return chains[0]
    out = []
    for c in chains:
        if c[0] == 'Block':
            out.extend(c[1])
        else:
            out.append(c)
    return ('Block', out)


def control_flow(blocks, budget=4000):
    m = {}
    for b in blocks:
        i = b[0]['result_id'].n
        if i in m:
            raise CfErr('DuplicateBlockId(BlockId(%d))' % i)
        m[i] = b
    if not blocks:
        raise CfErr('NoBlocks')
    left = [budget]
    RET = ('Return',)

    def go(i, fl, depth):
        left[0] -= 1
        if left[0] < 0 or depth > 600:
            raise TooBig()
        if any(x[1] == i for x in fl):
            return ('Block', []), i
        if i not in m:
            raise CfErr('UnknownBlockId(BlockId(%d))' % i)
        if depth >= len(m):
            raise CfErr('CouldNotPredictConverge(BlockId(%d))' % i)
        _, _, merge, br = m[i]
        mt = merge.t if merge is not None else None
        if br.t == 'OpReturn':
            return ('Atom', i), RET
        if br.t == 'OpBranch':
            nxt = br['target_label'].n
            if mt == 'OpLoopMerge':
                after = merge['merge_block'].n
                inner, c = go(nxt, fl + [('L', i, after)], depth + 1)
                if c != i:
                    raise CfErr('InvalidConvergePrediction(Loop, BlockId(%d))' % i)
                rest, c = go(after, fl, depth + 1)
                return mk_block([('Loop', i, inner, merge['loop_control'], None), rest]), c
            if mt is None:
                rest, c = go(nxt, fl, depth + 1)
                return mk_block([('Atom', i), rest]), c
            raise CfErr('CouldNotPredictConverge(BlockId(%d))' % i)
        t, f = br['true_label'].n, br['false_label'].n
        if mt == 'OpSelectionMerge':
            mb = merge['merge_block'].n
            fl2 = fl + [('S', mb)]
            tc, tn = go(t, fl2, depth + 1)
            fc, fn = go(f, fl2, depth + 1)
            if not (tn == fn == mb):
                raise CfErr('InvalidConvergePrediction(Selection, BlockId(%d))' % i)
            rest, c = go(mb, fl, depth + 1)
            return mk_block([('Selection', i, tc, fc, merge['selection_control'], br['weights']), rest]), c
        if mt == 'OpLoopMerge':
            raise CfErr('CouldNotPredictConverge(BlockId(%d))' % i)
        loops = [x for x in fl if x[0] == 'L']
        if not loops:
            raise CfErr('CouldNotPredictConverge(BlockId(%d))' % i)
        _, head, after = loops[-1]
        if f != after and f != head:
            raise CfErr('CouldNotPredictConverge(BlockId(%d))' % i)
        inner, c = go(t, fl, depth + 1)
        if c != head:
            raise CfErr('InvalidConvergePrediction(Loop, BlockId(%d))' % i)
        return ('Selection', i, inner, ('Break',) if f == after else ('Continue',), NOHINT_S, br['weights']), c

    chain, c = go(blocks[0][0]['result_id'].n, [], 0)
    if c != RET:
        raise CfErr('Failed')
    return chain


def tree_dbg(c):
    if c[0] == 'Atom':
        return 'Atom(BlockId(%d))' % c[1]
    if c[0] == 'Block':
        return 'Block([%s])' % ', '.join(map(tree_dbg, c[1]))
    if c[0] == 'Selection':
        return 'Selection(BlockId(%d), %s, %s, %s, %s)' % (c[1], tree_dbg(c[2]), tree_dbg(c[3]), debug(c[4]), debug(c[5]))
    if c[0] == 'Loop':
        return 'Loop(BlockId(%d), %s, %s, %s)' % (c[1], tree_dbg(c[2]), debug(c[3]), debug(c[4]))
    return c[0]


def hints(h, w):
    out = ''
    if text(h) != 'None':
        out += ' [%s]' % text(h)
    if w is not None:
        out += ' [%s]' % text(w.v)
    return out


def tree_text(c, ind=0):
    p = '    ' * ind
    if c[0] == 'Atom':
        return p + '%%%d\n' % c[1]
    if c[0] == 'Block':
        return ''.join(tree_text(x, ind) for x in c[1])
    if c[0] == 'Selection':
        out = p + 'selection %%%d' % c[1] + hints(c[4], c[5]) + ' {\n' + tree_text(c[2], ind + 1)
        if c[3] != ('Block', []):
            out += p + '} else {\n' + tree_text(c[3], ind + 1)
        return out + p + '}\n'
    if c[0] == 'Loop':
        return p + 'loop %%%d' % c[1] + hints(c[3], c[4]) + ' {\n' + tree_text(c[2], ind + 1) + p + '}\n'
    return p + c[0].lower() + ';\n'


def rebuild(c, k):
    """The trees that the replay program makes of those the search returns (see its `rebuild`)"""
    def wrap(t):
        t = rebuild(t, k)
        if k == 12:
            return ('Block', [('Continue',)] if t == ('Block', []) else [('Block', []), t, ('Break',)] if t[0] in ('Break', 'Continue') else [t, ('Continue',), ('Break',)])
        return ('Block', [('Block', []), ('Block', [t])]) if k == 15 else t
    if c[0] == 'Block':
        return ('Block', [rebuild(x, k) for x in c[1]])
    if c[0] == 'Selection':
        return ('Selection', c[1], wrap(c[2]), wrap(c[3]), c[4], c[5])
    if c[0] == 'Loop':
        return ('Loop', c[1], wrap(c[2]), c[3], Some(S('BranchWeights', [('true_weight', 3), ('false_weight', 4)])) if k == 14 else c[4])
    return c


def block_text(bs, i, p):
    b = bs[i]
    return p + '> Begin %d\n' % i + ''.join(p + '>>> ' + inst_text(x) + '\n' for x in b[1]) + \
        p + '>>> ' + inst_text(b[3]) + '\n' + p + '> End %d\n' % i


def func_text(bs, c, ind=0):
    p = '    ' * ind
    if c[0] == 'Atom':
        return block_text(bs, c[1], p)
    if c[0] == 'Block':
        return ''.join(func_text(bs, x, ind) for x in c[1])
    if c[0] == 'Selection':
        out = block_text(bs, c[1], p) + hints(c[4], c[5]) + p + '{\n' + func_text(bs, c[2], ind + 1)
        if c[3] != ('Block', []):
            out += p + '} else {\n' + func_text(bs, c[3], ind + 1)
        return out + p + '}\n'
    if c[0] == 'Loop':
        return block_text(bs, c[1], p) + hints(c[3], c[4]) + p + '{\n' + func_text(bs, c[2], ind + 1) + p + '}\n'
    return p + c[0].lower() + ';\n'


# ------------------------------------------------------------------- a case
SEP = '\x1e'


class Want:
    """Expected sections; `ok` marks how far the case gets; None where the oracle gives up"""
    __slots__ = ('s', 'module', 'secs', 'trees', 'err', 'verr')


def expect(case):
    k, x, data = case
    w = Want()
    w.s = [''] * 6
    w.module = w.secs = w.trees = w.err = w.verr = None
    try:
        m = read(data, k)
    except ReadErr as e:
        w.err = e
        w.s[0] = 'Err(%s)' % e.debug()
        w.s[1] = DESC[e.name]
        return w
    if x & 15 in EXTRA:
        n, f = EXTRA[x & 15]
        m.insts.insert(min(x >> 4, len(m.insts)), S(n, f()))
    w.module = m
    w.s[0] = module_dbg(m)
    w.s[1] = module_text(m)
    try:
        secs = validate(m.insts)
    except ValErr as e:
        w.verr = e
        w.s[2] = 'Err(%s)' % e.debug()
        return w
    w.secs = secs
    w.s[2] = logical_dbg(secs)
    a, b, c = [], [], []
    w.trees = []
    for d in secs['defs']:
        try:
            t = control_flow(d[2])
        except CfErr as e:
            a.append('Err(%s)' % e.s)
            b.append('')
            c.append('')
            continue
        except TooBig:
            w.s[3] = w.s[4] = w.s[5] = None
            return w
        a.append('Ok(%s)' % tree_dbg(t))
        if x & 15 >= 14 or x & 15 == 12:
            t = rebuild(t, x & 15)
        b.append(tree_text(t))
        c.append(func_text({y[0]['result_id'].n: y for y in d[2]}, t))
    w.s[3], w.s[4], w.s[5] = SEP.join(a), SEP.join(b), SEP.join(c)
    return w
