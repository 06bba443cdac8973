#!/usr/bin/env python3
"""Generates the contracts that the extractor splices onto the code.

usage: gen.py OUT.json      (reads tables.json, prelude.rs and *.rs beside it)
"""
import json, os, sys

HERE = os.path.dirname(os.path.abspath(__file__))
T = json.load(open(os.path.join(HERE, 'tables.json')))
RES = 'core::result::Result'

fns, impls, traits, types, mods = {}, {}, {}, {}, {}
patterns = []
drop, drop_traits = [], []
extra_dec = []          # text added to mod vspec


def fn(key, spec='', **kw):
    d = {'spec': spec}
    d.update(kw)
    if d.get('loops'):
        d['attrs'] = '#[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants] ' + d.get('attrs', '')
    fns[key] = d


def chain(fields, build, w='w', rest=None):
    """Decode the fields one after the other, then build"""
    out, close = '', ''
    for i, (n, t) in enumerate(fields):
        out += 'match <%s as MemoryBlockRead>::dec(%s) { Err(e) => Err(e), Ok((f_%s, r%d)) => ' % (t, w, n, i)
        close += ' }'
        w = 'r%d' % i
    return out + 'Ok((%s, %s))' % (build, w) + close


def dec_impl(body, prog='true', ok='true'):
    return ('open spec fn dec(w: Seq<u32>) -> Dec<Self> { %s }\n'
            'open spec fn read_ok() -> bool { %s }\nopen spec fn prog() -> bool { %s }\n' % (body, ok, prog))


def gen_reader():
    RAW = 'spv::raw::'
    RD = 'spv::raw::reader::'
    # --- blocks of words
    fn(RAW + '<MemoryBlock>::new', 'ensures r.data@ == data@')
    fn(RAW + '<MemoryBlock>::read_word', 'ensures res(r) == dec_word(self.data@)')
    fn(RAW + '<MemoryBlock>::remaining', 'ensures r == self.data@.len()')
    fn(RAW + '<MemoryBlock>::end', 'ensures r == (self.data@.len() == 0)')
    fn(RAW + '<MemoryBlock>::read_op_id', 'ensures res(r) == <OpId as MemoryBlockRead>::dec(self.data@)')
    traits[RAW + 'MemoryBlockRead'] = '''
/// What the words decode to, and the words left over
spec fn dec(w: Seq<u32>) -> Dec<Self>;
spec fn read_ok() -> bool;
/// Reading consumes at least one word
spec fn prog() -> bool;
'''
    fn(RAW + 'MemoryBlockRead::read', 'requires Self::read_ok()\nensures res(r) == Self::dec(block.data@), shrinks(block.data@, res(r), Self::prog())')

    def imp(ty, text):
        impls['%s<MemoryBlockRead for %s>' % (RAW, ty)] = text

    for ty in ('OpId', 'ResultId', 'SourceVersion', 'MemberIndex'):
        imp(ty, dec_impl('match dec_word(w) { Err(e) => Err(e), Ok((v, r)) => Ok((%s(v), r)) }' % ty))
    imp('u32', dec_impl('dec_word(w)'))
    imp('LitString', dec_impl('dec_string(w)'))
    imp('Option<T>', dec_impl('if w.len() == 0 { Ok((None, w)) } else { match T::dec(w) { Err(e) => Err(e), Ok((v, r)) => Ok((Some(v), r)) } }', 'false', 'T::read_ok()'))
    imp('Vec<T>', dec_impl('dec_vec::<T>(w)', 'false', 'T::read_ok() && T::prog()'))
    fn(RAW + '<MemoryBlockRead for Vec<T>>::read', loops=[{
        'inv': 'invariant T::read_ok(), T::prog(), block.data@.len() <= w0.len(),\n'
               ' dec_list::<T>(w0) == prepend(items@, dec_list::<T>(block.data@)),\n'
               'decreases block.data@.len()',
        'begin': 'let ghost w1 = block.data@; let ghost s1 = items@;',
        'end': 'proof { broadcast use g_values; assert(items@ == s1.push(items@.last())); lemma_prepend_step::<T>(w1, s1, items@.last(), block.data@); }',
        'after': 'proof { broadcast use g_values; assert(prepend(items@, dec_list::<T>(block.data@)) == Ok::<(Seq<T>, Seq<u32>), ReadError>((items@ + Seq::<T>::empty(), block.data@))); assert(items@ + Seq::<T>::empty() =~= items@); }',
    }], begin='let ghost w0 = block.data@; proof { broadcast use g_values; lemma_prepend_empty::<T>(dec_list::<T>(w0)); }')
    extra_dec.append('''
pub proof fn lemma_prepend_empty<T>(d: Dec<Seq<T>>) ensures prepend(Seq::<T>::empty(), d) == d {
    match d { Ok((s, r)) => { assert(Seq::<T>::empty() + s =~= s); }, Err(_) => {} }
}
pub proof fn lemma_prepend_step<T: MemoryBlockRead>(w: Seq<u32>, s: Seq<T>, v: T, rest: Seq<u32>)
    requires w.len() > 0, T::dec(w) == Ok::<(T, Seq<u32>), ReadError>((v, rest)), rest.len() < w.len()
    ensures prepend(s, dec_list::<T>(w)) == prepend(s.push(v), dec_list::<T>(rest))
{
    match dec_list::<T>(rest) { Ok((t, r)) => { assert(s + (seq![v] + t) =~= s.push(v) + t); }, Err(_) => {} }
}
''')
    # --- strings
    fn(RAW + '<MemoryBlockRead for LitString>::read', loops=[
        {'inv': 'invariant_except_break 0 <= k <= w0.len(), block.data@ == w0.skip(k), bytes@ =~= str_bytes(w0, 4 * k),\n'
                ' forall|i: int| 0 <= i < 4 * k ==> #[trigger] str_byte(w0, i) != 0,\n'
                'ensures nul_at(w0, n), bytes@ =~= str_bytes(w0, n), block.data@ =~= w0.skip(n / 4 + 1),\n'
                'decreases block.data@.len()',
         'begin': 'proof { lemma_no_nul(w0, k); }',
         'end': 'proof { k = k + 1; }',
         'after': 'proof { broadcast use g_values; lemma_found_nul(w0, n, bytes@); }'},
        {'iter': 'it',
         'inv': 'invariant 0 <= k < w0.len(), block.data@ =~= w0.skip(k + 1), it.seq().len() == 4, forall|i: int| 0 <= i < 4 ==> *it.seq()[i] == chars@[i], chars@ =~= seq![byte_of(w0[k], 0), byte_of(w0[k], 1), byte_of(w0[k], 2), byte_of(w0[k], 3)],\n'
                ' bytes@ =~= str_bytes(w0, 4 * k + it.index@), forall|i: int| 0 <= i < 4 * k + it.index@ ==> #[trigger] str_byte(w0, i) != 0,\n',
         'begin': 'proof { n = 4 * k + it.index@; }'},
    ], begin='broadcast use g_values; proof { lemma_bits(); } let ghost w0 = block.data@; let ghost mut k: int = 0; let ghost mut n: int = 0;')
    extra_dec.append('''
pub proof fn lemma_no_nul(w: Seq<u32>, k: int)
    requires 0 <= k <= w.len(), forall|i: int| 0 <= i < 4 * k ==> #[trigger] str_byte(w, i) != 0
    ensures k == w.len() ==> !(exists|n: int| nul_at(w, n))
{ }
''')
    # --- enumerants
    for name, e in T['enums'].items():
        if not e.get('read'):
            continue
        body = ''
        other = None
        for v in e['variants']:
            if v['code'] is None:
                other = v
                continue
            args = [('a%d' % i, t) for i, t in enumerate(v['args'])]
            build = '%s::%s%s' % (name, v['name'], '(%s)' % ', '.join('f_' + a for a, _ in args) if args else '')
            body += 'if c == %du32 { %s } else ' % (v['code'], chain(args, build, 'r'))
        if e.get('err'):
            body += '{ Err(ReadError::%s(c)) }' % e['err']
        else:
            body += '{ Ok((%s::%s(c), r)) }' % (name, other['name'])
        imp(name, dec_impl('match dec_word(w) { Err(e) => Err(e), Ok((c, r)) => %s }' % body))
    for name, m in T['masks'].items():
        bits = [b for b in m['bits'] if b[1]]
        allbits = sum(b[1] for b in bits)
        fl = ', '.join('%s: (c & %du32) != 0' % (b[0], b[1]) for b in bits)
        if name == 'LoopControl':
            allbits |= 8
            good = ('if (c & 8u32) != 0 { match dec_word(r) { Err(e) => Err(e), Ok((d, r2)) => Ok((%s { %s, dependency_length: Some(d) }, r2)) } }'
                    ' else { Ok((%s { %s, dependency_length: None }, r)) }' % (name, fl, name, fl))
        else:
            good = 'Ok((%s { %s }, r))' % (name, fl)
        imp(name, dec_impl('match dec_word(w) { Err(e) => Err(e), Ok((c, r)) => if (c & !%du32) != 0 { Err(ReadError::%s(c)) } else { %s } }' % (allbits, m['err'], good)))
        fn('%s<MemoryBlockRead for %s>::read' % (RAW, name), begin='proof { lemma_bits(); }')
    for name, f in T['structs'].items():
        imp(name, dec_impl(chain(f, '%s { %s }' % (name, ', '.join('%s: f_%s' % (n, n) for n, _ in f)))))
    # --- instructions
    disp = ''
    traits[RD + 'CoreRead'] = '''
spec fn cdec(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Dec<Core>;
/// The instruction sets that are bound after the instruction
spec fn cbound(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Map<OpId, XSet>;
'''
    fn(RD + 'CoreRead::read_core',
       'ensures res(r) == Self::cdec(block.data@, known_inst_sets@, old(bound_inst_sets)@), shrinks(block.data@, res(r), false),\n'
       ' r is Ok ==> final(bound_inst_sets)@ == Self::cbound(block.data@, known_inst_sets@, old(bound_inst_sets)@)')
    codes = []
    for op in T['ops']:
        n = op['name']
        if op['code'] is None:
            continue        # no opcode of the reader leads to it
        if True:
            codes.append((op['code'], '<%s as CoreRead>::cdec(w, known, bound)' % n, n))
        if n == 'OpExtInst':
            fn('%s<CoreRead for %s>::read_core' % (RD, n), begin='broadcast use ax_opid_key;')
            impls['%s<CoreRead for %s>' % (RD, n)] = '''
open spec fn cdec(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Dec<Core> { %s }
open spec fn cbound(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Map<OpId, XSet> { bound }
''' % chain([('result_type', 'OpId'), ('result_id', 'ResultId'), ('set', 'OpId'), ('inst', 'u32')], '@').replace(
                'Ok((@, r3))', 'if bound.contains_key(f_set) { match bound[f_set].sdec(f_inst, r3) { Err(e) => Err(e), '
                'Ok((x, r4)) => Ok((Core::OpExtInst(OpExtInst { result_type: f_result_type, result_id: f_result_id, set: f_set, instruction: ExtInstBox(x) }), r4)) } } '
                'else { Err(ReadError::UnknownInstSetId(f_set)) }')
            continue
        if n == 'OpExtInstImport':
            fl = op['fields']
            impls['%s<CoreRead for %s>' % (RD, n)] = '''
open spec fn cdec(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Dec<Core> { %s }
open spec fn cbound(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Map<OpId, XSet> {
    match dec_import(w) { Err(e) => bound, Ok((i, r)) => match find_set(known, i.name@) { Some(k) => bound.insert(OpId(i.result_id.0), known[k]), None => bound } }
}
''' % ('match dec_import(w) { Err(e) => Err(e), Ok((i, r)) => match find_set(known, i.name@) { None => Err(ReadError::UnknownInstSet(i.name)), '
       'Some(k) => if bound.contains_key(OpId(i.result_id.0)) { Err(ReadError::DuplicateResultId(i.result_id)) } else { Ok((Core::OpExtInstImport(i), r)) } } }')
            extra_dec.append('''
pub open spec fn dec_import(w: Seq<u32>) -> Dec<OpExtInstImport> { %s }
/// The first known instruction set of that name
pub open spec fn find_set(known: Seq<XSet>, name: Seq<char>) -> Option<int> decreases known.len() {
    if known.len() == 0 { None } else if known[0].sname() == name { Some(0) }
    else { match find_set(known.skip(1), name) { Some(i) => Some(i + 1), None => None } }
}
pub proof fn lemma_find_step(known: Seq<XSet>, name: Seq<char>, i: int)
    requires 0 <= i < known.len()
    ensures find_set(known.skip(i), name) == (if known[i].sname() == name { Some(0) } else { match find_set(known.skip(i + 1), name) { Some(j) => Some(j + 1), None => None } }),
{ assert(known.skip(i).skip(1) =~= known.skip(i + 1)); }
''' % chain(fl, 'OpExtInstImport { %s }' % ', '.join('%s: f_%s' % (a, a) for a, _ in fl)))
            fn('%s<CoreRead for %s>::read_core' % (RD, n), loops=[{
                'iter': 'it',
                'before': 'let ghost nm = name; proof { assert(known_inst_sets@.skip(0) =~= known_inst_sets@); }',
                'inv': 'invariant it.seq().len() == known_inst_sets@.len(), forall|i: int| 0 <= i < known_inst_sets@.len() ==> *it.seq()[i] == known_inst_sets@[i], bound_inst_sets@ == bnd0, nm@ == name@, find_set(known_inst_sets@, nm@) == '
                       '(match find_set(known_inst_sets@.skip(it.index@), nm@) { Some(j) => Some(j + it.index@), None => None }),\n',
                'begin': 'proof { lemma_find_step(known_inst_sets@, nm@, it.index@); }',
                'after': 'proof { assert(known_inst_sets@.skip(known_inst_sets@.len() as int) =~= Seq::<XSet>::empty()); }',
            }], begin='broadcast use {g_values, ax_opid_key}; let ghost bnd0 = bound_inst_sets@;')
            continue
        f = op['fields']
        imp_key = '%s<MemoryBlockRead for %s>' % (RD, n)
        impls[imp_key] = dec_impl(chain(f, '%s { %s }' % (n, ', '.join('%s: f_%s' % (a, a) for a, _ in f)) if f else n), 'false')
        fn('%s<CoreRead for %s>::read_core' % (RD, n), begin='reveal(<%s as CoreRead>::cdec);' % n)
        impls['%s<CoreRead for %s>' % (RD, n)] = '''
#[verifier::opaque]
open spec fn cdec(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Dec<Core> {
    match <%s as MemoryBlockRead>::dec(w) { Err(e) => Err(e), Ok((v, r)) => Ok((Core::%s(v), r)) } }
open spec fn cbound(w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Map<OpId, XSet> { bound }
''' % (n, n)
    for name, code in [(u[0], u[1]) if isinstance(u[0], str) else (u[1], u[0]) for u in T['unimplemented']]:
        codes.append((code, 'Err(ReadError::UnimplementedOp("%s"))' % name, None))
    codes.sort()
    d = ''
    b = ''
    for c, e, n in codes:
        d += 'if id == %du16 { %s } else ' % (c, e)
        if n == 'OpExtInstImport':
            b += 'if id == %du16 { <%s as CoreRead>::cbound(w, known, bound) } else ' % (c, n)
    extra_dec.append('''
/// The instruction with the given opcode, operand words and bound instruction sets
#[verifier::opaque]
pub open spec fn dec_op(id: u16, wc: u16, w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Dec<Core> { %s { Err(ReadError::UnknownOp(id, wc)) } }
#[verifier::opaque]
pub open spec fn bound_op(id: u16, w: Seq<u32>, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Map<OpId, XSet> { %s { bound } }
''' % (d, b))
    # --- stream and module
    fn(RD + '<Stream>::new', 'ensures r.source@ == source@, r.is_le')
    fn(RD + '<Stream>::read_word',
       'ensures final(self).is_le == old(self).is_le,\n'
       ' old(self).source@.len() >= 4 ==> r == Ok::<u32, ReadError>(word_at(old(self).source@, old(self).is_le, 0)) && final(self).source@ == old(self).source@.skip(4),\n'
       ' old(self).source@.len() < 4 ==> r == Err::<u32, ReadError>(short(old(self).source@)) && final(self).source@ == old(self).source@',
       begin='proof { if self.source@.len() >= 4 { lemma_shifts(self.source@[0], self.source@[1], self.source@[2], self.source@[3]); lemma_shifts(self.source@[3], self.source@[2], self.source@[1], self.source@[0]); } }')
    fn(RD + '<Stream>::is_end', 'ensures r == (self.source@.len() == 0)')
    fn(RD + '<Stream>::invert_endianness', 'ensures final(self).source@ == old(self).source@, final(self).is_le == !old(self).is_le')
    extra_dec.append('''
pub type Inst1 = Result<(Core, Seq<u8>, Map<OpId, XSet>), ReadError>;
/// The first instruction of a stream
pub open spec fn dec_inst(b: Seq<u8>, le: bool, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Inst1 {
    if b.len() < 4 { Err(short(b)) } else {
        let head = word_at(b, le, 0);
        let id = (head & 0xFFFF) as u16;
        let wc = (head >> 16) as u16;
        if wc == 0 { Err(ReadError::WrongWordCountForOp) }
        else if b.len() < 4 * wc { Err(short(b)) }
        else {
            let w = words_at(b, le, wc as int).skip(1);
            match dec_op(id, wc, w, known, bound) {
                Err(e) => Err(e),
                Ok((c, rest)) => if rest.len() == 0 { Ok((c, b.skip(4 * wc), bound_op(id, w, known, bound))) } else { Err(ReadError::InstructionHadExcessData) },
            }
        }
    }
}
pub open spec fn dec_insts(b: Seq<u8>, le: bool, known: Seq<XSet>, bound: Map<OpId, XSet>) -> Result<Seq<Core>, ReadError> decreases b.len() {
    if b.len() == 0 { Ok(Seq::empty()) } else { match dec_inst(b, le, known, bound) {
        Err(e) => Err(e),
        Ok((c, rest, bound2)) => if rest.len() < b.len() { match dec_insts(rest, le, known, bound2) { Err(e) => Err(e), Ok(s) => Ok(seq![c] + s) } } else { arbitrary() },
    } }
}
pub open spec fn ccat(s: Seq<Core>, d: Result<Seq<Core>, ReadError>) -> Result<Seq<Core>, ReadError> {
    match d { Err(e) => Err(e), Ok(t) => Ok(s + t) }
}
pub broadcast proof fn lemma_skip_skip(b: Seq<u8>, i: int, j: int)
    requires 0 <= i, 0 <= j, i + j <= b.len()
    ensures #[trigger] b.skip(i).skip(j) == b.skip(i + j)
{ assert(b.skip(i).skip(j) =~= b.skip(i + j)); }
pub broadcast proof fn lemma_word_skip(b: Seq<u8>, le: bool, k: int)
    requires 0 <= k, k %% 4 == 0, k + 4 <= b.len()
    ensures #[trigger] word_at(b.skip(k), le, 0) == word_at(b, le, k / 4)
{ }
pub proof fn lemma_insts(b: Seq<u8>, le: bool, known: Seq<XSet>, bound: Map<OpId, XSet>)
    ensures b.len() == 0 ==> dec_insts(b, le, known, bound) == Ok::<Seq<Core>, ReadError>(Seq::empty()),
        b.len() > 0 && dec_inst(b, le, known, bound) is Err ==> dec_insts(b, le, known, bound) == Err::<Seq<Core>, ReadError>(dec_inst(b, le, known, bound)->Err_0),
{}
pub proof fn lemma_cat_empty(d: Result<Seq<Core>, ReadError>) ensures ccat(Seq::empty(), d) == d {
    match d { Ok(s) => { assert(Seq::<Core>::empty() + s =~= s); }, Err(_) => {} }
}
pub proof fn lemma_cat_step(b: Seq<u8>, le: bool, known: Seq<XSet>, bound: Map<OpId, XSet>, s: Seq<Core>, c: Core, rest: Seq<u8>, bound2: Map<OpId, XSet>)
    requires b.len() > 0, rest.len() < b.len(), dec_inst(b, le, known, bound) == Ok::<(Core, Seq<u8>, Map<OpId, XSet>), ReadError>((c, rest, bound2))
    ensures ccat(s, dec_insts(b, le, known, bound)) == ccat(s.push(c), dec_insts(rest, le, known, bound2))
{
    match dec_insts(rest, le, known, bound2) { Ok(t) => { assert(s + (seq![c] + t) =~= s.push(c) + t); }, Err(_) => {} }
}
pub open spec fn tool_of(id: u16) -> Tool { %s { Tool::Other(id) } }
/// What a module decodes to
pub open spec fn dec_module(b: Seq<u8>, known: Seq<XSet>) -> Result<RawModule, ReadError> {
    if b.len() < 4 { Err(short(b)) }
    else if word_at(b, true, 0) == 0x07230203u32 { dec_header(b, true, known) }
    else if word_at(b, true, 0) == 0x03022307u32 { dec_header(b, false, known) }
    else { Err(ReadError::BadMagic) }
}
pub open spec fn dec_header(b: Seq<u8>, le: bool, known: Seq<XSet>) -> Result<RawModule, ReadError> {
    if b.len() < 8 { Err(short(b)) }
    else if word_at(b, le, 1) != 0x00010000u32 {
        let v = word_at(b, le, 1);
        Err(ReadError::UnknownVersionBytes(byte_of(v, 3), byte_of(v, 2), byte_of(v, 1), byte_of(v, 0)))
    }
    else if b.len() < 16 { Err(short(b)) }
    else if b.len() < 20 { Err(short(b)) }
    else if word_at(b, le, 4) != 0 { Err(ReadError::UnknownReservedSchema) }
    else {
        let g = word_at(b, le, 2);
        match dec_insts(b.skip(20), le, known, Map::empty()) {
            Err(e) => Err(e),
            Ok(s) => Ok(RawModule { version: Version(1, 0), generator: Generator { tool: tool_of((g >> 16) as u16), version: (g & 0xFFFF) as u16 },
                bound: word_at(b, le, 3), instructions: mk_vec(s) }),
        }
    }
}
pub proof fn lemma_version_bits() ensures
    forall|v: u32| #![trigger v >> 24u32] (((v >> 24) as u8 == 0 && ((v >> 16) & 0xFF) as u8 == 1 && ((v >> 8) & 0xFF) as u8 == 0 && (v & 0xFF) as u8 == 0) <==> v == 0x00010000)
{
    assert forall|v: u32| #![trigger v >> 24u32] (((v >> 24) as u8 == 0 && ((v >> 16) & 0xFF) as u8 == 1 && ((v >> 8) & 0xFF) as u8 == 0 && (v & 0xFF) as u8 == 0) <==> v == 0x00010000) by {
        assert((((v >> 24) as u8 == 0 && ((v >> 16) & 0xFF) as u8 == 1 && ((v >> 8) & 0xFF) as u8 == 0 && (v & 0xFF) as u8 == 0) <==> v == 0x00010000)) by (bit_vector);
    }
}
''' % ''.join('if id == %du16 { Tool::%s } else ' % (c, n) for c, n in T['tools']))
    extra_dec.append(bits_lemma())
    fn(RD + 'read_instruction',
       'ensures final(stream).is_le == old(stream).is_le,\n'
       ' match (r, dec_inst(old(stream).source@, old(stream).is_le, known_inst_sets@, old(bound_inst_sets)@)) {\n'
       '  (Ok(c), Ok((c2, rest, bound2))) => c == c2 && final(stream).source@ == rest && rest.len() < old(stream).source@.len() && final(bound_inst_sets)@ == bound2,\n'
       '  (Err(e), Err(e2)) => e == e2, _ => false },',
       loops=[{'iter': 'it',
               'inv': 'invariant wc > 0, b0.len() >= 4, stream.is_le == le, 1 <= 1 + it.index@ <= wc, hd <= 1, words@.len() == hd + it.index@, words@ =~= words_at(b0, le, (1 + it.index@) as int).skip(1 - hd),\n'
                      ' b0.len() >= 4 * (1 + it.index@), stream.source@ =~= b0.skip(4 * (1 + it.index@)),\n',
               'before': 'let ghost hd: int = words@.len() as int;',
               'after': 'proof { reveal(dec_op); reveal(bound_op); assert(hd == 0 ==> words@ == words_at(b0, le, wc as int).skip(1)); assert(hd == 1 ==> words@ =~= words_at(b0, le, wc as int)); }',
               }],
       begin='let ghost b0 = stream.source@; let ghost le = stream.is_le; proof { lemma_head_bits(word_at(b0, le, 0)); }')
    fn(RD + 'read_module', 'ensures r == dec_module(data@, known_inst_sets@)',
       loops=[{'inv': 'invariant dec_insts(bs, le, known_inst_sets@, Map::empty()) == ccat(instructions@, dec_insts(stream.source@, le, known_inst_sets@, bound_inst_sets@)), stream.is_le == le,\n'
                      'decreases stream.source@.len()',
               'before': 'let ghost bs = stream.source@; let ghost le = stream.is_le; proof { lemma_cat_empty(dec_insts(bs, le, known_inst_sets@, Map::empty())); }',
               'begin': 'let ghost b1 = stream.source@; let ghost s1 = instructions@; let ghost m1 = bound_inst_sets@; proof { lemma_insts(b1, le, known_inst_sets@, m1); }',
               'after': 'proof { lemma_insts(stream.source@, le, known_inst_sets@, bound_inst_sets@); assert(instructions@ + Seq::<Core>::empty() =~= instructions@); }',
               'end': 'proof { lemma_cat_step(b1, le, known_inst_sets@, m1, s1, instructions@.last(), stream.source@, bound_inst_sets@); assert(instructions@ == s1.push(instructions@.last())); }',
               }],
       begin='hide(dec_inst); hide(dec_insts); broadcast use {g_values, lemma_skip_skip, lemma_word_skip}; proof { lemma_version_bits(); lemma_bits(); }')


def gen_ext():
    S = 'spv::ExtInstSet'
    traits[S] = '''
spec fn sname(&self) -> Seq<char>;
spec fn sdec(&self, inst: u32, w: Seq<u32>) -> Dec<XInst>;
'''
    fn(S + '::get_name', 'ensures r@ == self.sname()')
    fn(S + '::read_instruction', 'ensures res(r) == self.sdec(instruction, block.data@), shrinks(block.data@, res(r), false)')
    fn(S + '::duplicate', 'ensures r == set_box(self)')
    mods['spv'] = '#[verifier::external] impl PartialEq for ExtInstBox { fn eq(&self, other: &ExtInstBox) -> bool { unimplemented!() } }'
    G = 'glsl450::'
    fn(G + '<ExtInstSet for InstSet>::read_instruction', begin='broadcast use g_values;')
    impls[G + '<ExtInstSet for InstSet>'] = '''
open spec fn sname(&self) -> Seq<char> { "GLSL.std.450"@ }
open spec fn sdec(&self, inst: u32, w: Seq<u32>) -> Dec<XInst> {
    if inst == 13 { match <OpId as MemoryBlockRead>::dec(w) { Err(e) => Err(e), Ok((x, r)) => Ok((inst_box(Inst::Sin(Sin { x: x })), r)) } }
    else if inst == 14 { match <OpId as MemoryBlockRead>::dec(w) { Err(e) => Err(e), Ok((x, r)) => Ok((inst_box(Inst::Cos(Cos { x: x })), r)) } }
    else { Err(ReadError::UnknownExtInstOp("GLSL.std.450", inst)) }
}
'''
    fn(G + 'read_sin', 'ensures res(r) == (match <OpId as MemoryBlockRead>::dec(block.data@) { Err(e) => Err(e), Ok((x, t)) => Ok((Inst::Sin(Sin { x: x }), t)) })')
    fn(G + 'read_cos', 'ensures res(r) == (match <OpId as MemoryBlockRead>::dec(block.data@) { Err(e) => Err(e), Ok((x, t)) => Ok((Inst::Cos(Cos { x: x }), t)) })')
    mods['glsl450'] = 'use spv::raw::MemoryBlockRead; use spv::types::*;'
    drop.extend(['spv::ExtInst', 'spv::ExtInstClone', 'spv::<ExtInstClone for T>', 'spv::<Clone for Box<ExtInst>>',
                 'spv::<PartialEq<ExtInstBox> for ExtInstBox>',
                 'glsl450::<ExtInst for Inst>', 'spv::Op'])


def group_expr(op, v):
    """How an instruction is filed in the module layout"""
    n, g = op['name'], op['group']
    if g == 'GroupType':
        return 'OpByBlock::GroupGlobal(GroupGlobal::GroupType(GroupType::%s(%s)))' % (n, v)
    if g == 'GroupConstant':
        return 'OpByBlock::GroupGlobal(GroupGlobal::GroupConstant(GroupConstant::%s(%s)))' % (n, v)
    if g.startswith('Group'):
        return 'OpByBlock::%s(%s::%s(%s))' % (g, g, n, v)
    if g == 'Variable':
        return 'var_group(%s)' % v
    return 'OpByBlock::%s(%s)' % (n, v)


def gen_parser():
    M = 'spv::logical::parser::'
    P = M + 'parser::'
    L = 'spv::logical::'
    # --- the group of an instruction
    def from_spec(src, body, begin=None):
        mods.setdefault('spv::logical::parser', '')
        mods['spv::logical::parser'] += ('impl vstd::std_specs::convert::FromSpecImpl<%s> for OpByBlock {\n'
            'open spec fn obeys_from_spec() -> bool { true }\nopen spec fn from_spec(v: %s) -> OpByBlock { %s }\n}\n' % (src, src, body))
        fn(M + '<From<%s> for OpByBlock>::from' % src, '', **({'begin': begin} if begin else {}))
    for g in ('GroupDebug', 'GroupAnnotation', 'GroupGlobal', 'GroupCode', 'GroupMerge', 'GroupBranch'):
        from_spec(g, 'OpByBlock::%s(v)' % g)
    for g in ('GroupType', 'GroupConstant'):
        from_spec(g, 'OpByBlock::GroupGlobal(GroupGlobal::%s(v))' % g)
    from_spec('OpVariable', 'var_group(v)')
    from_spec('Core', 'group_of(v)')
    arms = '\n'.join('Core::%s(op) => %s,' % (op['name'], group_expr(op, 'op')) for op in T['ops'])
    text = """
// ------------------------------------------------------------- module layout
pub open spec fn var_group(v: OpVariable) -> OpByBlock {
    if v.storage_class == StorageClass::Function { OpByBlock::GroupCode(GroupCode::OpVariable(v)) }
    else { OpByBlock::GroupGlobal(GroupGlobal::OpVariable(v)) }
}
/// Where an instruction belongs in the module layout
pub open spec fn group_of(c: Core) -> OpByBlock { match c {
%s
} }
pub open spec fn groups(s: Seq<Core>) -> Seq<OpByBlock> { s.map_values(|c: Core| group_of(c)) }
/// Outcome of recognising one item at a position
pub enum PR<T> { Ok(T, int), Next(int), Err(ValidationError) }
pub type Toks = Seq<OpByBlock>;
pub type Phase<T> = spec_fn(Toks, int) -> PR<T>;
pub open spec fn phase<'a, T>(r: PhaseResult<'a, T>) -> PR<T> { match r {
    PhaseResult::Ok(v, s) => PR::Ok(v, s.index as int), PhaseResult::Next(s) => PR::Next(s.index as int), PhaseResult::Err(e) => PR::Err(e) } }
/// The slices in the result are positions in the same instructions
pub open spec fn same_toks<'a, T>(r: PhaseResult<'a, T>, s: OpSlice<'a>) -> bool { match r {
    PhaseResult::Ok(v, t) => t.insts@ == s.insts@ && s.index < t.index <= s.insts@.len(),
    PhaseResult::Next(t) => t.insts@ == s.insts@ && t.index == s.index, PhaseResult::Err(e) => true } }
pub open spec fn step<'a, T>(r: Result<(T, OpSlice<'a>), ValidationError>) -> Result<(T, int), ValidationError> { match r {
    Ok((v, s)) => Ok((v, s.index as int)), Err(e) => Err(e) } }
pub open spec fn same_toks2<'a, T>(r: Result<(T, OpSlice<'a>), ValidationError>, s: OpSlice<'a>) -> bool { match r {
    Ok((v, t)) => t.insts@ == s.insts@ && s.index <= t.index <= s.insts@.len(), Err(e) => true } }
/// As many items as there are
pub open spec fn p_many<T>(f: Phase<T>, t: Toks, i: int) -> Result<(Seq<T>, int), ValidationError> decreases t.len() - i {
    match f(t, i) {
        PR::Err(e) => Err(e),
        PR::Next(j) => Ok((Seq::empty(), j)),
        PR::Ok(v, j) => if i < j <= t.len() { match p_many(f, t, j) { Err(e) => Err(e), Ok((s, k)) => Ok((seq![v] + s, k)) } } else { arbitrary() },
    }
}
pub open spec fn p_vec<T>(f: Phase<T>, t: Toks, i: int) -> Result<(Vec<T>, int), ValidationError> {
    match p_many(f, t, i) { Err(e) => Err(e), Ok((s, k)) => Ok((mk_vec(s), k)) }
}
pub open spec fn then<T>(s: Seq<T>, d: Result<(Seq<T>, int), ValidationError>) -> Result<(Seq<T>, int), ValidationError> {
    match d { Err(e) => Err(e), Ok((t, k)) => Ok((s + t, k)) }
}
pub proof fn lemma_then_empty<T>(d: Result<(Seq<T>, int), ValidationError>) ensures then(Seq::<T>::empty(), d) == d {
    match d { Ok((s, k)) => { assert(Seq::<T>::empty() + s =~= s); }, Err(_) => {} }
}
pub proof fn lemma_then_step<T>(f: Phase<T>, t: Toks, i: int, s: Seq<T>)
    ensures match f(t, i) {
        PR::Ok(v, j) => i < j <= t.len() ==> then(s, p_many(f, t, i)) == then(s.push(v), p_many(f, t, j)),
        PR::Next(j) => then(s, p_many(f, t, i)) == Ok::<(Seq<T>, int), ValidationError>((s, j)),
        PR::Err(e) => then(s, p_many(f, t, i)) == Err::<(Seq<T>, int), ValidationError>(e),
    }
{
    match f(t, i) {
        PR::Ok(v, j) => { if i < j <= t.len() { match p_many(f, t, j) { Ok((u, k)) => { assert(s + (seq![v] + u) =~= s.push(v) + u); }, Err(_) => {} } } },
        PR::Next(j) => { assert(s + Seq::<T>::empty() =~= s); },
        PR::Err(e) => {},
    }
}
""" % arms
    simple = [('capability', 'Capability', 'OpCapability', 'op.capability'), ('extension', 'String', 'OpExtension', 'op.name'),
              ('ext_inst_import', 'OpExtInstImport', 'OpExtInstImport', 'op'), ('entry_point', 'OpEntryPoint', 'OpEntryPoint', 'op'),
              ('execution_mode', 'OpExecutionMode', 'OpExecutionMode', 'op'), ('debug', 'GroupDebug', 'GroupDebug', 'op'),
              ('annotation', 'GroupAnnotation', 'GroupAnnotation', 'op'), ('global', 'GroupGlobal', 'GroupGlobal', 'op'),
              ('function_parameter', 'OpFunctionParameter', 'OpFunctionParameter', 'op'), ('code', 'GroupCode', 'GroupCode', 'op')]
    for n, ty, var, e in simple:
        text += ('pub open spec fn p_%s(t: Toks, i: int) -> PR<%s> { if 0 <= i < t.len() { match t[i] { OpByBlock::%s(op) => PR::Ok(%s, i + 1), _ => PR::Next(i) } } else { PR::Next(i) } }\n'
                 % (n, ty, var, e))
    text += """
pub open spec fn p_memory_model(t: Toks, i: int) -> Result<(OpMemoryModel, int), ValidationError> {
    if 0 <= i < t.len() { match t[i] { OpByBlock::OpMemoryModel(op) => Ok((op, i + 1)), _ => Err(ValidationError::MemoryModelMissing) } } else { Err(ValidationError::MemoryModelMissing) }
}
pub open spec fn p_branch(t: Toks, i: int) -> Result<(GroupBranch, int), ValidationError> {
    if 0 <= i < t.len() { match t[i] { OpByBlock::GroupBranch(op) => Ok((op, i + 1)), _ => Err(ValidationError::ExpectedBranch(i as usize)) } } else { Err(ValidationError::ExpectedBranch(i as usize)) }
}
pub open spec fn p_merge(t: Toks, i: int) -> (Option<GroupMerge>, int) {
    if 0 <= i < t.len() { match t[i] { OpByBlock::GroupMerge(op) => (Some(op), i + 1), _ => (None, i) } } else { (None, i) }
}
/// A function without a body: header, parameters, end
pub open spec fn p_function_declaration(t: Toks, i: int) -> PR<FunctionDeclaration> {
    if t.len() - i < 2 { PR::Next(i) } else { match t[i] {
        OpByBlock::OpFunction(op) => match p_vec(f_function_parameter(), t, i + 1) {
            Err(e) => PR::Err(e),
            Ok((ps, j)) => if j < t.len() && t[j] is OpFunctionEnd { PR::Ok(FunctionDeclaration { function: op, parameters: ps }, j + 1) } else { PR::Next(i) },
        },
        _ => PR::Err(ValidationError::ExpectedOpFunction(i as usize)),
    } }
}
/// A label, code, maybe a merge, a branch
pub open spec fn p_basic_block(t: Toks, i: int) -> PR<BasicBlock> {
    if 0 <= i < t.len() { match t[i] {
        OpByBlock::OpLabel(l) => match p_vec(f_code(), t, i + 1) {
            Err(e) => PR::Err(e),
            Ok((code, j)) => match p_branch(t, p_merge(t, j).1) {
                Err(e) => PR::Err(e),
                Ok((b, k)) => PR::Ok(BasicBlock { label: l, code: code, merge: p_merge(t, j).0, branch: b }, k),
            },
        },
        _ => PR::Next(i),
    } } else { PR::Next(i) }
}
/// Header, parameters, blocks, end
pub open spec fn p_function_definition(t: Toks, i: int) -> PR<FunctionDefinition> {
    if t.len() - i < 2 { PR::Next(i) } else { match t[i] {
        OpByBlock::OpFunction(op) => match p_vec(f_function_parameter(), t, i + 1) {
            Err(e) => PR::Err(e),
            Ok((ps, j)) => match p_vec(f_basic_block(), t, j) {
                Err(e) => PR::Err(e),
                Ok((bs, k)) => if k < t.len() && t[k] is OpFunctionEnd { PR::Ok(FunctionDefinition { function: op, parameters: ps, blocks: bs }, k + 1) }
                    else { PR::Err(ValidationError::ExpectedOpFunctionEnd(k as usize)) },
            },
        },
        _ => PR::Err(ValidationError::ExpectedOpFunction(i as usize)),
    } }
}
/// The whole module, section by section
pub open spec fn p_module(t: Toks) -> Result<LogicalModule, ValidationError> {
"""
    global SIMPLE, SECTIONS
    SIMPLE = [x[:3] for x in simple]
    secs = SECTIONS = [('capabilities', 'capability'), ('extensions', 'extension'), ('ext_inst_imports', 'ext_inst_import'), ('memory_model', None),
            ('entry_points', 'entry_point'), ('execution_modes', 'execution_mode'), ('debug', 'debug'), ('annotations', 'annotation'),
            ('globals', 'global'), ('function_declarations', 'function_declaration'), ('function_definitions', 'function_definition')]
    close = ''
    for k, (f, p) in enumerate(secs):
        pos = 'i%d' % (k - 1) if k else '0'
        call = 'p_vec(f_%s(), t, %s)' % (p, pos) if p else 'p_memory_model(t, %s)' % pos
        text += '    match %s { Err(e) => Err(e), Ok((%s, i%d)) => \n' % (call, f, k)
        close += ' }'
    text += '    if i10 < t.len() { Err(ValidationError::UnexpectedInstruction(i10 as usize)) } else { Ok(LogicalModule { %s }) }%s\n}\n' % (
        ', '.join('%s: %s' % (f, f) for f, _ in secs), close)
    items = [(n, ty) for n, ty, _, _ in simple] + [('function_declaration', 'FunctionDeclaration'), ('basic_block', 'BasicBlock'), ('function_definition', 'FunctionDefinition')]
    for n, ty in items:
        text += 'pub open spec fn f_%s() -> Phase<%s> { |t: Toks, i: int| p_%s(t, i) }\n' % (n, ty, n)
        fn(P + 'read_' + n, 'requires insts.index <= insts.insts@.len()\nensures phase(r) == p_%s(insts.insts@, insts.index as int), same_toks(r, insts)' % n,
           begin='broadcast use g_values;')
        fn(P + 'read_many__read_' + n, 'requires insts.index <= insts.insts@.len()\nensures step(r) == p_vec(f_%s(), insts.insts@, insts.index as int), same_toks2(r, insts)' % n,
           loops=[{'before': 'let ghost t0 = insts.insts@; let ghost i0 = insts.index as int; proof { broadcast use g_values; lemma_then_empty(p_many(f_%s(), t0, i0)); }' % n,
                   'inv': 'invariant insts.insts@ == t0, i0 <= insts.index <= t0.len(), p_many(f_%s(), t0, i0) == then(output@, p_many(f_%s(), t0, insts.index as int)),\ndecreases t0.len() - insts.index' % (n, n),
                   'begin': 'proof { broadcast use g_values; lemma_then_step(f_%s(), t0, insts.index as int, output@); }' % n}])
    text += """
pub broadcast proof fn lemma_groups(s: Seq<Core>, v: Vec<OpByBlock>)
    requires v@.len() == s.len(), forall|i: int| 0 <= i < s.len() ==> v@[i] == group_of(s[i])
    ensures #![trigger v@, groups(s)] v@ == groups(s)
{ assert(v@ =~= groups(s)); }
"""
    extra_dec.append(text)
    slice_ok = 'requires self.index <= self.insts@.len()\n'
    fn(P + '<OpSlice>::new', 'ensures r.insts@ == insts@, r.index == 0')
    fn(P + '<OpSlice>::first', 'ensures match r { None => self.index >= self.insts@.len(), Some(x) => self.index < self.insts@.len() && *x == self.insts@[self.index as int] }')
    fn(P + '<OpSlice>::advance', 'requires self.index < self.insts@.len()\nensures r.insts@ == self.insts@, r.index == self.index + 1')
    fn(P + '<OpSlice>::get_slot', 'ensures r == self.index')
    fn(P + '<OpSlice>::get_remaining', slice_ok + 'ensures r == self.insts@.len() - self.index')
    fn(P + 'read_memory_model', 'requires insts.index <= insts.insts@.len()\nensures step(r) == p_memory_model(insts.insts@, insts.index as int), same_toks2(r, insts)')
    fn(P + 'read_branch', 'requires insts.index <= insts.insts@.len()\nensures step(r) == p_branch(insts.insts@, insts.index as int), same_toks2(r, insts), r is Ok ==> r->Ok_0.1.index > insts.index')
    fn(P + 'read_merge', 'requires insts.index <= insts.insts@.len()\nensures (r.0, r.1.index as int) == p_merge(insts.insts@, insts.index as int), r.1.insts@ == insts.insts@, insts.index <= r.1.index <= insts.insts@.len()')
    fn(P + 'validate', 'ensures r == p_module(groups(raw.instructions@)),\n r is Ok ==> ::theorem_layout::instructions_of(r->Ok_0) == raw.instructions@ && ::theorem_layout::in_layout(r->Ok_0)',
       begin='hide(p_vec); broadcast use {g_values, lemma_groups}; proof { assert(raw.instructions.len() <= usize::MAX); ::theorem_layout::validated(raw.instructions@); }')


def gen_control():
    C = 'spv::logical::control_flow::'
    extra_dec.append(open(os.path.join(HERE, 'control.rs')).read())
    fn(C + '<ControlFlowChain>::block', 'ensures chains@.len() != 1 ==> r == mk_block(chains@), chains@.len() == 1 ==> r == chains@[0] || r == ControlFlowChain::Block(mk_vec(flat(chains@)))',
       loops=[{'iter': 'it', 'before': 'let ghost cs = chains@;',
               'inv': 'invariant it.seq() == cs, merged@ == flat(cs.take(it.index@)),\n',
               'begin': 'proof { lemma_flat_step(cs, it.index@); }',
               'after': 'proof { assert(cs.take(cs.len() as int) =~= cs); }'}],
       begin='broadcast use g_values; proof { reveal_with_fuel(flat, 2); assert(chains@.len() == 0 ==> chains@ =~= Seq::empty()); }')
    fn(C + '<FlowNode>::merges', 'ensures r == merges(node_view(*self), *id)\ndecreases *self', begin='broadcast use lemma_push_drop; reveal_with_fuel(merges, 2);')
    fn(C + '<FlowNode>::innermost_loop', 'ensures r == inner_loop(node_view(*self))\ndecreases *self', begin='broadcast use lemma_push_drop; reveal_with_fuel(inner_loop, 2);')
    fn(C + '<FlowList>::new', 'ensures fl_view(r) == Seq::<Converge>::empty()')
    fn(C + '<FlowList>::extend', 'ensures fl_view(r) == fl_view(*self).push(converge)', begin='broadcast use {lemma_push_empty, ax_rc_cloned}; reveal_with_fuel(node_view, 2);')
    fn(C + '<FlowList>::merges', 'ensures r == merges(fl_view(*self), *id)')
    fn(C + '<FlowList>::innermost_loop', 'ensures r == inner_loop(fl_view(*self))')
    fn(C + 'search_block', 'requires depth <= block_map@.len(), block_map@.dom().finite()\n'
       'ensures r == cf(id, fl_view(*flow_list), block_map@, depth as int)\ndecreases block_map@.len() - depth',
       begin='broadcast use {g_values, ax_blockid_key};')
    fn(C + 'find_control_flow', 'ensures r == cf_fn(decl.blocks@), r is Ok ==> faithful_fn(decl.blocks@, r->Ok_0)',
       loops=[{'iter': 'it',
               'inv': 'invariant it.seq().len() == decl.blocks@.len(), forall|i: int| 0 <= i < decl.blocks@.len() ==> *it.seq()[i] == decl.blocks@[i],\n'
                      ' block_map_of(decl.blocks@.take(it.index@)) == Ok::<Blocks, BlockId>(map@), map@.dom().finite(),\n'
                      ' start_opt == (if it.index@ == 0 { None::<BlockId> } else { Some(block_id(decl.blocks@[0])) }),\n',
               'begin': 'proof { lemma_map_step(decl.blocks@, it.index@); }',
               'after': 'proof { assert(decl.blocks@.take(decl.blocks@.len() as int) =~= decl.blocks@); lemma_map_len(decl.blocks@); }'}],
       begin='broadcast use {g_values, ax_blockid_key}; proof { lemma_cf_fn(decl.blocks@); }')


def lits(text, args):
    """A format text as an expression"""
    parts = text.replace('\\"', '"').split('{}')
    out = []
    for i, p in enumerate(parts):
        if p:
            out.append(json.dumps(p) + '@')
        if i + 1 < len(parts):
            out.append(args[i])
    return right(out)


def right(parts):
    if not parts:
        return 'Seq::<char>::empty()'
    e = parts[-1]
    for p in reversed(parts[:-1]):
        e = '%s + (%s)' % (p, e)
    return e


G_TEXT = 'broadcast use {g_text, g_values};'


def disp(mod, ty, body, ok='true', wide='false', begin=G_TEXT, trait='Display', **kw):
    k = '%s::<%s for %s>' % (mod, trait, ty)
    impls[k] = ('open spec fn txt(&self, o: ::xfmt::Opts) -> Seq<char> { %s }\nopen spec fn ok(&self) -> bool { %s }\nopen spec fn wide() -> bool { %s }\n' % (body, ok, wide))
    fn(k + '::fmt', begin=begin, **kw)


def bits_lemma():
    """Bit operations on a word in terms of arithmetic, so that a test of a flag or a mask can be written in any way"""
    cl = []
    masks = sorted({(1 << k) - 1 for k in range(1, 6)} | {0xFF, 0xFFFF})
    for m in masks:
        cl.append(('w: u32', '#[trigger] (w & %du32) == w %% %du32' % (m, m + 1)))
        cl.append(('w: u32', '(#[trigger] (w & !%du32) == 0) <==> w <= %du32' % (m, m)))
        cl.append(('w: u32', '(#[trigger] (w | %du32) == %du32) <==> w <= %du32' % (m, m, m)))
        cl.append(('w: u32', '(#[trigger] (w & %du32) == 0) <==> w <= %du32' % (0xFFFFFFFF ^ m, m)))
    for k in list(range(1, 6)) + [8, 16, 24]:
        cl.append(('w: u32', '#[trigger] (w >> %du32) == w / %du32' % (k, 1 << k)))
    for k in range(1, 5):
        cl.append(('w: u32', '#[trigger] (w & %du32) == ((w / %du32) %% 2) * %du32' % (1 << k, 1 << k, 1 << k)))
    for k, m in ((8, 0xFF00), (16, 0xFF0000), (24, 0xFF000000)):
        cl.append(('w: u32', '#[trigger] (w & %du32) == ((w / %du32) %% 256u32) * %du32' % (m, 1 << k, 1 << k)))
    cl.append(('w: u32', '#[trigger] (w & 0xFFFF0000u32) == (w / 65536u32) * 65536u32'))
    cl.append(('w: u32', '#[trigger] (w as u8) == w % 256u32'))
    cl.append(('w: u32', '#[trigger] (w as u16) == w % 65536u32'))
    cl.append(('w: u16', '#[trigger] (w as u8) == w % 256u16'))
    gr = ['1u32 << %du32 == %du32' % (k, 1 << k) for k in range(0, 6)] + ['!%du32 == %du32' % (m, 0xFFFFFFFF ^ m) for m in masks]
    out = 'pub proof fn lemma_bits()\n    ensures\n'
    for v, c in cl:
        out += '        forall|%s| %s,\n' % (v, c)
    for g in gr:
        out += '        %s,\n' % g
    out += '{\n'
    for v, c in cl:
        out += '    assert forall|%s| %s by { assert(%s) by (bit_vector); }\n' % (v, c, c.replace('#[trigger] ', ''))
    for g in gr:
        out += '    assert(%s) by (bit_vector);\n' % g
    out += '}\n'
    h = ['h as u16 == (h & 0xFFFF) as u16', '((h >> 16) & 0xFFFF) == (h >> 16)',
         '((h & 0xFFFF0000) >> 16) == (h >> 16)', '(h / 65536) as u16 == (h >> 16) as u16', '(h % 65536) as u16 == (h & 0xFFFF) as u16']
    out += 'pub proof fn lemma_head_bits(h: u32)\n    ensures\n' + ''.join('        %s,\n' % x for x in h) + '{\n' + ''.join('    assert(%s) by (bit_vector);\n' % x for x in h) + '}\n'
    return out


def gen_text():
    TY, DI, OPM = 'spv::types', 'spv::dis', 'spv::op'
    disp(TY, 'OpId', '::xfmt::pad("%"@ + num(self.0 as int), o, false)', wide='true')
    for n in ('SourceVersion', 'Line', 'Column', 'MemberIndex'):
        disp(TY, n, 'num(self.0 as int)')
    for name, e in T['enums'].items():
        if name == 'Tool' or any(v['text'] is None for v in e['variants']):
            continue
        arms = ''
        for v in e['variants']:
            a = ['a%d' % i for i in range(len(v['args']))]
            arms += '%s::%s%s => %s, ' % (name, v['name'], '(%s)' % ', '.join(a) if a else '', lits(v['text'], ['tx(&%s)' % x for x in a]))
        disp(TY, name, 'match *self { %s }' % arms)
    for name, m in T['masks'].items():
        e = 'Seq::<Seq<char>>::empty()'
        body = 'let p = %s; ' % e
        for n, bit, t in m['bits']:
            if t is None:
                body += 'let p = match self.%s { Some(n) => p.push("DependencyLength("@ + (num(n as int) + ")"@)), None => p }; ' % n
            else:
                body += 'let p = if self.%s { p.push("%s"@) } else { p }; ' % (n, t)
        body += 'if p.len() == 0 { "None"@ } else { joined(p, " | "@) }'
        disp(TY, name, body, begin='broadcast use {g_text, g_values, lemma_texts_push, lemma_texts_empty};')
    for name, fl in T['structs'].items():
        disp(TY, name, lits(' '.join('{}' for _ in fl), ['tx(&self.%s)' % n for n, _ in fl]))
    fn(TY + '::<Tool>::get_vendor', 'ensures match r { Some(s) => vendor_of(*self) == Some(s@), None => vendor_of(*self) is None }', begin='broadcast use g_values;')
    fn(TY + '::<Tool>::get_tool', 'ensures match r { Some(s) => toolname_of(*self) == Some(s@), None => toolname_of(*self) is None }', begin='broadcast use g_values;')
    extra_dec.append('pub open spec fn vendor_of(t: Tool) -> Option<Seq<char>> { match t { %s _ => None } }\n' % ''.join('Tool::%s => Some("%s"@), ' % (a, b) for a, b in T['vendors'])
                     + 'pub open spec fn toolname_of(t: Tool) -> Option<Seq<char>> { match t { %s _ => None } }\n' % ''.join('Tool::%s => Some("%s"@), ' % (a, b) for a, b in T['toolnames']))
    # --- operands of an instruction
    disp(DI, 'Result', 'result_text(*self.0)')
    disp(DI, 'NoResult', '"               "@')
    extra_dec.append("""
/// The result id, right aligned in twelve columns, and an equals sign
pub open spec fn result_text(r: ResultId) -> Seq<char> { let t = "%"@ + num(r.0 as int); (spaces(12 - t.len()) + t) + " = "@ }
pub open spec fn arg_texts<T: ::spv::dis::DisplayArg>(s: Seq<T>) -> Seq<char> { cat(s.map_values(|t: T| " "@ + t.darg())) }
""")
    traits[DI + '::FormatArg'] = 'spec fn farg(&self) -> Seq<char>;\nspec fn farg_ok(&self) -> bool;\n'
    fn(DI + '::FormatArg::format_arg', 'requires self.farg_ok()\nensures old(f).opts() == none() ==> wrote(*old(f), *final(f), r, self.farg())')
    traits[DI + '::DisplayArg'] = 'spec fn darg(&self) -> Seq<char>;\nspec fn darg_ok(&self) -> bool;\n'
    fn(DI + '::DisplayArg::display_arg', 'requires self.darg_ok()\nensures old(f).opts() == none() ==> wrote(*old(f), *final(f), r, self.darg())')
    impls[DI + '::<FormatArg for T>'] = 'open spec fn farg(&self) -> Seq<char> { " "@ + self.darg() }\nopen spec fn farg_ok(&self) -> bool { self.darg_ok() }'
    fn(DI + '::<FormatArg for T>::format_arg', begin=G_TEXT)
    impls[DI + '::<FormatArg for Option<T>>'] = 'open spec fn farg(&self) -> Seq<char> { match *self { Some(t) => " "@ + t.darg(), None => Seq::empty() } }\nopen spec fn farg_ok(&self) -> bool { match *self { Some(t) => t.darg_ok(), None => true } }'
    fn(DI + '::<FormatArg for Option<T>>::format_arg', begin=G_TEXT)
    impls[DI + '::<FormatArg for Vec<T>>'] = 'open spec fn farg(&self) -> Seq<char> { arg_texts(self@) }\nopen spec fn farg_ok(&self) -> bool { forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).darg_ok() }'
    fn(DI + '::<FormatArg for Vec<T>>::format_arg', begin=G_TEXT + ' let ghost out0 = f.out(); let ghost nf = f.nofail(); let ghost op0 = f.opts();', loops=[{
        'iter': 'it',
        'inv': 'invariant it.seq().len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> *it.seq()[i] == self@[i], self.farg_ok(),\n'
               ' op0 == none() ==> f.opts() == op0 && f.nofail() == nf && f.out() == put(out0, arg_texts(self@.take(it.index@))),\n',
        'begin': 'proof { lemma_cat(self@, |t: T| " "@ + t.darg(), it.index@); }',
        'after': 'proof { assert(self@.take(self@.len() as int) =~= self@); }'}])
    impls[DI + '::<DisplayArg for String>'] = 'open spec fn darg(&self) -> Seq<char> { %s }\nopen spec fn darg_ok(&self) -> bool { true }' % lits('"{}"', ['self@'])
    fn(DI + '::<DisplayArg for String>::display_arg', begin=G_TEXT)
    impls[DI + '::<DisplayArg for T>'] = 'open spec fn darg(&self) -> Seq<char> { self.txt(none()) }\nopen spec fn darg_ok(&self) -> bool { self.ok() }'
    fn(DI + '::<DisplayArg for T>::display_arg', begin=G_TEXT)
    # --- instructions
    for op in T['ops'] + T['extra_display']:
        head = 'result_text(self.result_id)' if op['has_result'] else '"               "@'
        parts = [head, '"%s"@' % op['name']] + ['::spv::dis::FormatArg::farg(&self.%s)' % n for n in op['shown']]
        disp(OPM, op['name'], right(parts))
    disp('spv::raw', 'Core', 'match *self { %s }' % ' '.join('Core::%s(op) => tx(&op),' % op['name'] for op in T['ops']))
    L = 'spv::logical'
    disp(L, 'GroupCode', 'match *self { %s }' % ' '.join('GroupCode::%s(op) => tx(&op),' % op['name'] for op in T['ops'] if op['group'] in ('GroupCode', 'Variable')))
    disp(L, 'GroupBranch', 'match *self { %s }' % ' '.join('GroupBranch::%s(op) => tx(&op),' % op['name'] for op in T['ops'] if op['group'] == 'GroupBranch'))
    # --- module
    extra_dec.append("""
pub open spec fn gen_text(g: Generator) -> Seq<char> { match (vendor_of(g.tool), toolname_of(g.tool)) {
    (Some(v), Some(t)) => v + (" "@ + t), (Some(v), None) => v, (None, Some(t)) => t, (None, None) => "Unknown"@ } }
pub open spec fn lines(s: Seq<Core>) -> Seq<char> { cat(s.map_values(|c: Core| tx(&c) + "\\n"@)) }
pub open spec fn module_text(m: RawModule) -> Seq<char> {
    "; SPIR-V\\n"@ + ("; Version: "@ + (num(m.version.0 as int) + ("."@ + (num(m.version.1 as int) + ("\\n"@
    + ("; Generator: "@ + (gen_text(m.generator) + ("; "@ + (num(m.generator.version as int) + ("\\n"@
    + ("; Bound: "@ + (num(m.bound as int) + ("\\n"@ + ("; Schema: 0\\n"@ + lines(m.instructions@))))))))))))))) }
""")
    disp('spv::raw', 'RawModule', 'module_text(*self)', begin=G_TEXT + ' let ghost nf = f.nofail(); let ghost op0 = f.opts(); let ghost mut out1 = f.out();', loops=[{
        'iter': 'it', 'before': 'proof { out1 = f.out(); }',
        'inv': 'invariant it.seq().len() == self.instructions@.len(), forall|i: int| 0 <= i < self.instructions@.len() ==> *it.seq()[i] == self.instructions@[i],\n'
               ' op0 == none() ==> f.opts() == op0 && f.nofail() == nf && f.out() == put(out1, lines(self.instructions@.take(it.index@))),\n',
        'begin': 'proof { lemma_cat(self.instructions@, |c: Core| tx(&c) + "\\n"@, it.index@); }',
        'after': 'proof { assert(self.instructions@.take(self.instructions@.len() as int) =~= self.instructions@); }'}])
    extra_dec.append('pub open spec fn description_of(e: ReadError) -> Seq<char> { match e { %s } }\n' % ' '.join('ReadError::%s => "%s"@,' % (a + ARITY.get(a, '(..)'), b) for a, b in T['descriptions']))
    impls['spv::raw::<Error for ReadError>'] = 'open spec fn desc(&self) -> Seq<char> { description_of(*self) }'
    fn('spv::raw::<Error for ReadError>::description', begin='broadcast use g_values;')
    disp('spv::raw', 'ReadError', 'description_of(*self)')
    # --- extended instructions
    disp('spv', 'ExtInstBox', 'tx(&self.0)')
    fn('spv::<AsRef<ExtInst> for ExtInstBox>::as_ref', 'ensures *r == self.0')
    traits['spv::Op'] = 'spec fn oname(&self) -> Seq<char>;\n'
    fn('spv::Op::get_name', 'ensures r@ == self.oname()')
    for n in ('Sin', 'Cos'):
        impls['glsl450::op::<Op for %s>' % n] = 'open spec fn oname(&self) -> Seq<char> { "%s"@ }' % n
        disp('glsl450::op', n, '"%s "@ + tx(&self.x)' % n)
    disp('glsl450', 'Inst', 'match *self { Inst::Sin(op) => tx(&op), Inst::Cos(op) => tx(&op) }')


def gen_print():
    C = 'spv::logical::control_flow::'
    extra_dec.append(open(os.path.join(HERE, 'print.rs')).read())
    disp(C[:-2], 'BlockId', 'id_txt(*self)')
    wi = dict(spec='ensures wrote(*old(f), *final(f), r, ind(indent as int))',
              begin=G_TEXT + ' let ghost out0 = f.out(); let ghost nf = f.nofail(); let ghost op0 = f.opts();',
              loops=[{'iter': 'it', 'inv': 'invariant f.opts() == op0, f.nofail() == nf, f.out() == put(out0, ind(it.index@ as int)),\n'}])
    for k in ('<ControlFlowChain>::fmt_indent', '<ControlFlowFunctionPrinter>::fmt_block_indent', '<ControlFlowFunctionPrinter>::fmt_indent'):
        fn(C + k + '#write_indent', wi['spec'], begin=wi['begin'], loops=wi['loops'])
    # the same as a function of its own, whatever it is called
    patterns.append(dict(fns[C + '<ControlFlowChain>::fmt_indent#write_indent'], module=C[:-2], params=[['f', '&mutfmt::Formatter'], ['indent', 'u32']]))
    ghosts = ' let ghost out0 = f.out(); let ghost nf = f.nofail(); let ghost op0 = f.opts();'
    disp(C[:-2], 'ControlFlowChain', 'tree_txt(*self, 0)', ok='depth(*self) <= u32::MAX')
    fn(C + '<ControlFlowChain>::fmt_indent', 'requires depth(*self) + indent <= u32::MAX\nensures old(f).opts() == none() ==> wrote(*old(f), *final(f), r, tree_txt(*self, indent as int))\ndecreases *self',
       begin='broadcast use {g_text, g_values, lemma_vec_empty};' + ghosts,
       loops=[{'iter': 'it', 'inv': 'invariant it.seq().len() == block@.len(), forall|i: int| 0 <= i < block@.len() ==> *it.seq()[i] == block@[i], self == ControlFlowChain::Block(*block), depth(*self) + indent <= u32::MAX,\n'
               ' op0 == none() ==> f.opts() == op0 && f.nofail() == nf && f.out() == put(out0, tree_seq(*block, it.index@ as int, indent as int)),\n',
               'begin': 'proof { lemma_depth_at(*block, 0, it.index@ as int); }'}])
    disp(C[:-2], 'ControlFlowFunctionPrinter', 'fn_txt(block_map_of(self.0.blocks@)->Ok_0, *self.1, 0)', ok='printable(self.0.blocks@, *self.1)')
    fn(C + '<ControlFlowFunctionPrinter>::fmt_block_indent', 'requires block_map_of(self.0.blocks@) is Ok, block_map_of(self.0.blocks@)->Ok_0.contains_key(id)\n'
       'ensures old(f).opts() == none() ==> wrote(*old(f), *final(f), r, block_txt(*block_map_of(self.0.blocks@)->Ok_0[id], id, indent as int))',
       begin='broadcast use {g_text, g_values, lemma_vec_empty};' + ghosts + ' let ghost bs = self.0.blocks@; let ghost mut out1 = f.out();',
       loops=[{'iter': 'it', 'inv': 'invariant it.seq().len() == bs.len(), bs == self.0.blocks@, forall|i: int| 0 <= i < bs.len() ==> *it.seq()[i] == bs[i], block_map_of(bs) is Ok, block_map_of(bs.take(it.index@ as int)) is Ok,\n'
               ' block == (if block_map_of(bs.take(it.index@ as int))->Ok_0.contains_key(id) { Some(block_map_of(bs.take(it.index@ as int))->Ok_0[id]) } else { None::<&BasicBlock> }),\n',
               'begin': 'proof { lemma_map_prefix(bs, it.index@ + 1); lemma_map_step(bs, it.index@ as int); }',
               'after': 'proof { assert(bs.take(bs.len() as int) =~= bs); }'},
              {'iter': 'it', 'before': 'proof { out1 = f.out(); }',
               'inv': 'invariant it.seq().len() == block.code@.len(), forall|i: int| 0 <= i < block.code@.len() ==> *it.seq()[i] == block.code@[i],\n'
               ' op0 == none() ==> f.opts() == op0 && f.nofail() == nf && f.out() == put(out1, code_txt(block.code@.take(it.index@ as int), indent as int)),\n',
               'begin': 'proof { lemma_cat(block.code@, |c: GroupCode| ind(indent as int) + (">>> "@ + (tx(&c) + "\\n"@)), it.index@ as int); }',
               'after': 'proof { assert(block.code@.take(block.code@.len() as int) =~= block.code@); }'}])
    fn(C + '<ControlFlowFunctionPrinter>::fmt_indent', 'requires printable(self.0.blocks@, *self.1), depth(*self.1) + indent <= u32::MAX\n'
       'ensures old(f).opts() == none() ==> wrote(*old(f), *final(f), r, fn_txt(block_map_of(self.0.blocks@)->Ok_0, *self.1, indent as int))\ndecreases *self.1',
       begin='broadcast use {g_text, g_values, lemma_vec_empty};' + ghosts + ' let ghost m = block_map_of(self.0.blocks@)->Ok_0;',
       loops=[{'iter': 'it', 'inv': 'invariant it.seq().len() == block@.len(), forall|i: int| 0 <= i < block@.len() ==> *it.seq()[i] == block@[i], *self.1 == ControlFlowChain::Block(*block), printable(self.0.blocks@, *self.1), depth(*self.1) + indent <= u32::MAX,\n'
               ' m == block_map_of(self.0.blocks@)->Ok_0, op0 == none() ==> f.opts() == op0 && f.nofail() == nf && f.out() == put(out0, fn_seq(m, *block, it.index@ as int, indent as int)),\n',
               'begin': 'proof { lemma_depth_at(*block, 0, it.index@ as int); lemma_has_ids_at(m, *block, 0, it.index@ as int); }'}])


ARITY = {n: '' for n in ('UnexpectedEndOfStream', 'UnexpectedStreamAlignment', 'BadMagic', 'UnknownReservedSchema', 'WrongWordCountForOp', 'InvalidString',
                         'UnexpectedEndOfInstruction', 'InstructionHadExcessData')}

THEOREM_VALUES = """
pub mod theorem_values {
    use vstd::prelude::*;
    use vspec::*;
    use spv::ExtInst;
    use spv::ExtInstClone;
    use glsl450::Inst;
    /// The copy that a box of a GLSL instruction makes is a box of an equal instruction
    pub proof fn boxed_copy(i: Inst, r: XInst) requires i.copies(r) ensures r == i.boxed() {}
    /// Boxed instructions are equal exactly when their contents are
    pub proof fn boxed_eq(i: Inst, j: Inst) ensures i.boxed() == j.boxed() <==> i == j {
        broadcast use {ax_any, ax_any_val};
        assert(any_val(i) == i.held() && any_val(j) == j.held());
        let _ = ExtInst::held(&inst_box(i)); let _ = ExtInst::held(&inst_box(j));
        assert(ExtInst::held(&inst_box(i)) == any_val(i)); assert(ExtInst::held(&inst_box(j)) == any_val(j));
    }
    /// Comparing what is in the box is comparing the boxes
    pub proof fn boxed_dispatch(i: Inst, x: XInst) ensures (i.boxed() == x) == (inst_box(i).boxed() == x) {}
}
"""

CANARY = """
/// Not true: if the verifier accepts this, the axioms contradict each other and nothing is proved.
pub mod canary {
    use vstd::prelude::*;
    use vspec::*;
    pub proof fn must_fail() {
        broadcast use {g_values, g_copy, ax_opid_key, ax_blockid_key, ax_rc_cloned, g_text};/*@MORE@*/
        assert(false); // CANARY
    }
}
"""

def gen_theorems():
    """The properties as theorems about the contracts"""
    simple = [(n, ty, var, {'OpCapability': 'OpCapability { capability: v }', 'OpExtension': 'OpExtension { name: v }'}.get(var, 'v')) for n, ty, var in SIMPLE]
    t = open(os.path.join(HERE, 'theorems.rs')).read()
    x = ''
    for n, ty, var, b in simple:
        x += 'pub open spec fn g_%s() -> Unit<%s> { |v: %s| seq![OpByBlock::%s(%s)] }\n' % (n, ty, ty, var, b)
        x += ('pub proof fn e_%(n)s() ensures exact(f_%(n)s(), g_%(n)s()), recog(f_%(n)s(), g_%(n)s()), forall|v: %(ty)s| (#[trigger] g_%(n)s()(v)).len() > 0 && rank(g_%(n)s()(v)[0]) == rank(OpByBlock::%(var)s(arbitrary()))\n'
              '{ assert forall|t: Toks, i: int| 0 <= i <= t.len() && t.len() <= usize::MAX implies (match #[trigger] f_%(n)s()(t, i) { PR::Ok(v, j) => i < j <= t.len() && t.subrange(i, j) == g_%(n)s()(v), PR::Next(j) => j == i, PR::Err(_) => true }) by\n'
              '  { if i < t.len() && t[i] is %(var)s { assert(t.subrange(i, i + 1) =~= seq![t[i]]); } }\n'
              '  assert forall|t: Toks, i: int, v: %(ty)s| #![trigger f_%(n)s()(t, i), g_%(n)s()(v)] 0 <= i && i + g_%(n)s()(v).len() <= t.len() && t.len() <= usize::MAX && t.subrange(i, i + g_%(n)s()(v).len()) == g_%(n)s()(v)\n'
              '   implies f_%(n)s()(t, i) == PR::Ok(v, i + g_%(n)s()(v).len()) by { assert(t[i] == t.subrange(i, i + 1)[0]); } }\n') % {'n': n, 'ty': ty, 'var': var}
    eall = ' '.join('e_%s();' % p for _, p in SECTIONS if p)
    sound, comp = '', ''
    for k, (f, p) in enumerate(SECTIONS):
        pos = 'i%d' % (k - 1) if k else '0int'
        if p:
            sound += 'lemma_vec(f_%s(), g_%s(), t, %s); let i%d = p_vec(f_%s(), t, %s)->Ok_0.1;\n' % (p, p, pos, k, p, pos)
        else:
            sound += 'let i%d = %s + 1; assert(t.subrange(%s, i%d) =~= seq![t[%s]]);\n' % (k, pos, pos, k, pos)
    for k in range(9, -1, -1):
        sound += 'lemma_join(t, %s, i%d, i10);\n' % ('i%d' % (k - 1) if k else '0', k)
    sound += 'assert(t.subrange(0, i10) =~= t);\n'
    part = ['all(m.%s@, g_%s())' % (f, p) if p else 'seq![OpByBlock::OpMemoryModel(m.memory_model)]' for f, p in SECTIONS]
    suffix, steps = '', ''
    for k in range(9, -1, -1):
        suffix += 'pub open spec fn s%d(m: LogicalModule) -> Toks { %s + s%d(m) }\n' % (k, part[k], k + 1)
    for k in range(8, -1, -1):
        f, p = SECTIONS[k]
        if p:
            ty = [y for n, y, _ in SIMPLE if n == p][0]
            steps += ('pub proof fn lemma_rank%(k)d(m: LogicalModule) ensures from_rank(s%(k)d(m), %(k)d)\n{ lemma_rank%(j)d(m); e_%(p)s(); lemma_rank(m.%(f)s@, g_%(p)s(), s%(j)d(m), %(k)d); }\n' if k < 8 else
                      'pub proof fn lemma_rank%(k)d(m: LogicalModule) ensures from_rank(s%(k)d(m), %(k)d)\n{ lemma_s9(m); e_%(p)s(); lemma_rank(m.%(f)s@, g_%(p)s(), s%(j)d(m), %(k)d); }\n') % {'k': k, 'j': k + 1, 'p': p, 'f': f}
            steps += ('pub proof fn lemma_part%(k)d(t: Toks, i: int, m: LogicalModule)\n requires 0 <= i <= t.len(), t.len() <= usize::MAX, t.subrange(i, t.len() as int) == s%(k)d(m)\n'
                      ' ensures ({ let j = i + all(m.%(f)s@, g_%(p)s()).len(); j <= t.len() && t.subrange(j, t.len() as int) == s%(j)d(m) && p_vec(f_%(p)s(), t, i) == Ok::<(Vec<%(ty)s>, int), ValidationError>((m.%(f)s, j)) })\n'
                      '{ e_%(p)s(); assert(stops(f_%(p)s(), %(k)d)); %(r)s(m); lemma_section(f_%(p)s(), g_%(p)s(), %(k)d, t, i, m.%(f)s, s%(j)d(m)); }\n') % {'k': k, 'j': k + 1, 'p': p, 'f': f, 'ty': ty, 'r': 'lemma_rank%d' % (k + 1) if k < 8 else 'lemma_s9'}
        else:
            steps += 'pub proof fn lemma_rank%d(m: LogicalModule) ensures from_rank(s%d(m), %d) { assert(s%d(m)[0] == OpByBlock::OpMemoryModel(m.memory_model)); }\n' % (k, k, k, k)
            steps += ('pub proof fn lemma_part%(k)d(t: Toks, i: int, m: LogicalModule)\n requires 0 <= i <= t.len(), t.subrange(i, t.len() as int) == s%(k)d(m)\n'
                      ' ensures i < t.len(), t[i] == OpByBlock::OpMemoryModel(m.memory_model), t.subrange(i + 1, t.len() as int) == s%(j)d(m)\n'
                      '{ lemma_split(t, i, t.len() as int, %(part)s, s%(j)d(m)); assert(t[i] == t.subrange(i, i + 1)[0]); }\n') % {'k': k, 'j': k + 1, 'part': part[k]}
    for k in range(9):
        pos = 'i%d' % (k - 1) if k else '0int'
        comp += 'lemma_part%d(t, %s, m); let i%d = %s + (%s).len();\n' % (k, pos, k, pos, part[k])
    comp += 'lemma_functions(t, i8, m);\n'
    arms = ''
    for g in ('GroupDebug', 'GroupAnnotation', 'GroupCode', 'GroupMerge', 'GroupBranch'):
        arms += 'OpByBlock::%s(g) => match g { %s },\n' % (g, ' '.join('%s::%s(op) => Core::%s(op),' % (g, o['name'], o['name']) for o in T['ops'] if o['group'] == g or g == 'GroupCode' and o['group'] == 'Variable'))
    arms += 'OpByBlock::GroupGlobal(g) => match g { GroupGlobal::OpVariable(op) => Core::OpVariable(op),\n'
    for g in ('GroupType', 'GroupConstant'):
        arms += 'GroupGlobal::%s(h) => match h { %s },\n' % (g, ' '.join('%s::%s(op) => Core::%s(op),' % (g, o['name'], o['name']) for o in T['ops'] if o['group'] == g))
    arms += '},\n' + ' '.join('OpByBlock::%s(op) => Core::%s(op),' % (o['name'], o['name']) for o in T['ops'] if not o['group'].startswith('Group') and o['group'] != 'Variable')
    for k, v in (('//@SIMPLE@', x), ('//@EALL@', eall), ('//@SOUND@', sound), ('//@COMPLETE@', comp), ('//@SUFFIX@', suffix), ('//@STEPS@', steps), ('//@UNGROUP@', arms)):
        t = t.replace(k, v)
    return t


def gen_values():
    """Copies and comparisons: the bodies that derive writes, and the extended instructions behind trait objects"""
    for k in ('spv::ExtInst', 'spv::ExtInstClone', 'spv::<ExtInstClone for T>', 'spv::<Clone for Box<ExtInst>>',
              'spv::<PartialEq<ExtInstBox> for ExtInstBox>', 'glsl450::<ExtInst for Inst>'):
        drop.remove(k)
    drop_traits.remove('AsRef')
    del mods['spv']
    fn('spv::<AsRef<ExtInst> for ExtInstBox>::as_ref', 'ensures *r == self.0')
    traits['spv::ExtInst'] = 'spec fn boxed(&self) -> XInst;\nspec fn held_op(&self) -> XOp;\nspec fn held(&self) -> XAny;\n'
    fn('spv::ExtInst::get_op', 'ensures *r == self.held_op()')
    fn('spv::ExtInst::as_any', 'ensures *r == self.held()')
    fn('spv::ExtInst::eq', 'ensures r == (self.boxed() == *other)')
    traits['spv::ExtInstClone'] = 'spec fn copies(&self, r: XInst) -> bool;\n'
    fn('spv::ExtInstClone::clone_box', 'ensures self.copies(r)')
    impls['spv::<ExtInstClone for T>'] = 'open spec fn copies(&self, r: XInst) -> bool { exists|x: T| #[trigger] call_ensures(T::clone, (self,), x) && r == inst_box(x) }'
    fn('spv::<Clone for Box<ExtInst>>::clone', 'ensures r == *self')
    extra_dec.append(open(os.path.join(HERE, 'values.rs')).read())
    impls['glsl450::<ExtInst for Inst>'] = """
open spec fn boxed(&self) -> XInst { inst_box(*self) }
open spec fn held_op(&self) -> XOp { match *self { Inst::Sin(op) => op_val(op), Inst::Cos(op) => op_val(op) } }
open spec fn held(&self) -> XAny { any_val(*self) }
"""
    fn('glsl450::<ExtInst for Inst>::eq', begin='broadcast use {ax_any, ax_any_val}; proof { assert(any_val(*self) == ::spv::ExtInst::held(self)); }')


gen_reader()
gen_ext()
gen_parser()
gen_control()
if __name__ == '__main__':
    # "decode": reading, validation and control flow; "text": also everything that prints
    mode = sys.argv[2] if len(sys.argv) > 2 else 'decode'
    if mode == 'text':
        gen_text()
        gen_print()
        drop.remove('spv::Op')
    else:
        drop.extend(['spv::logical::control_flow::<ControlFlowChain>::fmt_indent', 'spv::logical::control_flow::<ControlFlowFunctionPrinter>',
                     'spv::dis::FormatArg', 'spv::dis::DisplayArg', 'spv::dis::DisplayArgType'])
        drop_traits.extend(['Display', 'AsRef', 'Op', 'DisplayArgType', 'DisplayArg', 'FormatArg', 'Error'])
        for k in ('get_vendor', 'get_tool'):
            drop.append('spv::types::<Tool>::' + k)
    if mode == 'values':
        gen_values()
    else:
        extra_dec.append('impl Clone for XInst { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }')
    pre = open(os.path.join(HERE, 'prelude.rs')).read().replace('//@DEC@', '\n'.join(extra_dec)).replace('//@USES@', '')
    json.dump({'values': mode == 'values', 'patterns': patterns, 'recursive': ['spv::logical::control_flow::ControlFlowChain'], 'fns': fns, 'impls': impls, 'traits': traits, 'types': types, 'mods': mods, 'drop': drop,
               'drop_traits': drop_traits, 'header': pre, 'footer': CANARY.replace('/*@MORE@*/', ' broadcast use {ax_any, ax_any_val};' if mode == 'values' else '') + gen_theorems() + (THEOREM_VALUES if mode == 'values' else '')}, open(sys.argv[1], 'w'), indent=1)
