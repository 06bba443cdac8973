
/// What follows from the contracts, stated without them: the properties as a user would put them.
pub mod theorem_bytes {
    use vstd::prelude::*;
    use vspec::*;
    use core::result::Result;
    use spv::types::*;
    use spv::op::*;
    use spv::raw::*;
    use spv::logical::*;
    use spv::logical::parser::*;
    use spv::logical::parser::parser::*;

    // ------------------------------------------------------------ byte order
    /// The bytes of each word reversed
    pub open spec fn swap(b: Seq<u8>) -> Seq<u8> { Seq::new(b.len(), |i: int| b[4 * (i / 4) + (3 - i % 4)]) }
    pub proof fn lemma_swap_word(b: Seq<u8>, le: bool, i: int)
        requires b.len() % 4 == 0, 0 <= i, 4 * i + 4 <= b.len()
        ensures word_at(swap(b), le, i) == word_at(b, !le, i)
    {
        assert forall|k: int| 0 <= k < 4 implies #[trigger] swap(b)[4 * i + k] == b[4 * i + (3 - k)] by {
            assert((4 * i + k) / 4 == i);
            assert((4 * i + k) % 4 == k);
        }
        assert(swap(b)[4 * i + 0] == b[4 * i + 3]);
        assert(swap(b)[4 * i + 1] == b[4 * i + 2]);
        assert(swap(b)[4 * i + 2] == b[4 * i + 1]);
        assert(swap(b)[4 * i + 3] == b[4 * i + 0]);
    }
    pub proof fn lemma_swap_skip(b: Seq<u8>, k: int)
        requires b.len() % 4 == 0, 0 <= k, 4 * k <= b.len()
        ensures swap(b).skip(4 * k) == swap(b.skip(4 * k))
    {
        let c = b.skip(4 * k);
        assert forall|i: int| 0 <= i < c.len() implies swap(b).skip(4 * k)[i] == #[trigger] swap(c)[i] by {
            assert((4 * k + i) / 4 == k + i / 4);
            assert((4 * k + i) % 4 == i % 4);
        }
        assert(swap(b).skip(4 * k) =~= swap(c));
    }
    pub open spec fn swapped(d: Inst1) -> Inst1 { match d { Err(e) => Err(e), Ok((c, rest, m)) => Ok((c, swap(rest), m)) } }
    pub proof fn lemma_swap_inst(b: Seq<u8>, le: bool, known: Seq<XSet>, bound: Map<OpId, XSet>)
        requires b.len() % 4 == 0
        ensures dec_inst(swap(b), !le, known, bound) == swapped(dec_inst(b, le, known, bound))
    {
        if b.len() >= 4 {
            lemma_swap_word(b, !le, 0);
            let head = word_at(b, le, 0);
            let wc = (head >> 16) as u16;
            if wc > 0 && b.len() >= 4 * wc {
                assert forall|i: int| 0 <= i < wc implies word_at(swap(b), !le, i) == word_at(b, le, i) by { lemma_swap_word(b, !le, i); }
                assert(words_at(swap(b), !le, wc as int) =~= words_at(b, le, wc as int));
                lemma_swap_skip(b, wc as int);
            }
        }
    }
    pub proof fn lemma_swap_insts(b: Seq<u8>, le: bool, known: Seq<XSet>, bound: Map<OpId, XSet>)
        requires b.len() % 4 == 0
        ensures dec_insts(swap(b), !le, known, bound) == dec_insts(b, le, known, bound)
        decreases b.len()
    {
        lemma_swap_inst(b, le, known, bound);
        if b.len() > 0 {
            match dec_inst(b, le, known, bound) {
                Ok((c, rest, m)) => { if rest.len() < b.len() {
                    assert(rest.len() % 4 == 0);
                    lemma_swap_insts(rest, le, known, m);
                } },
                Err(_) => {},
            }
        }
    }
    pub proof fn lemma_swap_header(b: Seq<u8>, le: bool, known: Seq<XSet>)
        requires b.len() % 4 == 0
        ensures dec_header(swap(b), !le, known) == dec_header(b, le, known)
    {
        if b.len() >= 8 { lemma_swap_word(b, !le, 1); }
        if b.len() >= 20 {
            lemma_swap_word(b, !le, 2); lemma_swap_word(b, !le, 3); lemma_swap_word(b, !le, 4);
            lemma_swap_skip(b, 5);
            lemma_swap_insts(b.skip(20), le, known, Map::empty());
        }
    }
    /// C02: a module means the same in either byte order
    pub proof fn byte_order(b: Seq<u8>, known: Seq<XSet>)
        requires b.len() % 4 == 0
        ensures dec_module(swap(b), known) == dec_module(b, known)
    {
        if b.len() >= 4 {
            lemma_swap_word(b, true, 0);
            lemma_swap_word(b, false, 0);
            lemma_swap_header(b, true, known);
            lemma_swap_header(b, false, known);
            let (b0, b1, b2, b3) = (b[0], b[1], b[2], b[3]);
            assert(word_at(b, true, 0) == bytes_word(b0, b1, b2, b3));
            assert(word_at(b, false, 0) == bytes_word(b3, b2, b1, b0));
            assert(word_at(b, true, 0) == 0x07230203u32 <==> word_at(b, false, 0) == 0x03022307u32);
            assert(word_at(b, true, 0) == 0x03022307u32 <==> word_at(b, false, 0) == 0x07230203u32);
        }
    }

}
pub mod theorem_layout {
    use vstd::prelude::*;
    use vspec::*;
    use core::result::Result;
    use spv::types::*;
    use spv::op::*;
    use spv::raw::*;
    use spv::logical::*;
    use spv::logical::parser::*;
    use spv::logical::parser::parser::*;

    // ------------------------------------------------------------------ layout
    /// The place of an instruction in the layout
    pub open spec fn rank(t: OpByBlock) -> int { match t {
        OpByBlock::OpCapability(_) => 0, OpByBlock::OpExtension(_) => 1, OpByBlock::OpExtInstImport(_) => 2, OpByBlock::OpMemoryModel(_) => 3,
        OpByBlock::OpEntryPoint(_) => 4, OpByBlock::OpExecutionMode(_) => 5, OpByBlock::GroupDebug(_) => 6, OpByBlock::GroupAnnotation(_) => 7,
        OpByBlock::GroupGlobal(_) => 8, OpByBlock::OpFunction(_) => 9, OpByBlock::OpFunctionParameter(_) => 10, OpByBlock::OpLabel(_) => 11,
        OpByBlock::GroupCode(_) => 12, OpByBlock::GroupMerge(_) => 13, OpByBlock::GroupBranch(_) => 14, OpByBlock::OpFunctionEnd(_) => 15 } }
    pub type Unit<T> = spec_fn(T) -> Toks;
//@SIMPLE@
    /// The instructions that a part of a logical module stands for
    pub open spec fn toks_merge(m: Option<GroupMerge>) -> Toks { match m { Some(o) => seq![OpByBlock::GroupMerge(o)], None => Seq::empty() } }
    pub open spec fn toks_block(b: BasicBlock) -> Toks { seq![OpByBlock::OpLabel(b.label)] + (all(b.code@, g_code()) + (toks_merge(b.merge) + seq![OpByBlock::GroupBranch(b.branch)])) }
    pub open spec fn toks_decl(d: FunctionDeclaration) -> Toks { seq![OpByBlock::OpFunction(d.function)] + (all(d.parameters@, g_function_parameter()) + seq![OpByBlock::OpFunctionEnd(OpFunctionEnd)]) }
    pub open spec fn toks_def(d: FunctionDefinition) -> Toks { seq![OpByBlock::OpFunction(d.function)] + (all(d.parameters@, g_function_parameter()) + (all(d.blocks@, g_basic_block()) + seq![OpByBlock::OpFunctionEnd(OpFunctionEnd)])) }
    pub open spec fn g_basic_block() -> Unit<BasicBlock> { |b: BasicBlock| toks_block(b) }
    pub open spec fn g_function_declaration() -> Unit<FunctionDeclaration> { |d: FunctionDeclaration| toks_decl(d) }
    pub open spec fn g_function_definition() -> Unit<FunctionDefinition> { |d: FunctionDefinition| toks_def(d) }
    /// One item after the other
    pub open spec fn all<T>(s: Seq<T>, g: Unit<T>) -> Toks decreases s.len() { if s.len() == 0 { Seq::empty() } else { g(s[0]) + all(s.skip(1), g) } }
    /// A logical module, written out again in layout order
    pub open spec fn unparse(m: LogicalModule) -> Toks {
        all(m.capabilities@, g_capability()) + (all(m.extensions@, g_extension()) + (all(m.ext_inst_imports@, g_ext_inst_import())
        + (seq![OpByBlock::OpMemoryModel(m.memory_model)]
        + (all(m.entry_points@, g_entry_point()) + (all(m.execution_modes@, g_execution_mode()) + (all(m.debug@, g_debug())
        + (all(m.annotations@, g_annotation()) + (all(m.globals@, g_global())
        + (all(m.function_declarations@, g_function_declaration()) + all(m.function_definitions@, g_function_definition()))))))))))
    }
    /// What an item is recognised from is exactly what it stands for
    pub open spec fn exact<T>(f: Phase<T>, g: Unit<T>) -> bool {
        forall|t: Toks, i: int| 0 <= i <= t.len() && t.len() <= usize::MAX ==> (match #[trigger] f(t, i) {
            PR::Ok(v, j) => i < j <= t.len() && t.subrange(i, j) == g(v), PR::Next(j) => j == i, PR::Err(_) => true })
    }
    /// What an item stands for is recognised as that item
    pub open spec fn recog<T>(f: Phase<T>, g: Unit<T>) -> bool {
        forall|t: Toks, i: int, v: T| #![trigger f(t, i), g(v)] 0 <= i && i + g(v).len() <= t.len() && t.len() <= usize::MAX && t.subrange(i, i + g(v).len()) == g(v)
            ==> f(t, i) == PR::Ok(v, i + g(v).len())
    }
    pub proof fn lemma_join(t: Toks, i: int, j: int, k: int) requires 0 <= i <= j <= k <= t.len() ensures t.subrange(i, j) + t.subrange(j, k) == t.subrange(i, k)
    { assert(t.subrange(i, j) + t.subrange(j, k) =~= t.subrange(i, k)); }
    pub proof fn lemma_split(t: Toks, i: int, k: int, a: Toks, b: Toks) requires 0 <= i <= k <= t.len(), t.subrange(i, k) == a + b
        ensures i + a.len() <= k, t.subrange(i, i + a.len()) == a, t.subrange(i + a.len(), k) == b
    {
        let u = t.subrange(i, k);
        assert(u.len() == a.len() + b.len());
        assert(u.subrange(0, a.len() as int) =~= a);
        assert(u.subrange(a.len() as int, u.len() as int) =~= b);
        assert(t.subrange(i, i + a.len()) =~= u.subrange(0, a.len() as int));
        assert(t.subrange(i + a.len(), k) =~= u.subrange(a.len() as int, u.len() as int));
    }
    pub proof fn lemma_many<T>(f: Phase<T>, g: Unit<T>, t: Toks, i: int)
        requires exact(f, g), 0 <= i <= t.len(), t.len() <= usize::MAX
        ensures match p_many(f, t, i) { Ok((s, j)) => i <= j <= t.len() && t.subrange(i, j) == all(s, g) && s.len() <= j - i, Err(_) => true }
        decreases t.len() - i
    {
        match f(t, i) {
            PR::Ok(v, j) => {
                lemma_many(f, g, t, j);
                match p_many(f, t, j) {
                    Ok((s, k)) => { let u = seq![v] + s; assert(u.skip(1) =~= s); assert(u[0] == v); lemma_join(t, i, j, k); },
                    Err(_) => {},
                }
            },
            PR::Next(j) => { assert(t.subrange(i, j) =~= Seq::<OpByBlock>::empty()); },
            PR::Err(_) => {},
        }
    }
    pub proof fn lemma_vec<T>(f: Phase<T>, g: Unit<T>, t: Toks, i: int)
        requires exact(f, g), 0 <= i <= t.len(), t.len() <= usize::MAX
        ensures match p_vec(f, t, i) { Ok((s, j)) => i <= j <= t.len() && t.subrange(i, j) == all(s@, g), Err(_) => true }
    { broadcast use g_values; lemma_many(f, g, t, i); }
    /// A list ends where no further item is recognised
    pub proof fn lemma_list<T>(f: Phase<T>, g: Unit<T>, t: Toks, i: int, k: int, s: Seq<T>)
        requires recog(f, g), forall|v: T| (#[trigger] g(v)).len() > 0, 0 <= i <= k <= t.len(), t.len() <= usize::MAX, t.subrange(i, k) == all(s, g), f(t, k) == PR::<T>::Next(k)
        ensures p_many(f, t, i) == Ok::<(Seq<T>, int), ValidationError>((s, k)), s.len() <= k - i
        decreases s.len()
    {
        if s.len() == 0 { assert(t.subrange(i, k).len() == 0); assert(i == k); assert(s =~= Seq::empty()); }
        else {
            lemma_split(t, i, k, g(s[0]), all(s.skip(1), g));
            let j = i + g(s[0]).len();
            assert(f(t, i) == PR::Ok(s[0], j));
            lemma_list(f, g, t, j, k, s.skip(1));
            assert(seq![s[0]] + s.skip(1) =~= s);
        }
    }
    pub proof fn lemma_list_vec<T>(f: Phase<T>, g: Unit<T>, t: Toks, i: int, k: int, s: Vec<T>)
        requires recog(f, g), forall|v: T| (#[trigger] g(v)).len() > 0, 0 <= i <= k <= t.len(), t.len() <= usize::MAX, t.subrange(i, k) == all(s@, g), f(t, k) == PR::<T>::Next(k)
        ensures p_vec(f, t, i) == Ok::<(Vec<T>, int), ValidationError>((s, k))
    { broadcast use g_values; lemma_list(f, g, t, i, k, s@); }
    pub proof fn e_basic_block() ensures exact(f_basic_block(), g_basic_block()), recog(f_basic_block(), g_basic_block()), forall|v: BasicBlock| (#[trigger] g_basic_block()(v)).len() > 0
    {
        e_code();
        assert forall|t: Toks, i: int| 0 <= i <= t.len() && t.len() <= usize::MAX implies (match #[trigger] f_basic_block()(t, i) {
            PR::Ok(v, j) => i < j <= t.len() && t.subrange(i, j) == g_basic_block()(v), PR::Next(j) => j == i, PR::Err(_) => true }) by {
            if i < t.len() && t[i] is OpLabel {
                lemma_vec(f_code(), g_code(), t, i + 1);
                match p_vec(f_code(), t, i + 1) {
                    Ok((code, j)) => {
                        let k = p_merge(t, j).1;
                        assert(t.subrange(j, k) =~= toks_merge(p_merge(t, j).0));
                        match p_branch(t, k) {
                            Ok((b, l)) => {
                                assert(t.subrange(k, l) =~= seq![OpByBlock::GroupBranch(b)]);
                                assert(t.subrange(i, i + 1) =~= seq![t[i]]);
                                lemma_join(t, j, k, l); lemma_join(t, i + 1, j, l); lemma_join(t, i, i + 1, l);
                            },
                            Err(_) => {},
                        }
                    },
                    Err(_) => {},
                }
            }
        }
        assert forall|t: Toks, i: int, v: BasicBlock| #![trigger f_basic_block()(t, i), g_basic_block()(v)] 0 <= i && i + g_basic_block()(v).len() <= t.len() && t.len() <= usize::MAX && t.subrange(i, i + g_basic_block()(v).len()) == g_basic_block()(v)
            implies f_basic_block()(t, i) == PR::Ok(v, i + g_basic_block()(v).len()) by {
            let l = i + g_basic_block()(v).len();
            let last = seq![OpByBlock::GroupBranch(v.branch)];
            lemma_split(t, i, l, seq![OpByBlock::OpLabel(v.label)], all(v.code@, g_code()) + (toks_merge(v.merge) + last));
            assert(t[i] == t.subrange(i, i + 1)[0]);
            lemma_split(t, i + 1, l, all(v.code@, g_code()), toks_merge(v.merge) + last);
            let j = i + 1 + all(v.code@, g_code()).len();
            lemma_split(t, j, l, toks_merge(v.merge), last);
            let k = j + toks_merge(v.merge).len();
            assert(t[k] == t.subrange(k, l)[0]);
            if v.merge is Some { assert(t[j] == t.subrange(j, k)[0]); }
            assert(rank(t[j]) >= 13);
            lemma_list_vec(f_code(), g_code(), t, i + 1, j, v.code);
        }
    }
    pub proof fn e_function_declaration() ensures exact(f_function_declaration(), g_function_declaration()), recog(f_function_declaration(), g_function_declaration()), forall|v: FunctionDeclaration| (#[trigger] g_function_declaration()(v)).len() > 0
    {
        e_function_parameter();
        let (f, g) = (f_function_declaration(), g_function_declaration());
        assert forall|t: Toks, i: int| 0 <= i <= t.len() && t.len() <= usize::MAX implies (match #[trigger] f(t, i) {
            PR::Ok(v, j) => i < j <= t.len() && t.subrange(i, j) == g(v), PR::Next(j) => j == i, PR::Err(_) => true }) by {
            if t.len() - i >= 2 && t[i] is OpFunction {
                lemma_vec(f_function_parameter(), g_function_parameter(), t, i + 1);
                match p_vec(f_function_parameter(), t, i + 1) {
                    Ok((ps, j)) => { if j < t.len() && t[j] is OpFunctionEnd {
                        assert(t.subrange(j, j + 1) =~= seq![OpByBlock::OpFunctionEnd(OpFunctionEnd)]);
                        assert(t.subrange(i, i + 1) =~= seq![t[i]]);
                        lemma_join(t, i + 1, j, j + 1); lemma_join(t, i, i + 1, j + 1);
                    } },
                    Err(_) => {},
                }
            }
        }
        assert forall|t: Toks, i: int, v: FunctionDeclaration| #![trigger f(t, i), g(v)] 0 <= i && i + g(v).len() <= t.len() && t.len() <= usize::MAX && t.subrange(i, i + g(v).len()) == g(v)
            implies f(t, i) == PR::Ok(v, i + g(v).len()) by {
            let l = i + g(v).len();
            let last = seq![OpByBlock::OpFunctionEnd(OpFunctionEnd)];
            lemma_split(t, i, l, seq![OpByBlock::OpFunction(v.function)], all(v.parameters@, g_function_parameter()) + last);
            assert(t[i] == t.subrange(i, i + 1)[0]);
            lemma_split(t, i + 1, l, all(v.parameters@, g_function_parameter()), last);
            assert(t[l - 1] == t.subrange(l - 1, l)[0]);
            lemma_list_vec(f_function_parameter(), g_function_parameter(), t, i + 1, l - 1, v.parameters);
        }
    }
    /// The header, parameters and blocks of a definition, at a place where it stands
    pub proof fn lemma_def(t: Toks, i: int, v: FunctionDefinition)
        requires 0 <= i, i + toks_def(v).len() <= t.len(), t.len() <= usize::MAX, t.subrange(i, i + toks_def(v).len()) == toks_def(v)
        ensures p_function_definition(t, i) == PR::Ok(v, i + toks_def(v).len()),
            v.blocks@.len() > 0 ==> p_function_declaration(t, i) == PR::<FunctionDeclaration>::Next(i)
    {
        e_function_parameter(); e_basic_block();
        let l = i + toks_def(v).len();
        let last = seq![OpByBlock::OpFunctionEnd(OpFunctionEnd)];
        let bs = all(v.blocks@, g_basic_block());
        let ps = all(v.parameters@, g_function_parameter());
        lemma_split(t, i, l, seq![OpByBlock::OpFunction(v.function)], ps + (bs + last));
        assert(t[i] == t.subrange(i, i + 1)[0]);
        lemma_split(t, i + 1, l, ps, bs + last);
        let j = i + 1 + ps.len();
        lemma_split(t, j, l, bs, last);
        assert(t[l - 1] == t.subrange(l - 1, l)[0]);
        if v.blocks@.len() > 0 {
            assert(bs == toks_block(v.blocks@[0]) + all(v.blocks@.skip(1), g_basic_block()));
            assert(bs[0] == OpByBlock::OpLabel(v.blocks@[0].label));
            assert(t[j] == t.subrange(j, l - 1)[0]);
        } else { assert(bs.len() == 0); assert(j == l - 1); }
        lemma_list_vec(f_function_parameter(), g_function_parameter(), t, i + 1, j, v.parameters);
        lemma_list_vec(f_basic_block(), g_basic_block(), t, j, l - 1, v.blocks);
    }
    pub proof fn e_function_definition() ensures exact(f_function_definition(), g_function_definition()), recog(f_function_definition(), g_function_definition()), forall|v: FunctionDefinition| (#[trigger] g_function_definition()(v)).len() > 0
    {
        e_function_parameter(); e_basic_block();
        let (f, g) = (f_function_definition(), g_function_definition());
        assert forall|t: Toks, i: int| 0 <= i <= t.len() && t.len() <= usize::MAX implies (match #[trigger] f(t, i) {
            PR::Ok(v, j) => i < j <= t.len() && t.subrange(i, j) == g(v), PR::Next(j) => j == i, PR::Err(_) => true }) by {
            if t.len() - i >= 2 && t[i] is OpFunction {
                lemma_vec(f_function_parameter(), g_function_parameter(), t, i + 1);
                match p_vec(f_function_parameter(), t, i + 1) {
                    Ok((ps, j)) => {
                        lemma_vec(f_basic_block(), g_basic_block(), t, j);
                        match p_vec(f_basic_block(), t, j) {
                            Ok((bs, k)) => { if k < t.len() && t[k] is OpFunctionEnd {
                                assert(t.subrange(k, k + 1) =~= seq![OpByBlock::OpFunctionEnd(OpFunctionEnd)]);
                                assert(t.subrange(i, i + 1) =~= seq![t[i]]);
                                lemma_join(t, j, k, k + 1); lemma_join(t, i + 1, j, k + 1); lemma_join(t, i, i + 1, k + 1);
                            } },
                            Err(_) => {},
                        }
                    },
                    Err(_) => {},
                }
            }
        }
        assert forall|t: Toks, i: int, v: FunctionDefinition| #![trigger f(t, i), g(v)] 0 <= i && i + g(v).len() <= t.len() && t.len() <= usize::MAX && t.subrange(i, i + g(v).len()) == g(v)
            implies f(t, i) == PR::Ok(v, i + g(v).len()) by { lemma_def(t, i, v); }
    }
    /// C10: an accepted module, written out in layout order, is the sequence of its instructions
    pub proof fn partition(t: Toks) requires t.len() <= usize::MAX
        ensures p_module(t) is Ok ==> unparse(p_module(t)->Ok_0) == t
    {
        hide(p_vec);
//@EALL@
        if p_module(t) is Ok {
            let m = p_module(t)->Ok_0;
//@SOUND@
        }
    }
    /// The first definition has a body (a function without one is a declaration)
    pub open spec fn in_layout(m: LogicalModule) -> bool { m.function_definitions@.len() > 0 ==> m.function_definitions@[0].blocks@.len() > 0 }
    pub open spec fn from_rank(s: Toks, k: int) -> bool { s.len() == 0 || rank(s[0]) >= k }
    pub proof fn lemma_rank<T>(s: Seq<T>, g: Unit<T>, rest: Toks, k: int)
        requires forall|v: T| (#[trigger] g(v)).len() > 0 && rank(g(v)[0]) == k, from_rank(rest, k)
        ensures from_rank(all(s, g) + rest, k)
    { if s.len() == 0 { assert(all(s, g) + rest =~= rest); } else { assert(g(s[0]).len() > 0); assert((all(s, g) + rest)[0] == g(s[0])[0]); } }
    /// Not recognised behind its own part of the layout
    pub open spec fn stops<T>(f: Phase<T>, k: int) -> bool { forall|t: Toks, i: int| 0 <= i <= t.len() && t.len() <= usize::MAX && (i == t.len() || rank(t[i]) > k) ==> #[trigger] f(t, i) == PR::<T>::Next(i) }
    /// One part of the layout: its items are read, and then the rest follows
    pub proof fn lemma_section<T>(f: Phase<T>, g: Unit<T>, k: int, t: Toks, i: int, s: Vec<T>, rest: Toks)
        requires recog(f, g), forall|v: T| (#[trigger] g(v)).len() > 0 && rank(g(v)[0]) == k, stops(f, k), from_rank(rest, k + 1), 0 <= i <= t.len(), t.len() <= usize::MAX,
            t.subrange(i, t.len() as int) == all(s@, g) + rest
        ensures ({ let j = i + all(s@, g).len(); j <= t.len() && t.subrange(j, t.len() as int) == rest && p_vec(f, t, i) == Ok::<(Vec<T>, int), ValidationError>((s, j)) }), from_rank(all(s@, g) + rest, k)
    {
        let n = t.len() as int;
        lemma_split(t, i, n, all(s@, g), rest);
        let j = i + all(s@, g).len();
        if j < n { assert(t[j] == t.subrange(j, n)[0]); }
        assert(f(t, j) == PR::<T>::Next(j));
        lemma_list_vec(f, g, t, i, j, s);
        lemma_rank(s@, g, rest, k);
    }
    pub open spec fn s10(m: LogicalModule) -> Toks { all(m.function_definitions@, g_function_definition()) }
//@SUFFIX@
    pub proof fn lemma_s10(m: LogicalModule) ensures from_rank(s10(m), 9)
    { if m.function_definitions@.len() > 0 { let d = m.function_definitions@[0]; assert(s10(m) == toks_def(d) + all(m.function_definitions@.skip(1), g_function_definition())); assert(s10(m)[0] == OpByBlock::OpFunction(d.function)); } }
    pub proof fn lemma_functions(t: Toks, i: int, m: LogicalModule)
        requires in_layout(m), 0 <= i <= t.len(), t.len() <= usize::MAX, t.subrange(i, t.len() as int) == s9(m)
        ensures ({ let j = i + all(m.function_declarations@, g_function_declaration()).len(); j <= t.len()
            && p_vec(f_function_declaration(), t, i) == Ok::<(Vec<FunctionDeclaration>, int), ValidationError>((m.function_declarations, j))
            && p_vec(f_function_definition(), t, j) == Ok::<(Vec<FunctionDefinition>, int), ValidationError>((m.function_definitions, t.len() as int)) })
    {
        e_function_declaration(); e_function_definition();
        let n = t.len() as int;
        lemma_split(t, i, n, all(m.function_declarations@, g_function_declaration()), s10(m));
        let j = i + all(m.function_declarations@, g_function_declaration()).len();
        if m.function_definitions@.len() > 0 {
            let d = m.function_definitions@[0];
            assert(s10(m) == toks_def(d) + all(m.function_definitions@.skip(1), g_function_definition()));
            lemma_split(t, j, n, toks_def(d), all(m.function_definitions@.skip(1), g_function_definition()));
            lemma_def(t, j, d);
        } else { assert(s10(m).len() == 0); assert(j == n); }
        assert(f_function_declaration()(t, j) == PR::<FunctionDeclaration>::Next(j));
        lemma_list_vec(f_function_declaration(), g_function_declaration(), t, i, j, m.function_declarations);
        assert(f_function_definition()(t, n) == PR::<FunctionDefinition>::Next(n));
        lemma_list_vec(f_function_definition(), g_function_definition(), t, j, n, m.function_definitions);
    }
    pub proof fn lemma_s9(m: LogicalModule) ensures from_rank(s9(m), 9)
    {
        lemma_s10(m);
        assert forall|d: FunctionDeclaration| (#[trigger] g_function_declaration()(d)).len() > 0 && rank(g_function_declaration()(d)[0]) == 9 by { assert(toks_decl(d)[0] == OpByBlock::OpFunction(d.function)); }
        lemma_rank(m.function_declarations@, g_function_declaration(), s10(m), 9);
    }
//@STEPS@
    /// C11: every module in layout order is accepted, as what it is
    pub proof fn accepts(m: LogicalModule) requires unparse(m).len() <= usize::MAX, in_layout(m)
        ensures p_module(unparse(m)) == Ok::<LogicalModule, ValidationError>(m)
    {
        hide(p_vec); hide(all);
        let t = unparse(m);
        assert(t.subrange(0, t.len() as int) =~= t);
//@COMPLETE@
    }
    /// C11: and no other module is
    pub proof fn accepts_only(t: Toks)
        requires t.len() <= usize::MAX, p_module(t) is Ok
        ensures in_layout(p_module(t)->Ok_0), unparse(p_module(t)->Ok_0) == t
    {
        partition(t);
        let m = p_module(t)->Ok_0;
        if m.function_definitions@.len() > 0 && m.function_definitions@[0].blocks@.len() == 0 {
            broadcast use g_values;
//@EALL@
//@SOUND@
            // a definition without blocks reads as a declaration, so the declarations would not have ended here
            let d = m.function_definitions@[0];
            let e = FunctionDeclaration { function: d.function, parameters: d.parameters };
            assert(all(m.function_definitions@, g_function_definition()) == toks_def(d) + all(m.function_definitions@.skip(1), g_function_definition()));
            lemma_split(t, i9, i10, toks_def(d), all(m.function_definitions@.skip(1), g_function_definition()));
            assert(toks_def(d) =~= toks_decl(e));
            assert(g_function_declaration()(e) == toks_decl(e));
            assert(f_function_declaration()(t, i9) == PR::Ok(e, i9 + toks_decl(e).len()));
            lemma_end(f_function_declaration(), g_function_declaration(), t, i8);
        }
    }
    /// A list stops only where the next item is not recognised
    pub proof fn lemma_end<T>(f: Phase<T>, g: Unit<T>, t: Toks, i: int) requires exact(f, g), 0 <= i <= t.len(), t.len() <= usize::MAX
        ensures match p_many(f, t, i) { Ok((s, j)) => f(t, j) is Next, Err(_) => true }
        decreases t.len() - i
    { match f(t, i) { PR::Ok(v, j) => { lemma_end(f, g, t, j); }, _ => {} } }

    // ------------------------------------------------------------ instructions
    /// The instruction in a token
    pub open spec fn ungroup(t: OpByBlock) -> Core { match t {
//@UNGROUP@
    } }
    pub proof fn lemma_ungroup(c: Core) ensures ungroup(group_of(c)) == c {}
    pub open spec fn instructions_of(m: LogicalModule) -> Seq<Core> { unparse(m).map_values(|t: OpByBlock| ungroup(t)) }
    /// C10, for the function as called: nothing lost, added, moved or altered
    pub proof fn nothing_lost(s: Seq<Core>) requires s.len() <= usize::MAX
        ensures p_module(groups(s)) is Ok ==> instructions_of(p_module(groups(s))->Ok_0) == s
    {
        partition(groups(s));
        assert forall|i: int| 0 <= i < s.len() implies ungroup(#[trigger] groups(s)[i]) == s[i] by { lemma_ungroup(s[i]); }
        assert(groups(s).map_values(|t: OpByBlock| ungroup(t)) =~= s);
    }
    pub proof fn validated(s: Seq<Core>) requires s.len() <= usize::MAX
        ensures p_module(groups(s)) is Ok ==> instructions_of(p_module(groups(s))->Ok_0) == s && in_layout(p_module(groups(s))->Ok_0)
    { nothing_lost(s); if p_module(groups(s)) is Ok { accepts_only(groups(s)); } }
}

pub mod theorem_strings {
    use vstd::prelude::*;
    use vstd::utf8::*;
    use vspec::*;
    use core::result::Result;
    use spv::raw::*;

    pub proof fn lemma_no_nul(s: Seq<char>)
        requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\0'
        ensures forall|i: int| 0 <= i < encode_utf8(s).len() ==> encode_utf8(s)[i] != 0
        decreases s.len()
    {
        reveal_with_fuel(encode_utf8, 2);
        if s.len() > 0 {
            lemma_no_nul(s.drop_first());
            let v = s[0] as u32;
            let e = encode_scalar(v);
            assert(v != 0) by { if v == 0 { assert(s[0] == '\0'); } }
            assert(forall|x: u8| #![auto] (0xC0u8 | x) != 0 && (0xE0u8 | x) != 0 && (0xF0u8 | x) != 0 && (0x80u8 | x) != 0) by (bit_vector);
            assert(v <= 0x7F && v != 0 ==> (v & 0x7F) as u8 != 0) by (bit_vector);
            assert(has_width_1_encoding(v) ==> leading_byte_width_1(v) != 0);
            assert(leading_byte_width_2(v) != 0 && leading_byte_width_3(v) != 0 && leading_byte_width_4(v) != 0);
            assert(forall|i: int| 0 <= i < e.len() ==> e[i] != 0);
            assert(encode_utf8(s) == e + encode_utf8(s.drop_first()));
        }
    }
    /// The bytes of a text, then nuls
    pub open spec fn at(b: Seq<u8>, i: int) -> u8 { if 0 <= i < b.len() { b[i] } else { 0 } }
    /// A text as the words of a literal
    pub open spec fn pack(b: Seq<u8>) -> Seq<u32> { Seq::new((b.len() / 4 + 1) as nat, |i: int| bytes_word(at(b, 4 * i), at(b, 4 * i + 1), at(b, 4 * i + 2), at(b, 4 * i + 3))) }
    pub proof fn lemma_bytes(a: u8, b: u8, c: u8, d: u8)
        ensures ({ let w = bytes_word(a, b, c, d); byte_of(w, 0) == a && byte_of(w, 1) == b && byte_of(w, 2) == c && byte_of(w, 3) == d })
    {
        let w = bytes_word(a, b, c, d);
        let v = (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
        assert(v == (a as u32) + 256 * (b as u32) + 65536 * (c as u32) + 16777216 * (d as u32)) by (bit_vector) requires v == (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
        assert(v == w);
        assert((v & 0xFF) as u8 == a && ((v >> 8) & 0xFF) as u8 == b && ((v >> 16) & 0xFF) as u8 == c && (v >> 24) as u8 == d) by (bit_vector) requires v == (a as u32) | ((b as u32) << 8) | ((c as u32) << 16) | ((d as u32) << 24);
    }
    pub proof fn lemma_byte(b: Seq<u8>, rest: Seq<u32>, i: int) requires 0 <= i <= b.len() ensures str_byte(pack(b) + rest, i) == at(b, i)
    {
        let k = i / 4;
        assert((pack(b) + rest)[k] == pack(b)[k]);
        lemma_bytes(at(b, 4 * k), at(b, 4 * k + 1), at(b, 4 * k + 2), at(b, 4 * k + 3));
        assert(i == 4 * k + i % 4);
    }
    pub proof fn lemma_unpack(b: Seq<u8>, rest: Seq<u32>)
        requires forall|i: int| 0 <= i < b.len() ==> b[i] != 0
        ensures nul_at(pack(b) + rest, b.len() as int), str_bytes(pack(b) + rest, b.len() as int) == b, (pack(b) + rest).skip(b.len() as int / 4 + 1) == rest
    {
        hide(bytes_word); hide(byte_of);
        let w = pack(b) + rest;
        let n = b.len() as int;
        assert forall|i: int| 0 <= i <= n implies #[trigger] str_byte(w, i) == at(b, i) by { lemma_byte(b, rest, i); }
        assert(str_bytes(w, n) =~= b);
        assert(w.skip(n / 4 + 1) =~= rest);
    }
    /// C06: every text without a nul comes back from its literal, and the words behind it are untouched
    pub proof fn round_trip(s: Seq<char>, rest: Seq<u32>)
        requires forall|i: int| 0 <= i < s.len() ==> s[i] != '\0'
        ensures dec_string(pack(encode_utf8(s)) + rest) == Ok::<(String, Seq<u32>), ReadError>((mk_string(s), rest))
    {
        hide(pack); hide(str_bytes); hide(nul_at); hide(dec_string); hide(encode_utf8);
        reveal(utf8_ok); reveal(utf8_text);
        let b = encode_utf8(s);
        lemma_no_nul(s);
        lemma_unpack(b, rest);
        lemma_found_nul(pack(b) + rest, b.len() as int, b);
        encode_utf8_valid_utf8(s);
        encode_utf8_decode_utf8(s);
    }
    /// C06: and what is accepted is the encoding of the text, a nul, and the filling of that word
    pub proof fn exact(w: Seq<u32>)
        ensures match dec_string(w) { Err(_) => true, Ok((_, rest)) => exists|s: Seq<char>| dec_string(w) == Ok::<(String, Seq<u32>), ReadError>((mk_string(s), rest))
            && nul_at(w, encode_utf8(s).len() as int) && str_bytes(w, encode_utf8(s).len() as int) == encode_utf8(s) && rest == w.skip(encode_utf8(s).len() as int / 4 + 1) }
    {
        reveal(utf8_ok); reveal(utf8_text);
        if dec_string(w) is Ok {
            let n = nul_pos(w);
            let b = str_bytes(w, n);
            decode_utf8_encode_utf8(b);
            let s = utf8_text(b);
            assert(encode_utf8(s) == b && b.len() == n);
            let rest = w.skip(n / 4 + 1);
            assert(dec_string(w) == Ok::<(String, Seq<u32>), ReadError>((mk_string(s), rest)));
        }
    }
}
