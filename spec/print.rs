// ------------------------------------------------------- printed control flow
/// Four spaces per enclosing construct
pub open spec fn ind(n: int) -> Seq<char> decreases n { if n <= 0 { Seq::empty() } else { ind(n - 1) + "    "@ } }
pub open spec fn sel_hint(h: SelectionControl) -> Seq<char> { if h == no_hint() { Seq::empty() } else { " ["@ + (tx(&h) + "]"@) } }
pub open spec fn no_loop_hint() -> LoopControl { LoopControl { unroll: false, dont_unroll: false, dependency_infinite: false, dependency_length: None } }
pub open spec fn loop_hint(h: LoopControl) -> Seq<char> { if h == no_loop_hint() { Seq::empty() } else { " ["@ + (tx(&h) + "]"@) } }
pub open spec fn weights_txt(w: Option<BranchWeights>) -> Seq<char> { match w { Some(b) => " ["@ + (tx(&b) + "]"@), None => Seq::empty() } }
pub open spec fn is_nothing(c: ControlFlowChain) -> bool { c == empty_chain() }
pub broadcast proof fn lemma_vec_empty(v: Vec<ControlFlowChain>) ensures #[trigger] v@.len() == 0 ==> v == mk_vec(Seq::<ControlFlowChain>::empty())
{ broadcast use g_values; if v@.len() == 0 { assert(v@ =~= Seq::<ControlFlowChain>::empty()); } }
pub open spec fn id_txt(b: BlockId) -> Seq<char> { "%"@ + num(b.0 as int) }

/// The text of a tree whose nodes are at nesting level `n`
pub open spec fn tree_txt(c: ControlFlowChain, n: int) -> Seq<char> decreases c {
    match c {
        ControlFlowChain::Atom(b) => ind(n) + (id_txt(b) + "\n"@),
        ControlFlowChain::Block(v) => tree_seq(v, v@.len() as int, n),
        ControlFlowChain::Selection(b, t, f, hint, weights) =>
            ind(n) + ("selection "@ + (id_txt(b) + (sel_hint(hint) + (weights_txt(weights) + (" {\n"@
            + (tree_txt(*t, n + 1)
            + ((if is_nothing(*f) { Seq::empty() } else { ind(n) + ("} else {\n"@ + tree_txt(*f, n + 1)) })
            + (ind(n) + "}\n"@)))))))),
        ControlFlowChain::Loop(b, inner, hint, weights) =>
            ind(n) + ("loop "@ + (id_txt(b) + (loop_hint(hint) + (weights_txt(weights) + (" {\n"@
            + (tree_txt(*inner, n + 1) + (ind(n) + "}\n"@))))))),
        ControlFlowChain::Break => ind(n) + "break;\n"@,
        ControlFlowChain::Continue => ind(n) + "continue;\n"@,
    }
}
/// The first `i` nodes
pub open spec fn tree_seq(v: Vec<ControlFlowChain>, i: int, n: int) -> Seq<char> decreases v, i {
    if 0 < i <= v@.len() { tree_seq(v, i - 1, n) + tree_txt(v@[i - 1], n) } else { Seq::empty() }
}
/// How deep constructs nest
pub open spec fn max2(a: nat, b: nat) -> nat { if a >= b { a } else { b } }
pub open spec fn depth(c: ControlFlowChain) -> nat decreases c {
    match c {
        ControlFlowChain::Block(v) => depth_at(v, 0),
        ControlFlowChain::Selection(_, t, f, _, _) => 1 + max2(depth(*t), depth(*f)),
        ControlFlowChain::Loop(_, inner, _, _) => 1 + depth(*inner),
        _ => 0,
    }
}
pub open spec fn depth_at(v: Vec<ControlFlowChain>, i: int) -> nat decreases v, v@.len() - i {
    if 0 <= i < v@.len() { max2(depth(v@[i]), depth_at(v, i + 1)) } else { 0 }
}
pub proof fn lemma_depth_at(v: Vec<ControlFlowChain>, i: int, j: int) requires 0 <= i <= j < v@.len() ensures depth(v@[j]) <= depth_at(v, i) decreases j - i
{ if i < j { lemma_depth_at(v, i + 1, j); } }
/// The code of a block, between marks
pub open spec fn code_txt(s: Seq<GroupCode>, n: int) -> Seq<char> { cat(s.map_values(|c: GroupCode| ind(n) + (">>> "@ + (tx(&c) + "\n"@)))) }
pub open spec fn block_txt(b: BasicBlock, id: BlockId, n: int) -> Seq<char> {
    ind(n) + ("> Begin "@ + (num(id.0 as int) + ("\n"@ + (code_txt(b.code@, n) + (ind(n) + (">>> "@ + (tx(&b.branch) + ("\n"@
    + (ind(n) + ("> End "@ + (num(id.0 as int) + "\n"@)))))))))))
}
/// The text of a tree together with the code of its blocks
pub open spec fn fn_txt(m: Blocks, c: ControlFlowChain, n: int) -> Seq<char> decreases c {
    match c {
        ControlFlowChain::Atom(b) => block_txt(*m[b], b, n),
        ControlFlowChain::Block(v) => fn_seq(m, v, v@.len() as int, n),
        ControlFlowChain::Selection(b, t, f, hint, weights) =>
            block_txt(*m[b], b, n) + (sel_hint(hint) + (weights_txt(weights) + (ind(n) + ("{\n"@
            + (fn_txt(m, *t, n + 1)
            + ((if is_nothing(*f) { Seq::empty() } else { ind(n) + ("} else {\n"@ + fn_txt(m, *f, n + 1)) })
            + (ind(n) + "}\n"@))))))),
        ControlFlowChain::Loop(b, inner, hint, weights) =>
            block_txt(*m[b], b, n) + (loop_hint(hint) + (weights_txt(weights) + (ind(n) + ("{\n"@
            + (fn_txt(m, *inner, n + 1) + (ind(n) + "}\n"@)))))),
        ControlFlowChain::Break => ind(n) + "break;\n"@,
        ControlFlowChain::Continue => ind(n) + "continue;\n"@,
    }
}
pub open spec fn fn_seq(m: Blocks, v: Vec<ControlFlowChain>, i: int, n: int) -> Seq<char> decreases v, i {
    if 0 < i <= v@.len() { fn_seq(m, v, i - 1, n) + fn_txt(m, v@[i - 1], n) } else { Seq::empty() }
}
/// Every block of the tree is there
pub open spec fn has_ids(m: Blocks, c: ControlFlowChain) -> bool decreases c {
    match c {
        ControlFlowChain::Atom(b) => m.contains_key(b),
        ControlFlowChain::Block(v) => has_ids_at(m, v, 0),
        ControlFlowChain::Selection(b, t, f, _, _) => m.contains_key(b) && has_ids(m, *t) && has_ids(m, *f),
        ControlFlowChain::Loop(b, inner, _, _) => m.contains_key(b) && has_ids(m, *inner),
        _ => true,
    }
}
pub open spec fn has_ids_at(m: Blocks, v: Vec<ControlFlowChain>, i: int) -> bool decreases v, v@.len() - i {
    if 0 <= i < v@.len() { has_ids(m, v@[i]) && has_ids_at(m, v, i + 1) } else { true }
}
pub proof fn lemma_has_ids_at(m: Blocks, v: Vec<ControlFlowChain>, i: int, j: int) requires 0 <= i <= j < v@.len(), has_ids_at(m, v, i) ensures has_ids(m, v@[j]) decreases j - i
{ if i < j { lemma_has_ids_at(m, v, i + 1, j); } }
/// What printing a function with its tree needs
pub open spec fn printable(bs: Seq<BasicBlock>, c: ControlFlowChain) -> bool {
    block_map_of(bs) is Ok && has_ids(block_map_of(bs)->Ok_0, c) && depth(c) <= u32::MAX
}
pub proof fn lemma_map_prefix(bs: Seq<BasicBlock>, i: int) requires 0 <= i <= bs.len(), block_map_of(bs) is Ok ensures block_map_of(bs.take(i)) is Ok decreases bs.len() - i
{ if i < bs.len() { lemma_map_prefix(bs, i + 1); lemma_map_step(bs, i); } else { assert(bs.take(i) =~= bs); } }
pub proof fn lemma_map_grows(bs: Seq<BasicBlock>, i: int, id: BlockId)
    requires 0 <= i <= bs.len(), block_map_of(bs) is Ok, block_map_of(bs.take(i)) is Ok, block_map_of(bs.take(i))->Ok_0.contains_key(id)
    ensures block_map_of(bs)->Ok_0.contains_key(id), block_map_of(bs)->Ok_0[id] == block_map_of(bs.take(i))->Ok_0[id]
    decreases bs.len() - i
{
    if i < bs.len() { lemma_map_prefix(bs, i + 1); lemma_map_step(bs, i); lemma_map_grows(bs, i + 1, id); } else { assert(bs.take(i) =~= bs); }
}

// A tree that was found for a function can be printed with the blocks of that function
pub proof fn lemma_faithful_ids(c: ControlFlowChain, k: K, m: Blocks) requires faithful(c, k, m) ensures has_ids(m, c) decreases c {
    match c {
        ControlFlowChain::Block(v) => { lemma_faithful_ids_at(v, 0, k, m); },
        ControlFlowChain::Selection(_, t, f, _, _) => { lemma_faithful_ids(*t, k, m); lemma_faithful_ids(*f, k, m); },
        ControlFlowChain::Loop(b, inner, _, _) => {
            match m[b].merge { Some(GroupMerge::OpLoopMerge(l)) => { lemma_faithful_ids(*inner, K { next: Continue::Next(b), lp: Some((b, BlockId(l.merge_block.0))) }, m); }, _ => {} }
        },
        _ => {},
    }
}
pub proof fn lemma_faithful_ids_at(v: Vec<ControlFlowChain>, i: int, k: K, m: Blocks) requires faithful_at(v, i, k, m), 0 <= i ensures has_ids_at(m, v, i) decreases v, v@.len() - i {
    if i < v@.len() { lemma_faithful_ids(v@[i], K { next: entry_at(v, i + 1, k), lp: k.lp }, m); lemma_faithful_ids_at(v, i + 1, k, m); }
}
pub proof fn lemma_depth_shift(v: Vec<ControlFlowChain>, u: Vec<ControlFlowChain>, x: ControlFlowChain, i: int)
    requires u@ == seq![x] + v@, 0 <= i <= v@.len() ensures depth_at(u, i + 1) == depth_at(v, i) decreases v@.len() - i
{ if i < v@.len() { lemma_depth_shift(v, u, x, i + 1); assert(u@[i + 1] == v@[i]); } }
pub proof fn lemma_depth_pair(x: ControlFlowChain, c: ControlFlowChain) requires !(x is Block), blen(c) < usize::MAX
    ensures depth(mk_block(pair(x, c))) <= max2(depth(x), depth(c))
{
    broadcast use g_values;
    let s = pair(x, c);
    assert(s =~= seq![x, c]);
    assert(s.drop_last() =~= seq![x]);
    assert(seq![x].drop_last() =~= Seq::empty());
    reveal_with_fuel(flat, 3);
    let f = flat(s);
    let u = mk_vec(f);
    match c {
        ControlFlowChain::Block(v) => { assert(f =~= seq![x] + v@); assert(u@ == f); lemma_depth_shift(v, u, x, 0); },
        _ => { assert(f =~= seq![x, c]); assert(u@ == f); assert(u@[1] == c); reveal_with_fuel(depth_at, 3); },
    }
    assert(u@[0] == x);
    assert(depth_at(u, 0) == max2(depth(x), depth_at(u, 1)));
    assert(mk_block(s) == ControlFlowChain::Block(u));
}
pub proof fn lemma_cf_depth(id: BlockId, fl: Seq<Converge>, m: Blocks, d: int)
    requires 0 <= d <= m.len(), m.len() <= usize::MAX
    ensures match cf(id, fl, m, d) { Ok((c, n)) => depth(c) <= m.len() - d, Err(_) => true }
    decreases m.len() - d
{
    broadcast use g_values;
    reveal_with_fuel(depth, 3);
    if merges(fl, id) {
        assert(empty_chain()->Block_0@ == Seq::<ControlFlowChain>::empty());
    } else if m.contains_key(id) && d < m.len() {
        match m[id].branch {
            GroupBranch::OpReturn(_) => {},
            GroupBranch::OpBranch(op) => {
                let t = BlockId(op.target_label.0);
                match m[id].merge {
                    None => {
                        lemma_cf_depth(t, fl, m, d + 1);
                        lemma_cf(t, fl, m, d + 1);
                        match cf(t, fl, m, d + 1) { Ok((c, n)) => lemma_depth_pair(ControlFlowChain::Atom(id), c), Err(_) => {} }
                    },
                    Some(GroupMerge::OpLoopMerge(l)) => {
                        let a = BlockId(l.merge_block.0);
                        let fl2 = fl.push(Converge::Loop(id, a, l.loop_control));
                        lemma_cf_depth(t, fl2, m, d + 1);
                        lemma_cf_depth(a, fl, m, d + 1);
                        lemma_cf(a, fl, m, d + 1);
                        match cf(t, fl2, m, d + 1) { Ok((inner, n)) => { match cf(a, fl, m, d + 1) { Ok((c, n2)) => {
                            lemma_depth_pair(ControlFlowChain::Loop(id, Box::new(inner), l.loop_control, None), c);
                        }, Err(_) => {} } }, Err(_) => {} }
                    },
                    _ => {},
                }
            },
            GroupBranch::OpBranchConditional(op) => {
                let t = BlockId(op.true_label.0);
                let f = BlockId(op.false_label.0);
                match m[id].merge {
                    Some(GroupMerge::OpSelectionMerge(s)) => {
                        let join = BlockId(s.merge_block.0);
                        let fl2 = fl.push(Converge::If(join, s.selection_control));
                        lemma_cf_depth(t, fl2, m, d + 1);
                        lemma_cf_depth(f, fl2, m, d + 1);
                        lemma_cf_depth(join, fl, m, d + 1);
                        lemma_cf(join, fl, m, d + 1);
                        match cf(t, fl2, m, d + 1) { Ok((tc, tn)) => { match cf(f, fl2, m, d + 1) { Ok((fc, fnx)) => { match cf(join, fl, m, d + 1) { Ok((c, n)) => {
                            lemma_depth_pair(ControlFlowChain::Selection(id, Box::new(tc), Box::new(fc), s.selection_control, op.weights), c);
                        }, Err(_) => {} } }, Err(_) => {} } }, Err(_) => {} }
                    },
                    None => { lemma_cf_depth(t, fl, m, d + 1); },
                    _ => {},
                }
            },
        }
    }
}
/// Theorem: whatever find_control_flow returns for a function can be printed, alone and with the blocks of that function
pub proof fn lemma_printable(bs: Seq<BasicBlock>) requires bs.len() <= u32::MAX
    ensures cf_fn(bs) is Ok ==> printable(bs, cf_fn(bs)->Ok_0)
{
    lemma_map_len(bs);
    lemma_cf_fn(bs);
    if cf_fn(bs) is Ok {
        let m = block_map_of(bs)->Ok_0;
        lemma_cf_depth(block_id(bs[0]), Seq::empty(), m, 0);
        lemma_faithful_ids(cf_fn(bs)->Ok_0, K { next: Continue::Return, lp: None }, m);
    }
}
