// -------------------------------------------------------------- control flow
pub broadcast axiom fn ax_blockid_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<BlockId>();

/// Trusted: cloning an Rc gives the same value
pub broadcast axiom fn ax_rc_cloned<T>(a: Rc<T>, b: Rc<T>) requires #[trigger] cloned(a, b) ensures a == b;

pub open spec fn flat(cs: Seq<ControlFlowChain>) -> Seq<ControlFlowChain> decreases cs.len() {
    if cs.len() == 0 { Seq::empty() } else { flat(cs.drop_last()) + (match cs.last() { ControlFlowChain::Block(v) => v@, c => seq![c] }) }
}
/// A sequence of chains as one chain
pub open spec fn mk_block(cs: Seq<ControlFlowChain>) -> ControlFlowChain {
    if cs.len() == 1 { cs[0] } else { ControlFlowChain::Block(mk_vec(flat(cs))) }
}
pub proof fn lemma_flat_step(cs: Seq<ControlFlowChain>, i: int) requires 0 <= i < cs.len()
    ensures flat(cs.take(i + 1)) == flat(cs.take(i)) + (match cs[i] { ControlFlowChain::Block(v) => v@, c => seq![c] }),
        !(cs[i] is Block) ==> flat(cs.take(i + 1)) == flat(cs.take(i)).push(cs[i])
{
    assert(cs.take(i + 1).drop_last() =~= cs.take(i));
    assert(flat(cs.take(i)) + seq![cs[i]] =~= flat(cs.take(i)).push(cs[i]));
}
pub broadcast proof fn lemma_push_drop<T>(s: Seq<T>, x: T) ensures #[trigger] s.push(x).drop_last() == s { assert(s.push(x).drop_last() =~= s); }
pub broadcast proof fn lemma_push_empty<T>(x: T) ensures Seq::<T>::empty().push(x) == #[trigger] seq![x] { assert(Seq::<T>::empty().push(x) =~= seq![x]); }
pub open spec fn node_view(n: FlowNode) -> Seq<Converge> decreases n {
    match n.ptr { Some(p) => node_view(*p).push(n.converge), None => seq![n.converge] }
}
pub open spec fn fl_view(l: FlowList) -> Seq<Converge> {
    match l.head { Some(p) => node_view(*p), None => Seq::empty() }
}
/// The constructs around a block end (or restart) at `id`
pub open spec fn merges(fl: Seq<Converge>, id: BlockId) -> bool decreases fl.len() {
    if fl.len() == 0 { false } else {
        (match fl.last() { Converge::If(join, _) => join == id, Converge::Loop(head, _, _) => head == id }) || merges(fl.drop_last(), id)
    }
}
pub open spec fn inner_loop(fl: Seq<Converge>) -> Option<(BlockId, BlockId)> decreases fl.len() {
    if fl.len() == 0 { None } else { match fl.last() { Converge::Loop(head, after, _) => Some((head, after)), _ => inner_loop(fl.drop_last()) } }
}
pub type Blocks<'a> = Map<BlockId, &'a BasicBlock>;
pub type Flow = Result<(ControlFlowChain, Continue), ControlFlowError>;
pub open spec fn empty_chain() -> ControlFlowChain { ControlFlowChain::Block(mk_vec(Seq::empty())) }
pub open spec fn no_hint() -> SelectionControl { SelectionControl { flatten: false, dont_flatten: false } }
pub open spec fn pair<T>(a: T, b: T) -> Seq<T> { Seq::empty().push(a).push(b) }
pub open spec fn and_then(c: ControlFlowChain, d: Flow) -> Flow {
    match d { Err(e) => Err(e), Ok((c2, n)) => Ok((mk_block(pair(c, c2)), n)) }
}
/// The control flow tree of the blocks from `id` on
pub open spec fn cf(id: BlockId, fl: Seq<Converge>, m: Blocks, d: int) -> Flow decreases m.len() - d {
    if merges(fl, id) { Ok((empty_chain(), Continue::Next(id))) }
    else if !m.contains_key(id) { Err(ControlFlowError::UnknownBlockId(id)) }
    else if d >= m.len() { Err(ControlFlowError::CouldNotPredictConverge(id)) }
    else { match m[id].branch {
        GroupBranch::OpReturn(_) => Ok((ControlFlowChain::Atom(id), Continue::Return)),
        GroupBranch::OpBranch(op) => match m[id].merge {
            None => and_then(ControlFlowChain::Atom(id), cf(BlockId(op.target_label.0), fl, m, d + 1)),
            Some(GroupMerge::OpSelectionMerge(_)) => Err(ControlFlowError::CouldNotPredictConverge(id)),
            Some(GroupMerge::OpLoopMerge(l)) => {
                let after = BlockId(l.merge_block.0);
                match cf(BlockId(op.target_label.0), fl.push(Converge::Loop(id, after, l.loop_control)), m, d + 1) {
                    Err(e) => Err(e),
                    Ok((inner, next)) => if next == Continue::Next(id) {
                        and_then(ControlFlowChain::Loop(id, Box::new(inner), l.loop_control, None), cf(after, fl, m, d + 1))
                    } else { Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id)) },
                }
            },
        },
        GroupBranch::OpBranchConditional(op) => {
            let t = BlockId(op.true_label.0);
            let f = BlockId(op.false_label.0);
            match m[id].merge {
                Some(GroupMerge::OpLoopMerge(_)) => Err(ControlFlowError::CouldNotPredictConverge(id)),
                Some(GroupMerge::OpSelectionMerge(s)) => {
                    let join = BlockId(s.merge_block.0);
                    let fl2 = fl.push(Converge::If(join, s.selection_control));
                    match cf(t, fl2, m, d + 1) { Err(e) => Err(e), Ok((tc, tn)) => match cf(f, fl2, m, d + 1) { Err(e) => Err(e), Ok((fc, fnx)) =>
                        if tn == Continue::Next(join) && fnx == Continue::Next(join) {
                            and_then(ControlFlowChain::Selection(id, Box::new(tc), Box::new(fc), s.selection_control, op.weights), cf(join, fl, m, d + 1))
                        } else { Err(ControlFlowError::InvalidConvergePrediction(ControlType::Selection, id)) } } }
                },
                None => match inner_loop(fl) {
                    None => Err(ControlFlowError::CouldNotPredictConverge(id)),
                    Some((head, after)) => if f == after || f == head {
                        match cf(t, fl, m, d + 1) { Err(e) => Err(e), Ok((tc, tn)) => if tn == Continue::Next(head) {
                            Ok((ControlFlowChain::Selection(id, Box::new(tc), Box::new(if f == after { ControlFlowChain::Break } else { ControlFlowChain::Continue }), no_hint(), op.weights), tn))
                        } else { Err(ControlFlowError::InvalidConvergePrediction(ControlType::Loop, id)) } }
                    } else { Err(ControlFlowError::CouldNotPredictConverge(id)) },
                },
            }
        },
    } }
}
pub open spec fn block_id(b: BasicBlock) -> BlockId { BlockId(b.label.result_id.0) }
/// The blocks by their label, or the first label used again
pub open spec fn block_map_of<'a>(bs: Seq<BasicBlock>) -> Result<Blocks<'a>, BlockId> decreases bs.len() {
    if bs.len() == 0 { Ok(Map::empty()) } else { match block_map_of(bs.drop_last()) {
        Err(e) => Err(e),
        Ok(m) => if m.contains_key(block_id(bs.last())) { Err(block_id(bs.last())) } else { Ok(m.insert(block_id(bs.last()), &bs.last())) },
    } }
}
pub proof fn lemma_map_step(bs: Seq<BasicBlock>, i: int) requires 0 <= i < bs.len()
    ensures block_map_of(bs.take(i)) is Ok ==> block_map_of(bs.take(i + 1)) == (if block_map_of(bs.take(i))->Ok_0.contains_key(block_id(bs[i])) { Err(block_id(bs[i])) }
            else { Ok(block_map_of(bs.take(i))->Ok_0.insert(block_id(bs[i]), &bs[i])) }),
        block_map_of(bs.take(i)) is Err ==> block_map_of(bs.take(i + 1)) == block_map_of(bs.take(i)),
        block_map_of(bs.take(i + 1)) is Err ==> block_map_of(bs) == block_map_of(bs.take(i + 1))
    decreases bs.len() - i
{
    assert(bs.take(i + 1).drop_last() =~= bs.take(i));
    if i + 1 < bs.len() { lemma_map_step(bs, i + 1); } else { assert(bs.take(i + 1) =~= bs); }
}
pub proof fn lemma_map_len(bs: Seq<BasicBlock>)
    ensures block_map_of(bs) is Ok ==> block_map_of(bs)->Ok_0.dom().finite() && block_map_of(bs)->Ok_0.len() <= bs.len()
    decreases bs.len()
{ if bs.len() > 0 { lemma_map_len(bs.drop_last()); } }
/// What finding the control flow of a function gives
pub open spec fn cf_fn(bs: Seq<BasicBlock>) -> Result<ControlFlowChain, ControlFlowError> {
    match block_map_of(bs) {
        Err(id) => Err(ControlFlowError::DuplicateBlockId(id)),
        Ok(m) => if bs.len() == 0 { Err(ControlFlowError::NoBlocks) } else { match cf(block_id(bs[0]), Seq::empty(), m, 0) {
            Err(e) => Err(e),
            Ok((c, n)) => if n == Continue::Return { Ok(c) } else { Err(ControlFlowError::Failed) },
        } },
    }
}
// A tree is faithful when following it visits the blocks that following the
// branches visits. `K` is where control goes after the chain, and on break and continue.
pub struct K { pub next: Continue, pub lp: Option<(BlockId, BlockId)> }
/// The block that control reaches on entering the chain
pub open spec fn entry(c: ControlFlowChain, k: K) -> Continue decreases c {
    match c {
        ControlFlowChain::Atom(b) => Continue::Next(b),
        ControlFlowChain::Selection(b, _, _, _, _) => Continue::Next(b),
        ControlFlowChain::Loop(b, _, _, _) => Continue::Next(b),
        ControlFlowChain::Block(v) => entry_at(v, 0, k),
        ControlFlowChain::Break => match k.lp { Some((h, a)) => Continue::Next(a), None => Continue::Return },
        ControlFlowChain::Continue => match k.lp { Some((h, a)) => Continue::Next(h), None => Continue::Return },
    }
}
pub open spec fn entry_at(v: Vec<ControlFlowChain>, i: int, k: K) -> Continue decreases v, v@.len() - i {
    if 0 <= i < v@.len() { entry(v@[i], K { next: entry_at(v, i + 1, k), lp: k.lp }) } else { k.next }
}
pub open spec fn faithful(c: ControlFlowChain, k: K, m: Blocks) -> bool decreases c {
    match c {
        ControlFlowChain::Atom(b) => m.contains_key(b) && (match m[b].branch {
            GroupBranch::OpBranch(op) => k.next == Continue::Next(BlockId(op.target_label.0)),
            GroupBranch::OpReturn(_) => k.next == Continue::Return,
            _ => false,
        }),
        ControlFlowChain::Block(v) => faithful_at(v, 0, k, m),
        ControlFlowChain::Selection(b, t, f, hint, weights) => m.contains_key(b) && (match m[b].branch {
            GroupBranch::OpBranchConditional(op) => entry(*t, k) == Continue::Next(BlockId(op.true_label.0)) && entry(*f, k) == Continue::Next(BlockId(op.false_label.0))
                && weights == op.weights,
            _ => false,
        }) && hint == (match m[b].merge { Some(GroupMerge::OpSelectionMerge(s)) => s.selection_control, _ => no_hint() })
            && (match m[b].merge { Some(GroupMerge::OpSelectionMerge(s)) => k.next == Continue::Next(BlockId(s.merge_block.0)), _ => true })
            && faithful(*t, k, m) && faithful(*f, k, m),
        ControlFlowChain::Loop(b, inner, hint, weights) => m.contains_key(b) && (match (m[b].branch, m[b].merge) {
            (GroupBranch::OpBranch(op), Some(GroupMerge::OpLoopMerge(l))) => {
                let a = BlockId(l.merge_block.0);
                let k2 = K { next: Continue::Next(b), lp: Some((b, a)) };
                k.next == Continue::Next(a) && entry(*inner, k2) == Continue::Next(BlockId(op.target_label.0)) && faithful(*inner, k2, m) && hint == l.loop_control && weights is None
            },
            _ => false,
        }),
        ControlFlowChain::Break => k.lp is Some,
        ControlFlowChain::Continue => k.lp is Some,
    }
}
pub open spec fn faithful_at(v: Vec<ControlFlowChain>, i: int, k: K, m: Blocks) -> bool decreases v, v@.len() - i {
    if 0 <= i < v@.len() { faithful(v@[i], K { next: entry_at(v, i + 1, k), lp: k.lp }, m) && faithful_at(v, i + 1, k, m) } else { true }
}
/// The tree of a function starts at its first block and follows its branches to the return
pub open spec fn faithful_fn(bs: Seq<BasicBlock>, c: ControlFlowChain) -> bool {
    let k = K { next: Continue::Return, lp: None };
    block_map_of(bs) is Ok && bs.len() > 0 && faithful(c, k, block_map_of(bs)->Ok_0) && entry(c, k) == Continue::Next(block_id(bs[0]))
}
pub open spec fn blen(c: ControlFlowChain) -> nat { match c { ControlFlowChain::Block(v) => v@.len(), _ => 1 } }
pub proof fn lemma_shift(v: Vec<ControlFlowChain>, u: Vec<ControlFlowChain>, x: ControlFlowChain, i: int, k: K, m: Blocks)
    requires u@ == seq![x] + v@, 0 <= i <= v@.len()
    ensures entry_at(u, i + 1, k) == entry_at(v, i, k), faithful_at(u, i + 1, k, m) == faithful_at(v, i, k, m)
    decreases v@.len() - i
{ if i < v@.len() { lemma_shift(v, u, x, i + 1, k, m); assert(u@[i + 1] == v@[i]); } }
pub proof fn lemma_pair(x: ControlFlowChain, c: ControlFlowChain, k: K, m: Blocks)
    requires !(x is Block), !(x is Break), !(x is Continue), faithful(c, k, m), faithful(x, K { next: entry(c, k), lp: k.lp }, m), blen(c) < usize::MAX
    ensures ({ let r = mk_block(pair(x, c)); faithful(r, k, m) && entry(r, k) == entry(x, k) && blen(r) == blen(c) + 1 })
{
    broadcast use g_values;
    let s = pair(x, c);
    assert(s =~= seq![x, c]);
    assert(s.drop_last() =~= seq![x]);
    assert(seq![x].drop_last() =~= Seq::empty());
    reveal_with_fuel(flat, 3);
    let f = flat(s);
    let u = mk_vec(f);
    match c {
        ControlFlowChain::Block(v) => {
            assert(f =~= seq![x] + v@);
            assert(u@ == f);
            lemma_shift(v, u, x, 0, k, m);
        },
        _ => {
            assert(f =~= seq![x, c]);
            assert(u@ == f);
            assert(u@[0] == x && u@[1] == c);
            reveal_with_fuel(entry_at, 3);
            reveal_with_fuel(faithful_at, 3);
            assert(entry_at(u, 2, k) == k.next);
            assert(entry_at(u, 1, k) == entry(c, k));
        },
    }
    assert(u@[0] == x);
    assert(entry_at(u, 1, k) == entry(c, k));
    assert(faithful_at(u, 1, k, m));
    assert(entry_at(u, 0, k) == entry(x, K { next: entry_at(u, 1, k), lp: k.lp }));
    assert(faithful_at(u, 0, k, m));
    assert(mk_block(s) == ControlFlowChain::Block(u));
    assert(blen(ControlFlowChain::Block(u)) == blen(c) + 1);
}
pub open spec fn good(c: ControlFlowChain, n: Continue, id: BlockId, fl: Seq<Converge>, m: Blocks) -> bool {
    let k = K { next: n, lp: inner_loop(fl) };
    faithful(c, k, m) && entry(c, k) == Continue::Next(id)
}
pub proof fn lemma_inner_if(fl: Seq<Converge>, c: Converge) requires c is If ensures inner_loop(fl.push(c)) == inner_loop(fl)
{ assert(fl.push(c).drop_last() =~= fl); }
pub proof fn lemma_cf(id: BlockId, fl: Seq<Converge>, m: Blocks, d: int)
    requires 0 <= d <= m.len(), m.len() <= usize::MAX
    ensures match cf(id, fl, m, d) { Ok((c, n)) => good(c, n, id, fl, m) && blen(c) <= m.len() - d, Err(_) => true }
    decreases m.len() - d
{
    broadcast use g_values;
    reveal_with_fuel(faithful, 3);
    reveal_with_fuel(entry, 3);
    if merges(fl, id) {
        assert(empty_chain()->Block_0@ == Seq::<ControlFlowChain>::empty());
    } else if m.contains_key(id) && d < m.len() {
        match m[id].branch {
            GroupBranch::OpReturn(_) => {},
            GroupBranch::OpBranch(op) => {
                let t = BlockId(op.target_label.0);
                match m[id].merge {
                    None => {
                        lemma_cf(t, fl, m, d + 1);
                        match cf(t, fl, m, d + 1) { Ok((c, n)) => lemma_pair(ControlFlowChain::Atom(id), c, K { next: n, lp: inner_loop(fl) }, m), Err(_) => {} }
                    },
                    Some(GroupMerge::OpLoopMerge(l)) => {
                        let a = BlockId(l.merge_block.0);
                        let fl2 = fl.push(Converge::Loop(id, a, l.loop_control));
                        lemma_cf(t, fl2, m, d + 1);
                        lemma_cf(a, fl, m, d + 1);
                        assert(inner_loop(fl2) == Some((id, a)));
                        match cf(t, fl2, m, d + 1) { Ok((inner, n)) => {
                            if n == Continue::Next(id) {
                                match cf(a, fl, m, d + 1) { Ok((c, n2)) => {
                                    lemma_pair(ControlFlowChain::Loop(id, Box::new(inner), l.loop_control, None), c, K { next: n2, lp: inner_loop(fl) }, m);
                                }, Err(_) => {} }
                            }
                        }, Err(_) => {} }
                    },
                    _ => {},
                }
            },
            GroupBranch::OpBranchConditional(op) => {
                let t = BlockId(op.true_label.0);
                let f = BlockId(op.false_label.0);
                match m[id].merge {
                    Some(GroupMerge::OpSelectionMerge(s)) => {
                        let join = BlockId(s.merge_block.0);
                        let cv = Converge::If(join, s.selection_control);
                        let fl2 = fl.push(cv);
                        lemma_inner_if(fl, cv);
                        lemma_cf(t, fl2, m, d + 1);
                        lemma_cf(f, fl2, m, d + 1);
                        lemma_cf(join, fl, m, d + 1);
                        match cf(t, fl2, m, d + 1) { Ok((tc, tn)) => { match cf(f, fl2, m, d + 1) { Ok((fc, fnx)) => {
                            if tn == Continue::Next(join) && fnx == Continue::Next(join) {
                                match cf(join, fl, m, d + 1) { Ok((c, n)) => {
                                    lemma_pair(ControlFlowChain::Selection(id, Box::new(tc), Box::new(fc), s.selection_control, op.weights), c, K { next: n, lp: inner_loop(fl) }, m);
                                }, Err(_) => {} }
                            }
                        }, Err(_) => {} } }, Err(_) => {} }
                    },
                    None => {
                        lemma_cf(t, fl, m, d + 1);
                    },
                    _ => {},
                }
            },
        }
    }
}
pub proof fn lemma_cf_fn(bs: Seq<BasicBlock>) requires bs.len() <= usize::MAX ensures cf_fn(bs) is Ok ==> faithful_fn(bs, cf_fn(bs)->Ok_0) {
    lemma_map_len(bs);
    if block_map_of(bs) is Ok && bs.len() > 0 { lemma_cf(block_id(bs[0]), Seq::empty(), block_map_of(bs)->Ok_0, 0); }
}
