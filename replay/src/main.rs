//! Runs the real code on inputs from stdin and reports what it did.
//!
//! Input: any number of cases, each `u32 length` then the bytes of the case; the first byte
//! selects the instruction sets that are passed to the reader, the next one a set of
//! instructions without an opcode to insert (see `extra`), the others are the module.
//! Output, per case: seven strings, each `u32 length` then the bytes:
//!   Debug of read_module's result; Display of the module (or of the error);
//!   Debug of validate's result; per function definition Debug of find_control_flow's result;
//!   per function Display of the tree; per function the function printer's output;
//!   with COPIES set, the first fault in copies and comparisons (see `copies`).
//! Lengths are little endian. The list entries are separated by the character U+001E.
#![allow(deprecated)]
use magmaflow::glsl450;
use magmaflow::spv::logical::*;
use magmaflow::spv::op::*;
use magmaflow::spv::raw::*;
use magmaflow::spv::types::*;
use magmaflow::spv::{ExtInst, ExtInstSet, Op};
use std::any::Any;
use std::fmt;
use std::io::{Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Clone, Debug, PartialEq)]
struct TestInst(u32, u32, Vec<u32>);
impl fmt::Display for TestInst {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "Test{}.{}", self.0, self.1)?;
        for x in &self.2 {
            write!(f, " {}", x)?;
        }
        Ok(())
    }
}
impl Op for TestInst {
    fn get_name(&self) -> &'static str {
        "Test"
    }
}
impl ExtInst for TestInst {
    fn get_op(&self) -> &dyn Op {
        self
    }
    fn as_any(&self) -> &dyn Any {
        self
    }
    fn eq(&self, other: &dyn ExtInst) -> bool {
        other.as_any().downcast_ref::<TestInst>().map_or(false, |o| o == self)
    }
}
/// Reads `inst % 4` words; three means all that are left; instructions from 100 on are unknown
struct TestSet(u32, &'static str);
impl ExtInstSet for TestSet {
    fn get_name(&self) -> &'static str {
        self.1
    }
    fn read_instruction<'a, 'b>(&'b self, inst: u32, block: MemoryBlock<'a>) -> MemoryBlockResult<'a, Box<dyn ExtInst>> {
        if inst >= 100 {
            return Err(ReadError::UnknownExtInstOp(self.1, inst));
        }
        let mut block = block;
        let mut v = vec![];
        let n = inst % 4;
        while if n == 3 { !block.end() } else { (v.len() as u32) < n } {
            let (b, w) = block.read_word()?;
            block = b;
            v.push(w);
        }
        Ok((block, Box::new(TestInst(self.0, inst, v))))
    }
    fn duplicate(&self) -> Box<dyn ExtInstSet> {
        Box::new(TestSet(self.0, self.1))
    }
}

fn sets(k: u8) -> Vec<Box<dyn ExtInstSet>> {
    match k {
        0 => vec![],
        1 => vec![Box::new(glsl450::InstSet)],
        2 => vec![Box::new(TestSet(1, "Test.a")), Box::new(glsl450::InstSet), Box::new(TestSet(2, "Test.b"))],
        _ => vec![Box::new(TestSet(3, "Test.a")), Box::new(TestSet(4, "Test.a")), Box::new(TestSet(5, "GLSL.std.450")), Box::new(glsl450::InstSet), Box::new(TestSet(6, ""))],
    }
}

/// Instructions that no opcode of the reader leads to
fn extra(k: u8) -> Option<Core> {
    Some(match k {
        1 => Core::OpTypeEvent(OpTypeEvent { result_id: ResultId(7) }),
        2 => Core::OpTypeDeviceEvent(OpTypeDeviceEvent { result_id: ResultId(7) }),
        3 => Core::OpTypeQueue(OpTypeQueue { result_id: ResultId(7) }),
        4 => Core::OpTypePipe(OpTypePipe { result_id: ResultId(7), access_qualifier: AccessQualifier::ReadWrite }),
        5 => Core::OpTypeForwardPointer(OpTypeForwardPointer { pointer_type: OpId(7), storage_class: StorageClass::Uniform }),
        6 => Core::OpSource(OpSource { language: SourceLanguage::Glsl, version: SourceVersion(7), file: None, source: Some("s".to_string()) }),
        _ => return None,
    })
}

/// Trees that the control flow search does not return: 14 gives every loop branch weights,
/// 15 nests every part in further lists
fn rebuild(t: ControlFlowChain, k: u8) -> ControlFlowChain {
    use ControlFlowChain::*;
    let wrap = |c: Box<ControlFlowChain>| {
        let r = rebuild(*c, k);
        Box::new(match r {
            Block(ref v) if k == 12 && v.is_empty() => Block(vec![Continue]),
            Break | Continue if k == 12 => Block(vec![Block(vec![]), r, Break]),
            r if k == 12 => Block(vec![r, Continue, Break]),
            r if k == 15 => Block(vec![Block(vec![]), Block(vec![r])]),
            r => r,
        })
    };
    match t {
        Block(v) => Block(v.into_iter().map(|c| rebuild(c, k)).collect()),
        Selection(b, l, r, h, w) => Selection(b, wrap(l), wrap(r), h, w),
        Loop(b, i, h, w) => Loop(b, wrap(i), h, if k == 14 { Some(BranchWeights { true_weight: 3, false_weight: 4 }) } else { w }),
        x => x,
    }
}

/// With STAGE set, names the step before it runs (to tell where a case crashes)
fn stage(s: &str) {
    if std::env::var_os("STAGE").is_some() {
        eprintln!("STAGE {}", s);
    }
}

fn guard<T: FnOnce() -> String>(f: T) -> String {
    catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| "PANIC".to_string())
}

/// Copies show what the original shows; two values are equal exactly when they show the same
struct Faults(String);
impl Faults {
    fn add(&mut self, what: &str, detail: String) {
        if self.0.is_empty() {
            self.0 = format!("{}: {}", what, detail);
        }
    }
    fn copy<T: Clone + PartialEq + fmt::Debug>(&mut self, what: &str, t: &T) {
        let c = t.clone();
        let (a, b) = (format!("{:?}", t), format!("{:?}", c));
        if a != b {
            self.add(&format!("a copy of {} differs from it", what), format!("{} -> {}", a, b));
        }
        if !(*t == c) || *t != c || !(c == *t) {
            self.add(&format!("{} is not equal to its copy", what), a);
        }
    }
    fn pair<T: PartialEq + fmt::Debug>(&mut self, what: &str, a: &T, b: &T) {
        let (x, y) = (format!("{:?}", a), format!("{:?}", b));
        let same = x == y;
        if (*a == *b) != same || (*b == *a) != same || (*a != *b) == same {
            self.add(&format!("comparison of {} says {}", what, *a == *b), format!("{} and {}", x, y));
        }
    }
}

fn some_errors() -> Vec<ReadError> {
    use ReadError::*;
    let mut v = vec![UnexpectedEndOfStream, UnexpectedStreamAlignment, BadMagic, UnknownVersionBytes(1, 2, 3, 4), UnknownVersionBytes(1, 2, 3, 5),
        UnknownVersionBytes(1, 2, 5, 4), UnknownVersionBytes(1, 5, 3, 4), UnknownVersionBytes(5, 2, 3, 4), UnknownVersion(Version(1, 1)),
        UnknownVersion(Version(1, 2)), UnknownVersion(Version(2, 1)), UnknownReservedSchema, UnknownOp(1, 1), UnknownOp(1, 2), UnknownOp(2, 1),
        UnimplementedOp("OpA"), UnimplementedOp("OpB"), WrongWordCountForOp, InvalidString, UnexpectedEndOfInstruction, InstructionHadExcessData,
        UnknownInstSet("a".to_string()), UnknownInstSet("b".to_string()), UnknownInstSetId(OpId(1)), UnknownInstSetId(OpId(2)),
        UnknownExtInstOp("a", 1), UnknownExtInstOp("a", 2), UnknownExtInstOp("b", 1), DuplicateResultId(ResultId(1)), DuplicateResultId(ResultId(2))];
    for n in 0..3 {
        v.extend(vec![UnknownAddressingModel(n), UnknownMemoryModel(n), UnknownExecutionModel(n), UnknownExecutionMode(n), UnknownCapability(n),
            UnknownDecoration(n), UnknownBuiltIn(n), UnknownFpRoundingMode(n), UnknownFpFastMathMode(n), UnknownLinkageType(n), UnknownSignedness(n),
            UnknownStorageClass(n), UnknownFunctionControl(n), UnknownFunctionParameterAttribute(n), UnknownMemoryAccess(n), UnknownDim(n),
            UnknownDepthStatus(n), UnknownArrayed(n), UnknownMS(n), UnknownSampledStatus(n), UnknownImageFormat(n), UnknownAccessQualifier(n)]);
    }
    v
}

/// What holds for an extended instruction behind its box
fn ext_insts(f: &mut Faults, v: &[&OpExtInst]) {
    for a in v {
        let i = a.instruction.as_ref();
        let shown = format!("{:?}", i);
        let op = i.get_op();
        if let Some(g) = i.as_any().downcast_ref::<glsl450::Inst>() {
            if format!("{:?}", g) != shown {
                f.add("as_any of an extended instruction", format!("{} -> {:?}", shown, g));
            }
            if shown != format!("{}({:?})", op.get_name(), op) || format!("{}", op) != format!("{}", i) {
                f.add("get_op of an extended instruction", format!("{} -> {:?}", shown, op));
            }
        } else if i.as_any().downcast_ref::<TestInst>().is_none() {
            f.add("as_any of an extended instruction", format!("{} has neither type", shown));
        }
        for b in v {
            let j = b.instruction.as_ref();
            let same = shown == format!("{:?}", j);
            if ExtInst::eq(i, j) != same {
                f.add(&format!("comparison of extended instructions says {}", !same), format!("{} and {:?}", shown, j));
            }
        }
    }
}

fn blocks_of(l: &LogicalModule) -> Vec<&BasicBlock> {
    l.function_definitions.iter().flat_map(|d| d.blocks.iter()).take(12).collect()
}

fn copies(k: u8, data: &[u8]) -> String {
    let mut f = Faults(String::new());
    let read = |d: &[u8]| read_module(d, sets(k));
    let first = read(data);
    f.pair("results of reading", &first, &read(data));
    if let Err(ref e) = first {
        for x in some_errors().iter() {
            f.pair("read errors", e, x);
        }
    }
    if data.len() < 24 {
        // once in a while, the fixed values
        let v = some_errors();
        for a in &v {
            for b in &v {
                f.pair("read errors", a, b);
            }
        }
        for (want, have) in vec![
            ("MemoryAccess { volatile: false, aligned: false, non_temporal: false }", format!("{:?}", MemoryAccess::default())),
            ("FunctionControl { inline: false, dont_inline: false, pure_function: false, const_function: false }", format!("{:?}", FunctionControl::default())),
            ("LoopControl { unroll: false, dont_unroll: false, dependency_infinite: false, dependency_length: None }", format!("{:?}", LoopControl::default())),
            ("SelectionControl { flatten: false, dont_flatten: false }", format!("{:?}", SelectionControl::default())),
        ] {
            if want != have {
                f.add("default value", format!("{} instead of {}", have, want));
            }
        }
    }
    let logical = first.as_ref().ok().map(|m| validate(m.clone()));
    if let Ok(ref m) = first {
        f.copy("the module", m);
        let shown: Vec<&Core> = m.instructions.iter().take(40).collect();
        for a in &shown {
            f.copy("an instruction", *a);
            for b in &shown {
                f.pair("instructions", *a, *b);
            }
        }
        let v: Vec<&OpExtInst> = m.instructions.iter().filter_map(|c| if let Core::OpExtInst(ref o) = *c { Some(o) } else { None }).take(8).collect();
        ext_insts(&mut f, &v);
        for h in 0..5 {
            let mut n = m.clone();
            match h {
                0 => n.version = Version(n.version.0 ^ 1, n.version.1),
                1 => n.version = Version(n.version.0, n.version.1 ^ 1),
                2 => n.generator.version ^= 1,
                3 => n.bound ^= 1,
                _ => n.generator.tool = Tool::Other(12345),
            }
            f.pair("modules", m, &n);
        }
    }
    if let Some(Ok(ref l)) = logical {
        f.copy("the logical module", l);
        let v = blocks_of(l);
        for a in &v {
            for b in &v {
                f.pair("blocks", *a, *b);
            }
        }
        for a in l.function_definitions.iter().take(6) {
            f.copy("a function definition", a);
            for b in l.function_definitions.iter().take(6) {
                f.pair("function definitions", a, b);
            }
        }
        let mut trees: Vec<ControlFlowChain> = vec![];
        for d in l.function_definitions.iter().take(6) {
            for r in 12..16 {
                if let Ok(t) = find_control_flow(d.clone()) {
                    trees.push(rebuild(t, r));
                }
            }
        }
        for a in &trees {
            for b in &trees {
                f.pair("control flow trees", a, b);
            }
        }
    }
    if let Some(ref r) = logical {
        if let Err(ref e) = *r {
            f.copy("a validation error", e);
        }
    }
    // near misses: the same bytes with one bit of one word flipped
    let words = data.len() / 4;
    let mut seed = 0x9E3779B9u32 ^ (data.len() as u32).wrapping_mul(2654435761);
    let all = words <= 40;
    for t in 0..if all { words } else { 24 } {
        seed = seed.wrapping_mul(1664525).wrapping_add(1013904223);
        let at = if all { t } else { (seed >> 8) as usize % words };
        let mut d = data.to_vec();
        d[at * 4 + ((seed >> 4) & 1) as usize * 3] ^= 1 << (seed & 1);
        let second = read(&d);
        f.pair("results of reading", &first, &second);
        if let (Some(a), Ok(m)) = (logical.as_ref(), second) {
            f.pair("results of validating", a, &validate(m));
        }
    }
    f.0
}

struct Moved<T>(T);
unsafe impl<T> Send for Moved<T> {}

/// Runs `f` on a small stack when the module is long: neither reading nor
/// validating may need more stack for a longer module
fn bounded<T>(long: bool, f: impl FnOnce() -> T) -> std::thread::Result<T> {
    if !long {
        return catch_unwind(AssertUnwindSafe(f));
    }
    let f = Moved(f);
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(128 << 10)
            .spawn_scoped(s, move || {
                let f = f;
                Moved(catch_unwind(AssertUnwindSafe(f.0)).map_err(|_| ()))
            })
            .unwrap()
            .join()
            .unwrap()
            .0
            .map_err(|_| Box::new(()) as Box<dyn std::any::Any + Send>)
    })
}

fn case(data: &[u8]) -> [String; 7] {
    let mut out: [String; 7] = Default::default();
    let (k, x, data) = (data[0], data[1], &data[2..]);
    if std::env::var_os("COPIES").is_some() {
        stage("copies");
        out[6] = guard(|| copies(k, data));
        return out;
    }
    stage("read");
    let long = data.len() > 100_000;
    let read = match bounded(long, || read_module(data, sets(k))) {
        Ok(r) => r,
        Err(_) => {
            out[0] = "PANIC".into();
            return out;
        }
    };
    out[0] = guard(|| format!("{:?}", read));
    let mut m = match read {
        Ok(m) => m,
        Err(e) => {
            out[1] = guard(|| format!("{}", e));
            return out;
        }
    };
    if let Some(c) = extra(x & 15) {
        let at = ((x >> 4) as usize).min(m.instructions.len());
        m.instructions.insert(at, c);
        out[0] = guard(|| format!("Ok({:?})", m));
    }
    stage("text");
    out[1] = guard(|| format!("{}", m));
    stage("validate");
    let l = match bounded(long, || validate(m)) {
        Ok(r) => r,
        Err(_) => {
            out[2] = "PANIC".into();
            return out;
        }
    };
    out[2] = guard(|| format!("{:?}", l));
    if let Ok(l) = l {
        let (mut a, mut b, mut c) = (vec![], vec![], vec![]);
        for d in &l.function_definitions {
            stage("control");
            match catch_unwind(AssertUnwindSafe(|| find_control_flow(d.clone()))) {
                Err(_) => {
                    a.push("PANIC".to_string());
                    b.push(String::new());
                    c.push(String::new());
                }
                Ok(r) => {
                    a.push(guard(|| format!("{:?}", r)));
                    if let Ok(t) = r {
                        let t = if x & 15 >= 14 || x & 15 == 12 { rebuild(t, x & 15) } else { t };
                        stage("print");
                        b.push(guard(|| format!("{}", t)));
                        c.push(guard(|| format!("{}", ControlFlowFunctionPrinter(d, &t))));
                    } else {
                        b.push(String::new());
                        c.push(String::new());
                    }
                }
            }
        }
        out[3] = a.join("\u{1e}");
        out[4] = b.join("\u{1e}");
        out[5] = c.join("\u{1e}");
    }
    out
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    std::thread::Builder::new()
        .stack_size(8 << 20) // what a program's main thread has
        .spawn(|| {
            let (mut i, mut o) = (std::io::stdin().lock(), std::io::stdout().lock());
            let mut n = [0u8; 4];
            while i.read_exact(&mut n).is_ok() {
                let mut d = vec![0; u32::from_le_bytes(n) as usize];
                i.read_exact(&mut d).unwrap();
                for s in case(&d).iter() {
                    o.write_all(&(s.len() as u32).to_le_bytes()).unwrap();
                    o.write_all(s.as_bytes()).unwrap();
                }
                o.flush().unwrap();
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
