#![allow(unused_imports, dead_code, bare_trait_objects, non_camel_case_types, unused_variables, unused_mut, unused_parens, unused_labels, unused_assignments, unused_braces, non_snake_case, unreachable_code, unused_must_use, anonymous_parameters, ellipsis_inclusive_range_patterns, unreachable_patterns, array_into_iter, absolute_paths_not_starting_with_crate)]
extern crate core;
extern crate vstd;
use vstd::prelude::*;

verus! {

/// Assumed contract of the byteorder crate (version 0.5.3), the only dependency.
pub mod byteorder {
    use vstd::prelude::*;
    use vspec::*;
    pub struct LittleEndian;
    pub struct BigEndian;
    pub trait ByteOrder {
        spec fn word_of(b: Seq<u8>) -> u32;
        fn read_u32(buf: &[u8]) -> (r: u32)
            requires buf@.len() >= 4
            ensures r == Self::word_of(buf@);
    }
    impl ByteOrder for LittleEndian {
        open spec fn word_of(b: Seq<u8>) -> u32 { word_at(b, true, 0) }
        #[verifier::external_body]
        fn read_u32(buf: &[u8]) -> (r: u32) { unimplemented!() }
    }
    impl ByteOrder for BigEndian {
        open spec fn word_of(b: Seq<u8>) -> u32 { word_at(b, false, 0) }
        #[verifier::external_body]
        fn read_u32(buf: &[u8]) -> (r: u32) { unimplemented!() }
    }
}

/// Model of std::fmt (assumed): a formatter appends to a text; every `Display`
/// value has a text. Types that look at the width say so (`wide`); the contract
/// of the others is about formatting without options.
pub mod xfmt {
    use vstd::prelude::*;
    pub struct Error;
    pub type Result = core::result::Result<(), Error>;
    /// align: 0 the default, 1 left, 2 right
    pub struct Opts { pub width: Option<nat>, pub align: int, pub other: int }
    pub open spec fn none() -> Opts { Opts { width: None, align: 0, other: 0 } }
    pub open spec fn spaces(n: int) -> Seq<char> { Seq::new(if n > 0 { n as nat } else { 0 }, |i: int| ' ') }
    /// Padding of a text; options other than width and alignment are not described
    pub uninterp spec fn pad_other(s: Seq<char>, o: Opts) -> Seq<char>;
    pub open spec fn pad(s: Seq<char>, o: Opts, right: bool) -> Seq<char> {
        if o.other != 0 { pad_other(s, o) } else { match o.width {
            None => s,
            Some(w) => if o.align == 2 || (o.align == 0 && right) { spaces(w - s.len()) + s } else { s + spaces(w - s.len()) },
        } }
    }
    /// Decimal digits of a number
    pub open spec fn digit(n: int) -> char { (48 + n) as u8 as char }
    #[verifier::opaque]
    pub open spec fn num(n: int) -> Seq<char> decreases if n < 0 { 1 - n } else { n } {
        if n < 0 { seq!['-'] + num(-n) } else if n < 10 { seq![digit(n)] } else { num(n / 10).push(digit(n % 10)) }
    }
    pub broadcast proof fn lemma_num0() ensures #[trigger] num(0) == "0"@ { reveal(num); reveal_strlit("0"); assert(num(0) =~= "0"@); }
    pub broadcast proof fn lemma_num1() ensures #[trigger] num(1) == "1"@ { reveal(num); reveal_strlit("1"); assert(num(1) =~= "1"@); }
    pub broadcast proof fn lemma_num2() ensures #[trigger] num(2) == "2"@ { reveal(num); reveal_strlit("2"); assert(num(2) =~= "2"@); }
    /// A text `t` appended to the text `o`; kept apart from `+`, so that an output has one normal form
    #[verifier::opaque]
    pub open spec fn put(o: Seq<char>, t: Seq<char>) -> Seq<char> { o + t }
    pub broadcast proof fn lemma_put_add(o: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] put(o, a + b) == put(put(o, a), b) { reveal(put); assert(put(o, a + b) =~= put(put(o, a), b)); }
    pub broadcast proof fn lemma_put_none(o: Seq<char>, a: Seq<char>) requires a.len() == 0 ensures #[trigger] put(o, a) == o { reveal(put); assert(o + a =~= o); }
    pub broadcast proof fn lemma_put1(a: Seq<char>) ensures #[trigger] put(Seq::empty(), a) == a { reveal(put); assert(put(Seq::empty(), a) =~= a); }
    pub broadcast proof fn lemma_put2(a: Seq<char>, b: Seq<char>) ensures #[trigger] put(put(Seq::empty(), a), b) == a + b { reveal(put); assert(put(put(Seq::empty(), a), b) =~= a + b); }
    pub broadcast proof fn lemma_put3(a: Seq<char>, b: Seq<char>, c: Seq<char>) ensures #[trigger] put(put(put(Seq::empty(), a), b), c) == a + (b + c) { reveal(put); assert(put(put(put(Seq::empty(), a), b), c) =~= a + (b + c)); }
    pub broadcast group g_text { lemma_num0, lemma_num1, lemma_num2, lemma_put_add, lemma_put_none, lemma_put1, lemma_put2, lemma_put3 }
    /// Texts one after the other
    pub open spec fn cat(s: Seq<Seq<char>>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { cat(s.drop_last()) + s.last() } }
    pub proof fn lemma_cat<T>(s: Seq<T>, f: spec_fn(T) -> Seq<char>, i: int)
        requires 0 <= i < s.len()
        ensures cat(s.take(i + 1).map_values(f)) == cat(s.take(i).map_values(f)) + f(s[i])
    { assert(s.take(i + 1).map_values(f).drop_last() =~= s.take(i).map_values(f)); }

    #[verifier::external_body]
    pub struct Formatter { _p: () }
    impl Formatter {
        pub uninterp spec fn out(&self) -> Seq<char>;
        pub uninterp spec fn opts(&self) -> Opts;
        /// The writer behind the formatter accepts everything (as a String does)
        pub uninterp spec fn nofail(&self) -> bool;
        #[verifier::external_body]
        pub fn pad(&mut self, s: &str) -> (r: Result) ensures wrote(*old(self), *final(self), r, pad(s@, old(self).opts(), false)) { unimplemented!() }
        #[verifier::external_body]
        pub fn write_str(&mut self, s: &str) -> (r: Result) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
        #[verifier::external_body]
        pub fn buffer() -> (r: Formatter) ensures r.out() == Seq::<char>::empty(), r.nofail(), r.opts() == none() { unimplemented!() }
    }
    /// What a call that appends the text `t` does to a formatter
    pub open spec fn wrote(a: Formatter, b: Formatter, r: Result, t: Seq<char>) -> bool {
        b.opts() == a.opts() && b.nofail() == a.nofail() && (a.nofail() ==> r is Ok) && (r is Ok ==> b.out() == put(a.out(), t))
    }
    pub trait Display {
        spec fn txt(&self, o: Opts) -> Seq<char>;
        /// Formatting does not panic
        spec fn ok(&self) -> bool;
        spec fn wide() -> bool;
        fn fmt(&self, f: &mut Formatter) -> (r: Result)
            requires self.ok()
            ensures (Self::wide() || old(f).opts() == none()) ==> wrote(*old(f), *final(f), r, self.txt(old(f).opts()));
    }
    #[verifier::external_body]
    pub fn lit(f: &mut Formatter, s: &str) -> (r: Result) ensures wrote(*old(f), *final(f), r, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg<T: Display + ?Sized>(f: &mut Formatter, t: &T) -> (r: Result) requires t.ok() ensures wrote(*old(f), *final(f), r, t.txt(none())) { unimplemented!() }
    #[verifier::external_body]
    pub fn arg_w<T: Display + ?Sized>(f: &mut Formatter, t: &T, w: usize, align: u8) -> (r: Result)
        requires t.ok()
        ensures T::wide() ==> wrote(*old(f), *final(f), r, t.txt(Opts { width: Some(w as nat), align: align as int, other: 0 })) { unimplemented!() }
    #[verifier::external_body]
    pub fn into_string(f: Formatter) -> (r: String) ensures r@ == f.out() { unimplemented!() }
    impl Display for u8 { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(num(*self as int), o, true) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl Display for u16 { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(num(*self as int), o, true) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl Display for u32 { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(num(*self as int), o, true) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl Display for usize { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(num(*self as int), o, true) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl Display for i32 { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(num(*self as int), o, true) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl Display for str { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(self@, o, false) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl Display for String { open spec fn txt(&self, o: Opts) -> Seq<char> { pad(self@, o, false) } open spec fn ok(&self) -> bool { true } open spec fn wide() -> bool { true } #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() } }
    impl<'a, T: Display + ?Sized> Display for &'a T {
        open spec fn txt(&self, o: Opts) -> Seq<char> { (**self).txt(o) }
        open spec fn ok(&self) -> bool { (**self).ok() }
        open spec fn wide() -> bool { T::wide() }
        #[verifier::external_body] fn fmt(&self, f: &mut Formatter) -> (r: Result) { unimplemented!() }
    }
    /// Assumed contract of `[S]::join`
    pub open spec fn joined(s: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else if s.len() == 1 { s[0] } else { joined(s.drop_last(), sep) + sep + s.last() }
    }
    pub trait Text: Sized { spec fn text(self) -> Seq<char>; }
    impl Text for String { open spec fn text(self) -> Seq<char> { self@ } }
    impl<'a> Text for &'a str { open spec fn text(self) -> Seq<char> { self@ } }
    pub open spec fn texts<T: Text>(s: Seq<T>) -> Seq<Seq<char>> { s.map_values(|t: T| t.text()) }
    pub broadcast proof fn lemma_texts_push<T: Text>(s: Seq<T>, x: T) ensures #[trigger] texts(s.push(x)) == texts(s).push(x.text()) { assert(texts(s.push(x)) =~= texts(s).push(x.text())); }
    pub broadcast proof fn lemma_texts_empty<T: Text>(s: Seq<T>) ensures s.len() == 0 ==> #[trigger] texts(s) == Seq::<Seq<char>>::empty() { if s.len() == 0 { assert(texts(s) =~= Seq::<Seq<char>>::empty()); } }
    #[verifier::external_body]
    pub fn join<T: Text>(v: &[T], sep: &str) -> (r: String) ensures r@ == joined(texts(v@), sep@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string<T: Display + ?Sized>(t: &T) -> (r: String) requires t.ok() ensures r@ == t.txt(none()) { unimplemented!() }
    #[verifier::external_body]
    pub fn owned(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
}
pub mod xerror {
    use vstd::prelude::*;
    pub trait Error {
        spec fn desc(&self) -> Seq<char>;
        fn description(&self) -> (r: &str) ensures r@ == self.desc();
    }
}

pub mod vspec {
    use vstd::prelude::*;
    use std::collections::HashMap;
    use spv::types::*;
    use spv::op::*;
    use spv::raw::*;
    use spv::raw::reader::*;
    use spv::logical::*;
    use spv::logical::parser::*;
    use spv::logical::parser::parser::*;
    use spv::logical::control_flow::*;
    use std::rc::Rc;
    use core::result::Result;
    use glsl450;
    use spv::ExtInstSet;
    use spv::ExtInstBox;
    pub use xfmt::{g_text, put, wrote, none, num, cat, joined, texts, spaces, lemma_cat, lemma_texts_push, lemma_texts_empty};
//@USES@

    // ---------------------------------------------------------------- values
    /// Trusted: a Vec (a String) is determined by its contents, and every
    /// sequence of a length a machine can hold is the contents of one.
    pub uninterp spec fn mk_vec<T>(s: Seq<T>) -> Vec<T>;
    pub uninterp spec fn mk_string(s: Seq<char>) -> String;
    pub broadcast axiom fn ax_vec_ext<T>(v: Vec<T>) ensures v == mk_vec(#[trigger] v@);
    pub broadcast axiom fn ax_string_ext(v: String) ensures v == mk_string(#[trigger] v@);
    pub broadcast axiom fn ax_mk_vec<T>(s: Seq<T>) requires s.len() <= usize::MAX ensures (#[trigger] mk_vec(s))@ == s;
    pub uninterp spec fn mk_str(s: Seq<char>) -> &'static str;
    pub broadcast axiom fn ax_str_ext(v: &'static str) ensures v == mk_str(#[trigger] v@);
    pub broadcast group g_values { ax_str_ext, ax_vec_ext, ax_string_ext, ax_mk_vec }

    /// Vectors are compared and copied item by item
    pub broadcast proof fn lemma_vec_eq<T: PartialEq>(a: Vec<T>, b: Vec<T>)
        ensures #![trigger vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b)] a == b <==> (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> a@[i] == b@[i])
    { broadcast use ax_vec_ext; if a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> a@[i] == b@[i] { assert(a@ =~= b@); } }
    pub broadcast proof fn lemma_vec_clone<T>(a: Vec<T>, b: Vec<T>)
        ensures #![trigger vstd::std_specs::vec::vec_clone_trigger(a, b)] a == b <==> (a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> a@[i] == b@[i])
    { broadcast use ax_vec_ext; if a@.len() == b@.len() && forall|i: int| 0 <= i < a@.len() ==> a@[i] == b@[i] { assert(a@ =~= b@); } }
    /// Assumed: strings are equal when their texts are, pairs are copied part by part
    pub broadcast axiom fn ax_string_obeys() ensures #[trigger] <String as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec();
    pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures #[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(&a, &b) == (a == b);
    pub broadcast axiom fn ax_pair_clone<A: Clone, B: Clone>(a: (A, B), b: (A, B)) ensures #[trigger] cloned::<(A, B)>(a, b) ==> cloned::<A>(a.0, b.0) && cloned::<B>(a.1, b.1);
    pub broadcast group g_copy { lemma_vec_eq, lemma_vec_clone, ax_string_obeys, ax_string_eq, ax_pair_clone }

    /// std::cmp::max and min, at usize
    #[verifier::external_body]
    pub fn xpanic() -> ! requires false { panic!() }
    pub fn xmax(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
    pub fn xmin(a: usize, b: usize) -> (r: usize) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }

    pub fn from_same<T>(t: T) -> (r: T) ensures r == t { t }

    // ------------------------------------------------------------ byte stream
    /// The `i`th four bytes, least or most significant byte first
    pub open spec fn word_at(b: Seq<u8>, le: bool, i: int) -> u32 {
        if le {
            bytes_word(b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3])
        } else {
            bytes_word(b[4 * i + 3], b[4 * i + 2], b[4 * i + 1], b[4 * i])
        }
    }
    /// b0 is the least significant byte
    pub open spec fn bytes_word(b0: u8, b1: u8, b2: u8, b3: u8) -> u32 {
        (b0 as int + 256 * b1 as int + 65536 * b2 as int + 16777216 * b3 as int) as u32
    }
    /// What reading past the end gives: the stream ended, or ended inside a word
    pub open spec fn short(b: Seq<u8>) -> ReadError {
        if b.len() % 4 == 0 { ReadError::UnexpectedEndOfStream } else { ReadError::UnexpectedStreamAlignment }
    }
    pub open spec fn words_at(b: Seq<u8>, le: bool, n: int) -> Seq<u32> {
        Seq::new(n as nat, |i: int| word_at(b, le, i))
    }

    // ------------------------------------------------------------ word blocks
    pub type Dec<T> = Result<(T, Seq<u32>), ReadError>;
    pub open spec fn res<'a, T>(r: Result<(MemoryBlock<'a>, T), ReadError>) -> Dec<T> {
        match r { Ok((b, v)) => Ok((v, b.data@)), Err(e) => Err(e) }
    }
    pub open spec fn dec_word(w: Seq<u32>) -> Dec<u32> {
        if w.len() == 0 { Err(ReadError::UnexpectedEndOfInstruction) } else { Ok((w[0], w.skip(1))) }
    }
    /// Consumes words from the front, and at least one when `strict`
    pub open spec fn shrinks<T>(w: Seq<u32>, d: Dec<T>, strict: bool) -> bool {
        match d { Ok((_, rest)) => rest.len() <= w.len() && (strict ==> rest.len() < w.len()), Err(_) => true }
    }
    /// A list of items fills the rest of the instruction
    pub open spec fn dec_list<T: MemoryBlockRead>(w: Seq<u32>) -> Dec<Seq<T>> decreases w.len() {
        if w.len() == 0 { Ok((Seq::empty(), w)) }
        else { match T::dec(w) {
            Err(e) => Err(e),
            Ok((v, rest)) => if rest.len() < w.len() {
                match dec_list::<T>(rest) { Err(e) => Err(e), Ok((s, rest2)) => Ok((seq![v] + s, rest2)) }
            } else { arbitrary() },
        } }
    }
    pub open spec fn prepend<T>(s: Seq<T>, d: Dec<Seq<T>>) -> Dec<Seq<T>> {
        match d { Err(e) => Err(e), Ok((t, rest)) => Ok((s + t, rest)) }
    }
    pub open spec fn dec_vec<T: MemoryBlockRead>(w: Seq<u32>) -> Dec<Vec<T>> {
        match dec_list::<T>(w) { Err(e) => Err(e), Ok((s, rest)) => Ok((mk_vec(s), rest)) }
    }

    // ---------------------------------------------------------------- strings
    /// Byte `i` of the words, least significant byte of a word first
    pub open spec fn byte_of(w: u32, k: int) -> u8 {
        if k == 0 { (w & 0xFF) as u8 } else if k == 1 { ((w >> 8) & 0xFF) as u8 }
        else if k == 2 { ((w >> 16) & 0xFF) as u8 } else { (w >> 24) as u8 }
    }
    pub open spec fn str_byte(w: Seq<u32>, i: int) -> u8 { byte_of(w[i / 4], i % 4) }
    pub open spec fn str_bytes(w: Seq<u32>, n: int) -> Seq<u8> { Seq::new(n as nat, |i: int| str_byte(w, i)) }
    /// `n` bytes without a nul, then a nul
    pub open spec fn nul_at(w: Seq<u32>, n: int) -> bool {
        0 <= n < 4 * w.len() && str_byte(w, n) == 0 && (forall|i: int| 0 <= i < n ==> #[trigger] str_byte(w, i) != 0)
    }
    pub open spec fn nul_pos(w: Seq<u32>) -> int { choose|n: int| nul_at(w, n) }
    /// Assumed: String::from_utf8 (accepts exactly UTF-8, keeps the text)
    pub open spec fn utf8_ok(b: Seq<u8>) -> bool { vstd::utf8::valid_utf8(b) }
    pub open spec fn utf8_text(b: Seq<u8>) -> Seq<char> { vstd::utf8::decode_utf8(b) }
    pub open spec fn dec_string(w: Seq<u32>) -> Dec<String> {
        if exists|n: int| nul_at(w, n) {
            let n = nul_pos(w);
            if utf8_ok(str_bytes(w, n)) { Ok((mk_string(utf8_text(str_bytes(w, n))), w.skip(n / 4 + 1))) }
            else { Err(ReadError::InvalidString) }
        } else { Err(ReadError::UnexpectedEndOfInstruction) }
    }
    pub proof fn nul_unique(w: Seq<u32>, a: int, b: int) requires nul_at(w, a), nul_at(w, b) ensures a == b {
        if a < b { assert(str_byte(w, a) != 0); } else if b < a { assert(str_byte(w, b) != 0); }
    }
    pub proof fn lemma_found_nul(w: Seq<u32>, n: int, b: Seq<u8>) requires nul_at(w, n), b =~= str_bytes(w, n)
        ensures dec_string(w) == (if utf8_ok(b) { Ok::<(String, Seq<u32>), ReadError>((mk_string(utf8_text(b)), w.skip(n / 4 + 1))) } else { Err(ReadError::InvalidString) })
    {
        assert(exists|k: int| nul_at(w, k));
        nul_unique(w, n, nul_pos(w));
        assert(b == str_bytes(w, n));
    }

    // ---------------------------------------------- extended instruction sets
    /// `Box<ExtInstSet>`: any implementation of the trait that keeps its contract
    #[verifier::external_body]
    pub struct XSet { _p: () }
    /// `Box<ExtInst>`
    #[verifier::external_body]
    pub struct XInst { _p: () }
    pub uninterp spec fn inst_box<T>(t: T) -> XInst;
    impl XSet {
        pub uninterp spec fn sname(self) -> Seq<char>;
        pub uninterp spec fn sdec(self, inst: u32, w: Seq<u32>) -> Dec<XInst>;
        #[verifier::external_body]
        pub fn get_name(&self) -> (r: &'static str) ensures r@ == self.sname() { unimplemented!() }
        #[verifier::external_body]
        pub fn read_instruction<'a>(&self, instruction: u32, block: MemoryBlock<'a>) -> (r: MemoryBlockResult<'a, XInst>)
            ensures res(r) == self.sdec(instruction, block.data@), shrinks(block.data@, res(r), false)
        { unimplemented!() }
        #[verifier::external_body]
        pub fn duplicate(&self) -> (r: XSet) ensures r == *self { unimplemented!() }
    }
    impl ::xfmt::Display for XInst {
        uninterp spec fn txt(&self, o: ::xfmt::Opts) -> Seq<char>;
        open spec fn ok(&self) -> bool { true }
        open spec fn wide() -> bool { false }
        #[verifier::external_body]
        fn fmt(&self, f: &mut ::xfmt::Formatter) -> (r: ::xfmt::Result) { unimplemented!() }
    }
    impl XInst {
        #[verifier::external_body]
        pub fn as_ref(&self) -> (r: &XInst) ensures r == self { unimplemented!() }
    }
    /// The text of a value, formatted without options
    pub open spec fn tx<T: ::xfmt::Display + ?Sized>(t: &T) -> Seq<char> { t.txt(none()) }
    #[verifier::external_body]
    pub fn xbox_inst<T>(t: T) -> (r: XInst) ensures r == inst_box(t) { unimplemented!() }
    pub uninterp spec fn set_box<T: ?Sized>(t: &T) -> XSet;
    #[verifier::external_body]
    pub fn xbox_set<T>(t: T) -> (r: XSet) ensures r == set_box(&t) { unimplemented!() }
    /// A boxed set behaves as the set in the box
    pub axiom fn ax_set_box<T: ExtInstSet>(t: T)
        ensures set_box(&t).sname() == t.sname(), forall|i: u32, w: Seq<u32>| set_box(&t).sdec(i, w) == #[trigger] t.sdec(i, w);

    // ----------------------------------------------------------- std contracts
    pub broadcast axiom fn ax_opid_key() ensures #[trigger] vstd::std_specs::hash::obeys_key_model::<OpId>();

    #[verifier::external_type_specification]
    #[verifier::external_body]
    pub struct ExFromUtf8Error(std::string::FromUtf8Error);
    #[verifier::external_body]
    pub fn to_le4(w: u32) -> (r: [u8; 4])
        ensures r@ =~= seq![byte_of(w, 0), byte_of(w, 1), byte_of(w, 2), byte_of(w, 3)] { unimplemented!() }
    #[verifier::external_body]
    pub fn to_be4(w: u32) -> (r: [u8; 4])
        ensures r@ =~= seq![byte_of(w, 3), byte_of(w, 2), byte_of(w, 1), byte_of(w, 0)] { unimplemented!() }
    #[verifier::external_body]
    pub fn from_le4(b: [u8; 4]) -> (r: u32)
        ensures r == bytes_word(b@[0], b@[1], b@[2], b@[3]) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_be4(b: [u8; 4]) -> (r: u32)
        ensures r == bytes_word(b@[3], b@[2], b@[1], b@[0]) { unimplemented!() }
    pub assume_specification<T>[ Option::<T>::or ](a: Option<T>, b: Option<T>) -> (r: Option<T>)
        where T: std::marker::Destruct
        ensures r == (match a { Some(x) => Some(x), None => b });
    /// A word put together by shifts
    pub proof fn lemma_shifts(a: u8, b: u8, c: u8, d: u8)
        ensures
            (a as u32 | (b as u32) << 8 | (c as u32) << 16 | (d as u32) << 24) == bytes_word(a, b, c, d),
            ((d as u32) << 24 | (c as u32) << 16 | (b as u32) << 8 | a as u32) == bytes_word(a, b, c, d),
            a as u32 + ((b as u32) << 8) + ((c as u32) << 16) + ((d as u32) << 24) == bytes_word(a, b, c, d),
    {
        let (x, y, z, u) = (a as u32, b as u32, c as u32, d as u32);
        assert((x | y << 8 | z << 16 | u << 24) == add(add(add(x, mul(256, y)), mul(65536, z)), mul(16777216, u))) by (bit_vector)
            requires x < 256, y < 256, z < 256, u < 256;
        assert((u << 24 | z << 16 | y << 8 | x) == (x | y << 8 | z << 16 | u << 24)) by (bit_vector);
        assert(y << 8 == mul(256, y)) by (bit_vector);
        assert(z << 16 == mul(65536, z)) by (bit_vector);
        assert(u << 24 == mul(16777216, u)) by (bit_vector);
    }
    pub assume_specification[ String::from_utf8 ](v: Vec<u8>) -> (r: Result<String, std::string::FromUtf8Error>)
        ensures r is Ok <==> utf8_ok(v@), r is Ok ==> r->Ok_0@ == utf8_text(v@);
    pub assume_specification<'x>[ <&'x str as PartialEq<String>>::eq ](a: &&'x str, b: &String) -> (r: bool)
        ensures r == (a@ == b@);
//@DEC@
}
}
