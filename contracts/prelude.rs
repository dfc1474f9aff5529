// Trusted base of the verification: stand-ins, with assumed contracts, for the standard library and
// the external crates the client calls. Nothing in this file is code of the client. Every function
// here is `external_body`: its contract is an assumption, listed in the evidence of every check.
#![feature(allocator_api)]
#![allow(unused_imports, unused_variables, dead_code, unused_mut, unreachable_code, unused_must_use, non_camel_case_types, unused_parens, unused_braces, non_snake_case, unused_labels, unused_assignments, irrefutable_let_patterns, private_interfaces)]
use vstd::prelude::*;

verus! {

// the client is built for 64 bit targets
global size_of usize == 8;

pub mod vp_ext {
    use vstd::prelude::*;
    pub use vstd::utf8::{encode_utf8, decode_utf8, valid_utf8};
    use crate::vp_ext::exts::*;

    // UTF-8 text of valid bytes
    pub proof fn ax_utf8(b: Seq<u8>) requires valid_utf8(b) ensures encode_utf8(decode_utf8(b)) == b, forall|c: Seq<char>| #[trigger] encode_utf8(c) == b ==> c == decode_utf8(b) {
        vstd::utf8::decode_utf8_encode_utf8(b);
        assert forall|c: Seq<char>| #[trigger] encode_utf8(c) == b implies c == decode_utf8(b) by { vstd::utf8::encode_utf8_decode_utf8(c); }
    }

    pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (a: std::result::Result<T, E>, d: T) -> (r: T) where E: std::marker::Destruct, T: std::marker::Destruct,
        ensures r == (match a { Ok(v) => v, Err(_) => d });
    pub assume_specification[ String::into_bytes ](s: String) -> (r: Vec<u8>) ensures r@ == encode_utf8(s@);
    pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8]) ensures r@ == encode_utf8(s@);

    // ---------------------------------------------------------------- decimal text
    pub open spec fn digit(n: nat) -> char { (48 + n) as u8 as char }
    pub open spec fn dec(n: nat) -> Seq<char> decreases n {
        if n < 10 { seq![digit(n)] } else { dec(n / 10).push(digit(n % 10)) }
    }
    pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }

    // ---------------------------------------------------------------- big endian
    pub open spec fn be16(n: nat) -> Seq<u8> { seq![((n / 256) % 256) as u8, (n % 256) as u8] }
    pub open spec fn be32(n: nat) -> Seq<u8> {
        seq![((n / 16777216) % 256) as u8, ((n / 65536) % 256) as u8, ((n / 256) % 256) as u8, (n % 256) as u8]
    }
    pub open spec fn un_be32(s: Seq<u8>) -> nat {
        (s[0] as nat) * 16777216 + (s[1] as nat) * 65536 + (s[2] as nat) * 256 + (s[3] as nat)
    }
    #[verifier::external_body]
    pub fn u32_from_be_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == un_be32(b@) { unimplemented!() }
    #[verifier::external_body]
    pub fn u16_from_be_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == (b@[0] as nat) * 256 + (b@[1] as nat) { unimplemented!() }
    #[verifier::external_body]
    pub fn u32_from_le_bytes(b: [u8; 4]) -> (r: u32) ensures r as nat == un_be32(seq![b@[3], b@[2], b@[1], b@[0]]) { unimplemented!() }
    #[verifier::external_body]
    pub fn u16_from_le_bytes(b: [u8; 2]) -> (r: u16) ensures r as nat == (b@[1] as nat) * 256 + (b@[0] as nat) { unimplemented!() }
    pub open spec fn be64(n: nat) -> Seq<u8> { be32(n / 4294967296) + be32(n % 4294967296) }

    // ---------------------------------------------------------------- formatting
    pub trait VpFmt { spec fn vp_fmt(&self) -> Seq<char>; }
    impl VpFmt for String { open spec fn vp_fmt(&self) -> Seq<char> { self@ } }
    impl VpFmt for str { open spec fn vp_fmt(&self) -> Seq<char> { self@ } }
    impl VpFmt for usize { open spec fn vp_fmt(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmt for u64 { open spec fn vp_fmt(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmt for u32 { open spec fn vp_fmt(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmt for u16 { open spec fn vp_fmt(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmt for u8 { open spec fn vp_fmt(&self) -> Seq<char> { dec(*self as nat) } }
    impl<'a, T: VpFmt + ?Sized> VpFmt for &'a T { open spec fn vp_fmt(&self) -> Seq<char> { (**self).vp_fmt() } }
    // {:?}: the same text as {} for integers, unspecified for strings (quotes and escapes)
    pub trait VpFmtDbg { spec fn vp_dbg(&self) -> Seq<char>; }
    impl VpFmtDbg for String { uninterp spec fn vp_dbg(&self) -> Seq<char>; }
    impl VpFmtDbg for str { uninterp spec fn vp_dbg(&self) -> Seq<char>; }
    impl VpFmtDbg for usize { open spec fn vp_dbg(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmtDbg for u64 { open spec fn vp_dbg(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmtDbg for u32 { open spec fn vp_dbg(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmtDbg for u16 { open spec fn vp_dbg(&self) -> Seq<char> { dec(*self as nat) } }
    impl VpFmtDbg for u8 { open spec fn vp_dbg(&self) -> Seq<char> { dec(*self as nat) } }
    impl<'a, T: VpFmtDbg + ?Sized> VpFmtDbg for &'a T { open spec fn vp_dbg(&self) -> Seq<char> { (**self).vp_dbg() } }
    #[verifier::external_body]
    pub fn fmt_new() -> (r: String) ensures r@ == Seq::<char>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn fmt_lit(f: &mut String, s: &str) ensures final(f)@ == old(f)@ + s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn fmt_arg<T: VpFmt + ?Sized>(f: &mut String, a: &T) ensures final(f)@ == old(f)@ + a.vp_fmt() { unimplemented!() }
    #[verifier::external_body]
    pub fn fmt_dbg<T: VpFmtDbg + ?Sized>(f: &mut String, a: &T) ensures final(f)@ == old(f)@ + a.vp_dbg() { unimplemented!() }
    #[verifier::external_body]
    pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }

    // ---------------------------------------------------------------- sequences of bytes
    pub fn bool_or(a: bool, b: bool) -> (r: bool) ensures r == (a || b) { a || b }
    pub fn bool_and(a: bool, b: bool) -> (r: bool) ensures r == (a && b) { a && b }
    pub open spec fn prefix<T>(n: Seq<T>, s: Seq<T>) -> bool { n.len() <= s.len() && s.subrange(0, n.len() as int) =~= n }
    pub open spec fn suffix<T>(n: Seq<T>, s: Seq<T>) -> bool { n.len() <= s.len() && s.subrange(s.len() - n.len(), s.len() as int) =~= n }
    pub trait VpBytes { spec fn vp_b(&self) -> Seq<u8>; }
    impl VpBytes for Vec<u8> { open spec fn vp_b(&self) -> Seq<u8> { self@ } }
    impl VpBytes for [u8] { open spec fn vp_b(&self) -> Seq<u8> { self@ } }
    impl<const N: usize> VpBytes for [u8; N] { open spec fn vp_b(&self) -> Seq<u8> { self@ } }
    impl<'a, T: VpBytes + ?Sized> VpBytes for &'a T { open spec fn vp_b(&self) -> Seq<u8> { (**self).vp_b() } }
    #[verifier::external_body]
    pub fn cat1<A: VpBytes>(a: A) -> (r: Vec<u8>) ensures r@ == a.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat2<A: VpBytes, B: VpBytes>(a: A, b: B) -> (r: Vec<u8>) ensures r@ == a.vp_b() + b.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat3<A: VpBytes, B: VpBytes, C: VpBytes>(a: A, b: B, c: C) -> (r: Vec<u8>) ensures r@ == a.vp_b() + b.vp_b() + c.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat4<A: VpBytes, B: VpBytes, C: VpBytes, D: VpBytes>(a: A, b: B, c: C, d: D) -> (r: Vec<u8>) ensures r@ == a.vp_b() + b.vp_b() + c.vp_b() + d.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat5<A: VpBytes, B: VpBytes, C: VpBytes, D: VpBytes, E: VpBytes>(a: A, b: B, c: C, d: D, e: E) -> (r: Vec<u8>)
        ensures r@ == a.vp_b() + b.vp_b() + c.vp_b() + d.vp_b() + e.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat6<A: VpBytes, B: VpBytes, C: VpBytes, D: VpBytes, E: VpBytes, F: VpBytes>(a: A, b: B, c: C, d: D, e: E, f: F) -> (r: Vec<u8>)
        ensures r@ == a.vp_b() + b.vp_b() + c.vp_b() + d.vp_b() + e.vp_b() + f.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat7<A: VpBytes, B: VpBytes, C: VpBytes, D: VpBytes, E: VpBytes, F: VpBytes, G: VpBytes>(a: A, b: B, c: C, d: D, e: E, f: F, g: G) -> (r: Vec<u8>)
        ensures r@ == a.vp_b() + b.vp_b() + c.vp_b() + d.vp_b() + e.vp_b() + f.vp_b() + g.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn cat13<A: VpBytes, B: VpBytes, C: VpBytes, D: VpBytes, E: VpBytes, F: VpBytes, G: VpBytes, H: VpBytes, I: VpBytes, J: VpBytes, K: VpBytes, L: VpBytes, M: VpBytes>(a: A, b: B, c: C, d: D, e: E, f: F, g: G, h: H, i: I, j: J, k: K, l: L, m: M) -> (r: Vec<u8>)
        ensures r@ == a.vp_b() + b.vp_b() + c.vp_b() + d.vp_b() + e.vp_b() + f.vp_b() + g.vp_b() + h.vp_b() + i.vp_b() + j.vp_b() + k.vp_b() + l.vp_b() + m.vp_b() { unimplemented!() }
    #[verifier::external_body]
    pub fn vp_vec_repeat<T: Copy>(e: T, n: usize) -> (r: Vec<T>) ensures r@ == Seq::new(n as nat, |i: int| e) { unimplemented!() }

    // ---------------------------------------------------------------- a finite iterator
    #[verifier::external_body]
    #[verifier::reject_recursive_types(T)]
    pub struct VpIter<T> { v: Vec<T> }
    impl<T> View for VpIter<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
    impl<T> IntoIterator for VpIter<T> {
        type Item = T;
        type IntoIter = std::vec::IntoIter<T>;
        #[verifier::external_body]
        fn into_iter(self) -> (r: std::vec::IntoIter<T>)
            ensures vstd::std_specs::iter::IteratorSpec::remaining(&r) == self@,
                vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
                vstd::std_specs::iter::IteratorSpec::will_return_none(&r),
                vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        { unimplemented!() }
    }
    pub trait VpCollect<T>: Sized { spec fn collected(items: Seq<T>, r: Self) -> bool; }
    impl<T> VpCollect<T> for Vec<T> { open spec fn collected(items: Seq<T>, r: Vec<T>) -> bool { r@ == items } }
    impl VpCollect<char> for String { open spec fn collected(items: Seq<char>, r: String) -> bool { r@ == items } }
    pub trait VpSum: Sized { spec fn vp_n(self) -> nat; spec fn vp_max() -> nat; }
    impl VpSum for usize { open spec fn vp_n(self) -> nat { self as nat } open spec fn vp_max() -> nat { usize::MAX as nat } }
    pub open spec fn sum_seq<T: VpSum>(s: Seq<T>) -> nat decreases s.len() {
        if s.len() == 0 { 0 } else { sum_seq(s.drop_last()) + s.last().vp_n() }
    }
    pub open spec fn flat_bytes(s: Seq<Vec<u8>>) -> Seq<u8> decreases s.len() {
        if s.len() == 0 { Seq::empty() } else { flat_bytes(s.drop_last()) + s.last()@ }
    }
    impl<T> VpIter<T> {
        #[verifier::external_body]
        pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: VpIter<U>)
            requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            ensures r@.len() == self@.len(), forall|i: int| 0 <= i < self@.len() ==> f.ensures((self@[i],), #[trigger] r@[i]),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn vp_flat_map<F: Fn(T) -> Vec<u8>>(self, f: F) -> (r: VpIter<u8>)
            requires forall|i: int| 0 <= i < self@.len() ==> f.requires((#[trigger] self@[i],)),
            ensures exists|v: Seq<Vec<u8>>| v.len() == self@.len() && r@ == #[trigger] flat_bytes(v)
                && forall|i: int| 0 <= i < v.len() ==> f.ensures((self@[i],), #[trigger] v[i]),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn collect<C: VpCollect<T>>(self) -> (r: C) ensures C::collected(self@, r) { unimplemented!() }
        #[verifier::external_body]
        pub fn vp_nth(&mut self, n: usize) -> (r: Option<T>)
            ensures match r { Some(x) => n < old(self)@.len() && x == old(self)@[n as int], None => n >= old(self)@.len() },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn skip(self, n: usize) -> (r: VpIter<T>)
            ensures r@ == if n <= self@.len() { self@.skip(n as int) } else { Seq::empty() },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn rev(self) -> (r: VpIter<T>) ensures r@ == self@.reverse() { unimplemented!() }
        #[verifier::external_body]
        pub fn count(self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
        #[verifier::external_body]
        pub fn last(self) -> (r: Option<T>) ensures r == if self@.len() == 0 { None } else { Some(self@.last()) } { unimplemented!() }
        #[verifier::external_body]
        pub fn enumerate(self) -> (r: VpIter<(usize, T)>)
            ensures self@.len() <= usize::MAX, r@ == Seq::new(self@.len(), |i: int| (i as usize, self@[i])),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn any<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
            requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
            ensures r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), true),
                !r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn all<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: bool)
            requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
            ensures !r ==> exists|i: int| 0 <= i < old(self)@.len() && f.ensures((#[trigger] old(self)@[i],), false),
                r ==> forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), true),
        { unimplemented!() }
        #[verifier::external_body]
        pub fn position<F: FnMut(T) -> bool>(&mut self, f: F) -> (r: Option<usize>)
            requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] old(self)@[i],)),
            ensures match r {
                Some(n) => n < old(self)@.len() && f.ensures((old(self)@[n as int],), true)
                    && forall|i: int| 0 <= i < n ==> f.ensures((#[trigger] old(self)@[i],), false),
                None => forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((#[trigger] old(self)@[i],), false),
            },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn find<F: FnMut(&T) -> bool>(&mut self, f: F) -> (r: Option<T>)
            requires forall|i: int| 0 <= i < old(self)@.len() ==> f.requires((#[trigger] &old(self)@[i],)),
            ensures match r {
                Some(x) => exists|n: int| 0 <= n < old(self)@.len() && x == #[trigger] old(self)@[n] && f.ensures((&x,), true)
                    && forall|i: int| 0 <= i < n ==> f.ensures((&#[trigger] old(self)@[i],), false),
                None => forall|i: int| 0 <= i < old(self)@.len() ==> f.ensures((&#[trigger] old(self)@[i],), false),
            },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn take(self, n: usize) -> (r: VpIter<T>)
            ensures r@ == if n <= self@.len() { self@.take(n as int) } else { self@ },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn vp_sum<S: VpSum>(self) -> (r: S) where T: VpInto<S>
            requires sum_seq(Seq::new(self@.len(), |i: int| self@[i].vp_into())) <= S::vp_max(),
            ensures r.vp_n() == sum_seq(Seq::new(self@.len(), |i: int| self@[i].vp_into())),
        { unimplemented!() }
    }
    impl<'a, T: Copy> VpIter<&'a T> {
        #[verifier::external_body]
        pub fn cloned(self) -> (r: VpIter<T>) ensures r@ == Seq::new(self@.len(), |i: int| *self@[i]) { unimplemented!() }
        #[verifier::external_body]
        pub fn vp_copied(self) -> (r: VpIter<T>) ensures r@ == Seq::new(self@.len(), |i: int| *self@[i]) { unimplemented!() }
    }
    pub open spec fn same<T>(a: T, b: T) -> bool { a == b }
    // what the adapters of Option and Result have in common: a value to go on with, or a reason to stop
    pub mod cf {
        use vstd::prelude::*;
        pub enum Cf<T, R> { Go(T), Stop(R) }
        pub struct Missing;
        pub struct Failed<E>(pub E);
        pub trait VpCf<T, R>: Sized { spec fn cf(self) -> Cf<T, R>; fn vp_cf(self) -> (r: Cf<T, R>) ensures r == self.cf(); }
        impl<T> VpCf<T, Missing> for Option<T> { open spec fn cf(self) -> Cf<T, Missing> { match self { Some(x) => Cf::Go(x), None => Cf::Stop(Missing) } }
            fn vp_cf(self) -> (r: Cf<T, Missing>) { match self { Some(x) => Cf::Go(x), None => Cf::Stop(Missing) } } }
        impl<T, E> VpCf<T, Failed<E>> for core::result::Result<T, E> { open spec fn cf(self) -> Cf<T, Failed<E>> { match self { Ok(x) => Cf::Go(x), Err(e) => Cf::Stop(Failed(e)) } }
            fn vp_cf(self) -> (r: Cf<T, Failed<E>>) { match self { Ok(x) => Cf::Go(x), Err(e) => Cf::Stop(Failed(e)) } } }
        pub trait VpJoin<U>: Sized { type Out; spec fn joined(c: Cf<U, Self>) -> Self::Out; fn vp_join_cf(c: Cf<U, Self>) -> (r: Self::Out) ensures r == Self::joined(c); }
        impl<U> VpJoin<U> for Missing { type Out = Option<U>; open spec fn joined(c: Cf<U, Missing>) -> Option<U> { match c { Cf::Go(x) => Some(x), Cf::Stop(_) => None } }
            fn vp_join_cf(c: Cf<U, Missing>) -> (r: Option<U>) { match c { Cf::Go(x) => Some(x), Cf::Stop(_) => None } } }
        impl<U, E> VpJoin<U> for Failed<E> { type Out = core::result::Result<U, E>; open spec fn joined(c: Cf<U, Failed<E>>) -> core::result::Result<U, E> { match c { Cf::Go(x) => Ok(x), Cf::Stop(e) => Err(e.0) } }
            fn vp_join_cf(c: Cf<U, Failed<E>>) -> (r: core::result::Result<U, E>) { match c { Cf::Go(x) => Ok(x), Cf::Stop(e) => Err(e.0) } } }
        pub fn join<U, R: VpJoin<U>>(c: Cf<U, R>) -> (r: R::Out) ensures r == R::joined(c) { R::vp_join_cf(c) }
        pub trait VpStop<R>: Sized { spec fn stopped(e: R) -> Self; fn vp_stop(e: R) -> (r: Self) ensures r == Self::stopped(e); }
        impl<T> VpStop<Missing> for Option<T> { open spec fn stopped(e: Missing) -> Self { None } fn vp_stop(e: Missing) -> (r: Self) { None } }
        impl<T, E> VpStop<Failed<E>> for core::result::Result<T, E> { open spec fn stopped(e: Failed<E>) -> Self { Err(e.0) } fn vp_stop(e: Failed<E>) -> (r: Self) { Err(e.0) } }
        pub fn stop<R, O: VpStop<R>>(e: R) -> (r: O) ensures r == O::stopped(e) { O::vp_stop(e) }
        pub trait VpGo<T>: Sized { spec fn gone(v: T) -> Self; fn vp_go(v: T) -> (r: Self) ensures r == Self::gone(v); }
        impl<T> VpGo<T> for Option<T> { open spec fn gone(v: T) -> Self { Some(v) } fn vp_go(v: T) -> (r: Self) { Some(v) } }
        impl<T, E> VpGo<T> for core::result::Result<T, E> { open spec fn gone(v: T) -> Self { Ok(v) } fn vp_go(v: T) -> (r: Self) { Ok(v) } }
        pub fn go<T, O: VpGo<T>>(v: T) -> (r: O) ensures r == O::gone(v) { O::vp_go(v) }
    }
    pub trait VpInto<S>: Sized { spec fn vp_into(self) -> S; }
    impl VpInto<usize> for usize { open spec fn vp_into(self) -> usize { self } }
    impl<'a> VpInto<usize> for &'a usize { open spec fn vp_into(self) -> usize { *self } }

    // ---------------------------------------------------------------- maps keyed by strings
    pub trait VpKey { spec fn kv(&self) -> Seq<char>; }
    impl VpKey for String { open spec fn kv(&self) -> Seq<char> { self@ } }
    impl VpKey for str { open spec fn kv(&self) -> Seq<char> { self@ } }
    #[verifier::external_body]
    #[verifier::accept_recursive_types(K)]
    #[verifier::accept_recursive_types(V)]
    pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
    impl<K: VpKey, V> View for HashMap<K, V> { type V = Map<Seq<char>, V>; uninterp spec fn view(&self) -> Map<Seq<char>, V>; }
    pub axiom fn ax_hashmap_decreases<K: VpKey, V>(m: HashMap<K, V>) ensures decreases_to!(m => m@);
    // every key exactly once, with its value
    pub open spec fn pairs_of<K: VpKey, V>(r: Seq<(&K, &V)>, m: Map<Seq<char>, V>) -> bool {
        &&& r.len() == m.dom().len()
        &&& forall|i: int| 0 <= i < r.len() ==> m.dom().contains((#[trigger] r[i]).0.kv()) && m[r[i].0.kv()] == *r[i].1
        &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.kv() != (#[trigger] r[j]).0.kv()
        &&& forall|k: Seq<char>| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.kv() == k
    }
    impl<K: VpKey, V> HashMap<K, V> {
        #[verifier::external_body]
        pub fn get<Q: VpKey + ?Sized>(&self, k: &Q) -> (r: Option<&V>)
            ensures match r { Some(v) => self@.dom().contains(k.kv()) && *v == self@[k.kv()], None => !self@.dom().contains(k.kv()) },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn contains_key<Q: VpKey + ?Sized>(&self, k: &Q) -> (r: bool) ensures r == self@.dom().contains(k.kv()) { unimplemented!() }
        #[verifier::external_body]
        pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k.kv(), v) { unimplemented!() }
        #[verifier::external_body]
        pub fn new() -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn from(a: [(K, V); 0]) -> (r: Self) ensures r@ == Map::<Seq<char>, V>::empty() { unimplemented!() }
        #[verifier::external_body]
        pub fn vp_iter<'a>(&'a self) -> (r: VpIter<(&'a K, &'a V)>) ensures pairs_of(r@, self@) { unimplemented!() }
        #[verifier::external_body]
        pub fn iter<'a>(&'a self) -> (r: std::vec::IntoIter<(&'a K, &'a V)>)
            ensures pairs_of(vstd::std_specs::iter::IteratorSpec::remaining(&r), self@),
                vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
                vstd::std_specs::iter::IteratorSpec::will_return_none(&r),
                vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    }
    impl<K: VpKey, V> Clone for HashMap<K, V> {
        #[verifier::external_body]
        fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    }
    impl<'a, K: VpKey, V> IntoIterator for &'a HashMap<K, V> {
        type Item = (&'a K, &'a V);
        type IntoIter = std::vec::IntoIter<(&'a K, &'a V)>;
        #[verifier::external_body]
        fn into_iter(self) -> (r: std::vec::IntoIter<(&'a K, &'a V)>)
            ensures pairs_of(vstd::std_specs::iter::IteratorSpec::remaining(&r), self@),
                vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r),
                vstd::std_specs::iter::IteratorSpec::will_return_none(&r),
                vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some,
        { unimplemented!() }
    }
    // order of strings: their bytes, lexicographically
    pub open spec fn bytes_lt(a: Seq<u8>, b: Seq<u8>) -> bool decreases a.len() {
        if b.len() == 0 { false } else if a.len() == 0 { true }
        else if a[0] != b[0] { a[0] < b[0] }
        else { bytes_lt(a.drop_first(), b.drop_first()) }
    }
    pub open spec fn str_lt(a: Seq<char>, b: Seq<char>) -> bool { bytes_lt(encode_utf8(a), encode_utf8(b)) }

    // for x in &mut vec: every element once, in order
    pub assume_specification<'a, T, A: std::alloc::Allocator> [<&'a mut Vec<T, A> as IntoIterator>::into_iter] (v: &'a mut Vec<T, A>) -> (r: <&'a mut Vec<T, A> as IntoIterator>::IntoIter)
        ensures vstd::std_specs::iter::IteratorSpec::remaining(&r).len() == old(v)@.len(), final(v)@.len() == old(v)@.len(),
            forall|i: int| #![trigger vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]] #![trigger final(v)@[i]] 0 <= i < old(v)@.len() ==>
                *vstd::std_specs::iter::IteratorSpec::remaining(&r)[i] == old(v)@[i] && *final(vstd::std_specs::iter::IteratorSpec::remaining(&r)[i]) == final(v)@[i],
            vstd::std_specs::iter::IteratorSpec::obeys_prophetic_iter_laws(&r), vstd::std_specs::iter::IteratorSpec::will_return_none(&r), vstd::std_specs::iter::IteratorSpec::decrease(&r) is Some;
    // ---------------------------------------------------------------- observable effects
    pub struct WriteEv { pub path: Seq<char>, pub off: nat, pub data: Seq<u8> }
    // `sure`: it waits for a place in the mailbox rather than being dropped when there is none
    pub struct SendEv { pub to: int, pub msg: crate::vp_msg::MsgView, pub sure: bool }
    pub enum UdpEv { Connect(Seq<char>), Sent(Seq<u8>), Received(Seq<u8>) }
    // What the client did to the outside, in order; it only exists in the proofs.
    #[verifier::external_body]
    pub struct World { x: u8 }
    impl World {
        pub uninterp spec fn writes(&self) -> Seq<WriteEv>;
        pub uninterp spec fn truncated(&self) -> Set<Seq<char>>;
        pub uninterp spec fn dirs(&self) -> Set<Seq<char>>;
        pub uninterp spec fn sends(&self) -> Seq<SendEv>;
        // the values written as JSON: the file and the text
        pub uninterp spec fn saved(&self) -> Seq<(Seq<char>, Seq<char>)>;
        // the files that can be read as text
        pub uninterp spec fn texts(&self) -> Map<Seq<char>, Seq<char>>;
        pub uninterp spec fn udp(&self) -> Seq<UdpEv>;
        // the actors that were started
        pub uninterp spec fn started(&self) -> Seq<int>;
    }
    pub open spec fn same_fs(a: &World, b: &World) -> bool {
        a.writes() == b.writes() && a.truncated() == b.truncated() && a.dirs() == b.dirs() && a.saved() == b.saved()
    }

    // ---------------------------------------------------------------- std::cmp, std::str, std::time, std::thread, std::os
    pub mod cmp {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub fn min(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { unimplemented!() }
        #[verifier::external_body]
        pub fn max(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a } else { b } { unimplemented!() }
    }
    pub mod str {
        use vstd::prelude::*;
        #[derive(Debug)]
        pub struct Utf8Error { pub v: u8 }
        impl Clone for Utf8Error { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        #[verifier::external_body]
        pub fn from_utf8(v: &[u8]) -> (r: core::result::Result<&str, Utf8Error>)
            ensures r is Ok <==> vstd::utf8::valid_utf8(v@), r is Ok ==> vstd::utf8::encode_utf8(r->Ok_0@) == v@,
        { unimplemented!() }
    }
    pub mod os { pub mod unix { pub mod prelude { pub use crate::vp_ext::fs::FileExt; } pub mod fs { pub use crate::vp_ext::fs::FileExt; } } }
    pub mod thread {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub fn sleep(d: crate::vp_ext::time::Duration) { unimplemented!() }
    }
    pub mod time {
        use vstd::prelude::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Duration { x: u8 }
        impl Duration {
            #[verifier::external_body]
            pub fn from_millis(x: u64) -> (r: Duration) ensures r.ms() == x { unimplemented!() }
            #[verifier::external_body]
            pub fn from_secs(x: u64) -> (r: Duration) ensures r.ms() == 1000 * x { unimplemented!() }
            pub uninterp spec fn ms(&self) -> nat;
        }
    }

    // ---------------------------------------------------------------- std::sync (no other thread is interleaved inside a critical section; no poisoning)
    pub mod sync {
        use vstd::prelude::*;
        #[derive(Debug)]
        pub struct PoisonError { pub v: u8 }
        pub struct Mutex<T> { pub v: T }
        pub struct Arc<T> { pub v: T }
        impl<T> Mutex<T> { pub fn new(v: T) -> (r: Self) ensures r.v == v { Mutex { v } } }
        impl<T> Arc<T> { pub fn new(v: T) -> (r: Self) ensures r.v == v { Arc { v } } }
        impl<T> Arc<Mutex<T>> {
            #[verifier::external_body]
            pub fn lock(&mut self) -> (r: core::result::Result<&mut T, PoisonError>)
                ensures r is Ok, *r->Ok_0 == old(self).v.v, *final(r->Ok_0) == final(self).v.v,
            { unimplemented!() }
        }
    }

    // ---------------------------------------------------------------- std::io
    pub mod io {
        use vstd::prelude::*;
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct Error { x: u8 }
        pub type Result<T> = core::result::Result<T, Error>;
        // A byte stream. `inp`: the bytes that will still be delivered by the other side; `avail`: a
        // lower bound of how many of them can be read now; `sent`: the bytes given to the other side.
        pub trait VpStream {
            spec fn inp(&self) -> Seq<u8>;
            spec fn avail(&self) -> nat;
            spec fn sent(&self) -> Seq<u8>;
            // a write failed: nothing is known about what follows
            spec fn broken(&self) -> bool;
            // reads wait for a limited time only
            spec fn bounded(&self) -> bool;
        }
        pub open spec fn stream_same<T: VpStream + ?Sized>(a: &T, b: &T) -> bool {
            a.inp() == b.inp() && a.sent() == b.sent() && b.avail() >= a.avail() && a.broken() == b.broken() && a.bounded() == b.bounded()
        }
        pub open spec fn peek_post<T: VpStream + ?Sized>(pre: &T, post: &T, b0: Seq<u8>, b1: Seq<u8>, r: Result<usize>) -> bool {
            &&& stream_same(pre, post)
            &&& b1.len() == b0.len()
            &&& post.avail() <= post.inp().len()
            &&& r is Ok ==> r->Ok_0 <= b1.len() && r->Ok_0 <= post.avail() && (r->Ok_0 >= b1.len() || r->Ok_0 >= pre.avail())
                && b1 == pre.inp().take(r->Ok_0 as int) + b0.skip(r->Ok_0 as int)
            &&& r is Err && b1.len() > 0 ==> pre.avail() == 0
        }
        pub open spec fn read_post<T: VpStream + ?Sized>(pre: &T, post: &T, b0: Seq<u8>, b1: Seq<u8>, r: Result<usize>) -> bool {
            &&& b1.len() == b0.len()
            &&& post.sent() == pre.sent() && post.broken() == pre.broken() && post.bounded() == pre.bounded()
            &&& match r {
                Ok(n) => n <= b1.len() && n <= pre.inp().len()
                    && b1 == pre.inp().take(n as int) + b0.skip(n as int)
                    && post.inp() == pre.inp().skip(n as int)
                    && (n >= b1.len() || n >= pre.avail()),
                Err(_) => post.inp() == pre.inp() && (b1.len() > 0 ==> pre.avail() == 0),
            }
        }
        pub open spec fn write_post<T: VpStream + ?Sized>(pre: &T, post: &T, b: Seq<u8>, r: Result<usize>) -> bool {
            &&& post.inp() == pre.inp() && post.avail() >= pre.avail() && post.bounded() == pre.bounded()
            &&& match r {
                Ok(n) => n <= b.len() && post.sent() == pre.sent() + b.take(n as int) && post.broken() == pre.broken(),
                Err(_) => post.sent() == pre.sent() && post.broken(),
            }
        }
        pub open spec fn write_all_post<T: VpStream + ?Sized>(pre: &T, post: &T, b: Seq<u8>, r: Result<()>) -> bool {
            &&& post.inp() == pre.inp() && post.avail() >= pre.avail() && post.bounded() == pre.bounded()
            &&& match r {
                Ok(_) => post.sent() == pre.sent() + b && post.broken() == pre.broken(),
                Err(_) => post.broken(),
            }
        }
        pub trait Read: VpStream {
            fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
                requires old(self).bounded()
                ensures read_post(old(self), final(self), old(buf)@, final(buf)@, r);
        }
        pub trait Write: VpStream {
            fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
                ensures write_post(old(self), final(self), buf@, r);
            fn flush(&mut self) -> (r: Result<()>)
                ensures stream_same(old(self), final(self));
        }
        pub trait VpWriteAll: Write {
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
                ensures write_all_post(old(self), final(self), buf@, r);
        }
        impl<T: Write> VpWriteAll for T {
            #[verifier::external_body]
            fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>) { unimplemented!() }
        }
        pub mod prelude { pub use super::{Read, Write, VpWriteAll}; }
    }
    pub mod net {
        use vstd::prelude::*;
        use crate::vp_ext::io;
        use crate::vp_ext::io::VpStream;
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct SocketAddr { x: u8 }
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct TcpStream { x: u8 }
        // text that `str::parse::<SocketAddr>` accepts
        pub uninterp spec fn is_socket_addr(s: Seq<char>) -> bool;
        // an attempt to connect there succeeds: one answer per address, whenever it is asked
        pub uninterp spec fn accepts(a: SocketAddr) -> bool;
        pub open spec fn address(s: Seq<char>) -> SocketAddr { <SocketAddr as crate::vp_ext::exts::VpParse>::vp_parsed(s) }
        pub open spec fn reachable(s: Seq<char>) -> bool { is_socket_addr(s) && accepts(address(s)) }
        impl crate::vp_ext::exts::VpParse for SocketAddr {
            open spec fn vp_parses(s: Seq<char>) -> bool { is_socket_addr(s) }
            uninterp spec fn vp_parsed(s: Seq<char>) -> Self;
        }
        impl io::VpStream for TcpStream {
            uninterp spec fn inp(&self) -> Seq<u8>;
            uninterp spec fn avail(&self) -> nat;
            uninterp spec fn sent(&self) -> Seq<u8>;
            uninterp spec fn broken(&self) -> bool;
            uninterp spec fn bounded(&self) -> bool;
        }
        impl io::Read for TcpStream { #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
        impl io::Write for TcpStream {
            #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
        }
        impl TcpStream {
            // the address it was connected to
            pub uninterp spec fn addr(&self) -> SocketAddr;
            #[verifier::external_body]
            pub fn connect_timeout(a: &SocketAddr, d: crate::vp_ext::time::Duration) -> (r: io::Result<TcpStream>)
                ensures d.ms() > 0 ==> (r is Ok <==> accepts(*a)), r is Ok ==> r->Ok_0.addr() == *a && io::VpStream::sent(&r->Ok_0) == Seq::<u8>::empty() && !io::VpStream::broken(&r->Ok_0),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn peek(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
                requires io::VpStream::bounded(old(self)),
                ensures io::peek_post(old(self), final(self), old(buf)@, final(buf)@, r),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn set_read_timeout(&mut self, d: Option<crate::vp_ext::time::Duration>) -> (r: io::Result<()>)
                ensures final(self).inp() == old(self).inp(), final(self).sent() == old(self).sent(), final(self).broken() == old(self).broken(), final(self).avail() >= old(self).avail(),
                    r is Ok ==> final(self).bounded() == (d is Some), r is Err ==> d is Some && d->Some_0.ms() == 0,
            { unimplemented!() }
        }
    }
    pub mod mock_stream {
        use vstd::prelude::*;
        use crate::vp_ext::io;
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct MockStream { x: u8 }
        impl io::VpStream for MockStream {
            uninterp spec fn inp(&self) -> Seq<u8>;
            uninterp spec fn avail(&self) -> nat;
            uninterp spec fn sent(&self) -> Seq<u8>;
            uninterp spec fn broken(&self) -> bool;
            open spec fn bounded(&self) -> bool { true }
        }
        impl io::Read for MockStream { #[verifier::external_body] fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() } }
        impl io::Write for MockStream {
            #[verifier::external_body] fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
            #[verifier::external_body] fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
        }
        impl MockStream {
            #[verifier::external_body]
            pub fn new() -> (r: MockStream) ensures io::VpStream::sent(&r) == Seq::<u8>::empty(), !io::VpStream::broken(&r) { unimplemented!() }
            #[verifier::external_body]
            pub fn peek(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>)
                ensures io::peek_post(old(self), final(self), old(buf)@, final(buf)@, r),
            { unimplemented!() }
        }
    }

    // ---------------------------------------------------------------- std::path, std::fs
    pub mod path {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Path { x: u8 }
        impl Path {
            pub uninterp spec fn view(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn new<S: crate::vp_ext::VpFmt + ?Sized>(s: &S) -> (r: &Path) ensures r.view() == s.vp_fmt() { unimplemented!() }
            #[verifier::external_body]
            pub fn parent(&self) -> (r: Option<&Path>)
                ensures self.view().len() > 0 && self.view()[0] != '/' ==> r is Some && r->Some_0.view() == parent_of(self.view()),
            { unimplemented!() }
        }
        pub uninterp spec fn parent_of(s: Seq<char>) -> Seq<char>;
        // the folder of a file given as folder/name
        pub axiom fn ax_parent(d: Seq<char>, n: Seq<char>)
            requires d.len() > 0, d.last() != '/', d.last() != '.', n.len() > 1, !n.contains('/')
            ensures parent_of(d + seq!['/'] + n) == d;
    }
    pub trait VpPathArg { spec fn vp_path(&self) -> Seq<char>; }
    impl VpPathArg for str { open spec fn vp_path(&self) -> Seq<char> { self@ } }
    impl VpPathArg for String { open spec fn vp_path(&self) -> Seq<char> { self@ } }
    impl VpPathArg for path::Path { open spec fn vp_path(&self) -> Seq<char> { self.view() } }
    impl<'a, T: VpPathArg + ?Sized> VpPathArg for &'a T { open spec fn vp_path(&self) -> Seq<char> { (**self).vp_path() } }
    pub mod fs {
        use vstd::prelude::*;
        use crate::vp_ext::{io, World, WriteEv, VpPathArg};
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct File { x: u8 }
        impl File {
            pub uninterp spec fn path(&self) -> Seq<char>;
            pub uninterp spec fn append(&self) -> bool;
            // what is left to read, where it is text
            pub uninterp spec fn text(&self) -> Option<Seq<char>>;
            #[verifier::external_body]
            pub fn open<P: VpPathArg>(p: P, w: &mut World) -> (r: io::Result<File>)
                ensures *final(w) == *old(w), old(w).texts().contains_key(p.vp_path()) ==> r is Ok, r is Ok ==> r->Ok_0.path() == p.vp_path(),
                    r is Ok ==> r->Ok_0.text() == text_at(old(w), p.vp_path()),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn create<P: VpPathArg>(p: P, w: &mut World) -> (r: io::Result<File>)
                ensures p.vp_path().len() > 0 && old(w).dirs().contains(crate::vp_ext::path::parent_of(p.vp_path())) ==> r is Ok, r is Ok ==> r->Ok_0.path() == p.vp_path(),
                    final(w).truncated() == old(w).truncated().insert(p.vp_path()), final(w).writes() == old(w).writes(),
                    final(w).dirs() == old(w).dirs(), final(w).saved() == old(w).saved(), final(w).sends() == old(w).sends(), final(w).udp() == old(w).udp(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn read_to_string(&mut self, s: &mut String) -> (r: io::Result<usize>)
                ensures r is Ok <==> old(self).text() is Some, r is Ok && old(s)@.len() == 0 ==> final(s)@ == old(self).text()->Some_0, r is Ok ==> final(s)@ == old(s)@ + old(self).text()->Some_0 && final(self).text() == Some(Seq::<char>::empty()), final(self).path() == old(self).path(),
            { unimplemented!() }
        }
        pub open spec fn text_at(w: &World, p: Seq<char>) -> Option<Seq<char>> { if w.texts().contains_key(p) { Some(w.texts()[p]) } else { None } }
        #[verifier::external_body]
        pub fn read_to_string<P: VpPathArg>(p: P, w: &mut World) -> (r: io::Result<String>)
            ensures *final(w) == *old(w), r is Ok <==> text_at(old(w), p.vp_path()) is Some, r is Ok ==> r->Ok_0@ == text_at(old(w), p.vp_path())->Some_0,
        { unimplemented!() }
        #[verifier::external_body]
        pub fn create_dir_all<P: VpPathArg>(p: P, w: &mut World) -> (r: io::Result<()>)
            ensures r is Ok, final(w).dirs() == old(w).dirs().insert(p.vp_path()), final(w).writes() == old(w).writes(), final(w).texts() == old(w).texts(),
                final(w).truncated() == old(w).truncated(), final(w).saved() == old(w).saved(), final(w).sends() == old(w).sends(), final(w).udp() == old(w).udp(),
        { unimplemented!() }
        pub struct OpenOptions { pub w: bool, pub c: bool, pub t: bool, pub a: bool, pub r: bool, pub n: bool }
        impl OpenOptions {
            pub fn new() -> (r: Self) ensures r == (OpenOptions { w: false, c: false, t: false, a: false, r: false, n: false }) { OpenOptions { w: false, c: false, t: false, a: false, r: false, n: false } }
            pub fn write(self, b: bool) -> (r: Self) ensures r == (OpenOptions { w: b, ..self }) { OpenOptions { w: b, ..self } }
            pub fn read(self, b: bool) -> (r: Self) ensures r == (OpenOptions { r: b, ..self }) { OpenOptions { r: b, ..self } }
            pub fn create(self, b: bool, w: &mut World) -> (r: Self) ensures r == (OpenOptions { c: b, ..self }), *final(w) == *old(w) { OpenOptions { c: b, ..self } }
            pub fn create_new(self, b: bool) -> (r: Self) ensures r == (OpenOptions { n: b, ..self }) { OpenOptions { n: b, ..self } }
            pub fn truncate(self, b: bool) -> (r: Self) ensures r == (OpenOptions { t: b, ..self }) { OpenOptions { t: b, ..self } }
            pub fn append(self, b: bool) -> (r: Self) ensures r == (OpenOptions { a: b, ..self }) { OpenOptions { a: b, ..self } }
            // opening to write a file of an existing folder succeeds (permissions and disk are not modelled)
            #[verifier::external_body]
            pub fn open<P: VpPathArg>(self, p: P, w: &mut World) -> (r: io::Result<File>)
                ensures self.w && self.c && !self.n && (p.vp_path().len() > 0 && old(w).dirs().contains(crate::vp_ext::path::parent_of(p.vp_path()))) ==> r is Ok,
                    r is Ok ==> r->Ok_0.path() == p.vp_path() && r->Ok_0.append() == self.a,
                    final(w).truncated() == if self.t { old(w).truncated().insert(p.vp_path()) } else { old(w).truncated() },
                    final(w).writes() == old(w).writes(), final(w).dirs() == old(w).dirs(), final(w).saved() == old(w).saved(), final(w).sends() == old(w).sends(), final(w).udp() == old(w).udp(),
            { unimplemented!() }
        }
        pub trait FileExt {
            spec fn vp_p(&self) -> Seq<char>;
            spec fn vp_a(&self) -> bool;
            fn write_all_at(&self, b: &[u8], off: u64, w: &mut World) -> (r: io::Result<()>)
                ensures r is Ok,
                    !self.vp_a() ==> final(w).writes() == old(w).writes().push(WriteEv { path: self.vp_p(), off: off as nat, data: b@ }),
                    final(w).truncated() == old(w).truncated(), final(w).dirs() == old(w).dirs(), final(w).saved() == old(w).saved(), final(w).sends() == old(w).sends(), final(w).udp() == old(w).udp();
            fn write_at(&self, b: &[u8], off: u64, w: &mut World) -> (r: io::Result<usize>)
                ensures r is Ok, r->Ok_0 <= b@.len(),
                    !self.vp_a() ==> final(w).writes() == old(w).writes().push(WriteEv { path: self.vp_p(), off: off as nat, data: b@.take(r->Ok_0 as int) }),
                    final(w).truncated() == old(w).truncated(), final(w).dirs() == old(w).dirs(), final(w).saved() == old(w).saved(), final(w).sends() == old(w).sends(), final(w).udp() == old(w).udp();
        }
        impl FileExt for File {
            open spec fn vp_p(&self) -> Seq<char> { self.path() }
            open spec fn vp_a(&self) -> bool { self.append() }
            #[verifier::external_body] fn write_all_at(&self, b: &[u8], off: u64, w: &mut World) -> (r: io::Result<()>) { unimplemented!() }
            #[verifier::external_body] fn write_at(&self, b: &[u8], off: u64, w: &mut World) -> (r: io::Result<usize>) { unimplemented!() }
        }
    }

    // ---------------------------------------------------------------- crates
    pub mod sha1 {
        use vstd::prelude::*;
        // the hash function itself: 20 bytes, otherwise uninterpreted
        pub uninterp spec fn sha1_of(b: Seq<u8>) -> Seq<u8>;
        #[verifier::external_body]
        pub struct Sha1 { x: u8 }
        #[verifier::external_body]
        pub struct Output { x: u8 }
        pub trait Digest {}
        impl Sha1 {
            #[verifier::external_body]
            pub fn digest<B: crate::vp_ext::VpBytes>(b: B) -> (r: Output) ensures r.view() == sha1_of(b.vp_b()), r.view().len() == 20 { unimplemented!() }
        }
        impl Output {
            pub uninterp spec fn view(&self) -> Seq<u8>;
            #[verifier::external_body]
            pub fn as_slice(&self) -> (r: &[u8]) ensures r@ == self.view() { unimplemented!() }
            #[verifier::external_body]
            pub fn vp_to_vec(&self) -> (r: Vec<u8>) ensures r@ == self.view() { unimplemented!() }
        }
    }
    pub mod serde_json {
        use vstd::prelude::*;
        use crate::vp_ext::World;
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct Error { x: u8 }
        #[verifier::external_body]
        pub fn from_str<T>(s: &str) -> (r: core::result::Result<T, Error>)
            ensures r is Ok <==> value_of::<T>(s@) is Some, r is Ok ==> r->Ok_0 == value_of::<T>(s@)->Some_0,
        { unimplemented!() }
        // what a text means as a value of the type, and the text of a value
        pub uninterp spec fn value_of<T>(s: Seq<char>) -> Option<T>;
        pub uninterp spec fn text_of<T>(v: T) -> Seq<char>;
        #[verifier::external_body]
        pub fn to_writer<T>(f: &crate::vp_ext::fs::File, v: &T, w: &mut World) -> (r: core::result::Result<(), Error>)
            ensures final(w).saved() == old(w).saved().push((f.path(), text_of(*v))), final(w).writes() == old(w).writes(),
                final(w).truncated() == old(w).truncated(), final(w).dirs() == old(w).dirs(), final(w).sends() == old(w).sends(), final(w).udp() == old(w).udp(),
        { unimplemented!() }
    }
    pub mod urlencoding {
        use vstd::prelude::*;
        // percent-encoding of bytes
        pub open spec fn unreserved(x: u8) -> bool { 48 <= x <= 57 || 65 <= x <= 90 || 97 <= x <= 122 || x == 45 || x == 46 || x == 95 || x == 126 }
        pub open spec fn hex_digit(d: u8) -> char { if d < 10 { (d + 48) as u8 as char } else { (d + 55) as u8 as char } }
        pub open spec fn pct1(x: u8) -> Seq<char> { if unreserved(x) { seq![x as char] } else { seq!['%', hex_digit(x / 16), hex_digit(x % 16)] } }
        pub open spec fn pct(b: Seq<u8>) -> Seq<char> decreases b.len() { if b.len() == 0 { Seq::empty() } else { pct(b.drop_last()) + pct1(b.last()) } }
        pub proof fn lemma_pct(b: Seq<u8>)
            ensures pct(b).len() >= b.len(), !pct(b).contains('/')
            decreases b.len()
        {
            if b.len() > 0 {
                lemma_pct(b.drop_last());
                let x = b.last();
                assert(!pct1(x).contains('/')) by { if unreserved(x) { assert(x as char != '/'); } else { assert(hex_digit(x / 16) != '/' && hex_digit(x % 16) != '/'); } }
                assert forall|i: int| 0 <= i < pct(b).len() implies #[trigger] pct(b)[i] != '/' by {
                    let l = pct(b.drop_last());
                    if i < l.len() { assert(l.contains(l[i])); assert(pct(b)[i] == l[i]); } else { assert(pct(b)[i] == pct1(x)[i - l.len()]); assert(pct1(x).contains(pct1(x)[i - l.len()])); }
                }
            }
        }
        #[verifier::external_body]
        pub struct Cow { x: u8 }
        impl Cow {
            pub uninterp spec fn view(&self) -> Seq<char>;
            #[verifier::external_body]
            pub fn vp_into_owned(self) -> (r: String) ensures r@ == self.view() { unimplemented!() }
            #[verifier::external_body]
            pub fn vp_to_string(&self) -> (r: String) ensures r@ == self.view() { unimplemented!() }
        }
        #[verifier::external_body]
        pub fn encode_binary(b: &[u8]) -> (r: Cow) ensures r.view() == pct(b@) { unimplemented!() }
    }
    pub mod url {
        use vstd::prelude::*;
        #[verifier::external_body]
        pub struct Url { x: u8 }
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct ParseError { x: u8 }
        pub uninterp spec fn is_url(s: Seq<char>) -> bool;
        pub uninterp spec fn parsed(s: Seq<char>) -> Url;
        impl Clone for Url { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        impl Url {
            pub uninterp spec fn text(&self) -> Seq<char>;
            pub uninterp spec fn sscheme(&self) -> Seq<char>;
            pub uninterp spec fn shost(&self) -> Option<Seq<char>>;
            pub uninterp spec fn sport(&self) -> Option<u16>;
            #[verifier::external_body]
            pub fn parse(s: &str) -> (r: core::result::Result<Url, ParseError>) ensures match r { Ok(u) => is_url(s@) && u == parsed(s@), Err(_) => !is_url(s@) } { unimplemented!() }
            #[verifier::external_body]
            pub fn scheme(&self) -> (r: &str) ensures r@ == self.sscheme() { unimplemented!() }
            #[verifier::external_body]
            pub fn as_str(&self) -> (r: &str) ensures r@ == self.text() { unimplemented!() }
            #[verifier::external_body]
            pub fn host_str(&self) -> (r: Option<&str>)
                ensures match r { Some(h) => self.shost() == Some(h@), None => self.shost() is None },
            { unimplemented!() }
            #[verifier::external_body]
            pub fn port(&self) -> (r: Option<u16>) ensures r == self.sport() { unimplemented!() }
        }
    }
    pub mod ureq {
        use vstd::prelude::*;
        use crate::vp_ext::io;
        #[verifier::external_body]
        pub struct Request { x: u8 }
        #[verifier::external_body]
        pub struct Response { x: u8 }
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct Error { x: u8 }
        #[verifier::external_body]
        pub struct Reader { x: u8 }
        impl Request { pub uninterp spec fn url(&self) -> Seq<char>; }
        // the body some server answered to a GET of this address
        impl Response { pub uninterp spec fn body(&self) -> Seq<u8>; pub uninterp spec fn complete(&self) -> bool; }
        impl Reader { pub uninterp spec fn body(&self) -> Seq<u8>; pub uninterp spec fn complete(&self) -> bool; }
        // what a GET of this address yields, nothing if it fails: one answer per address, whenever it is asked
        pub uninterp spec fn served(url: Seq<char>) -> Option<Response>;
        #[verifier::external_body]
        pub fn get(u: &str) -> (r: Request) ensures r.url() == u@ { unimplemented!() }
        impl Request {
            #[verifier::external_body]
            pub fn timeout(self, d: crate::vp_ext::time::Duration) -> (r: Request) ensures r.url() == self.url() { unimplemented!() }
            #[verifier::external_body]
            pub fn set(self, a: &str, b: &str) -> (r: Request) ensures r.url() == self.url() { unimplemented!() }
            #[verifier::external_body]
            pub fn call(self) -> (r: core::result::Result<Response, Error>) ensures match r { Ok(a) => served(self.url()) == Some(a), Err(_) => served(self.url()) is None } { unimplemented!() }
        }
        impl Response {
            #[verifier::external_body]
            pub fn into_reader(self) -> (r: Reader) ensures r.body() == self.body(), r.complete() == self.complete() { unimplemented!() }
        }
        impl Reader {
            #[verifier::external_body]
            pub fn read_to_end(self, v: &mut Vec<u8>) -> (r: io::Result<usize>)
                ensures r is Ok <==> self.complete(), r is Ok ==> final(v)@ == old(v)@ + self.body(),
            { unimplemented!() }
        }
    }
    pub mod tokio { pub mod net {
        use vstd::prelude::*;
        use crate::vp_ext::{io, World, UdpEv, same_fs};
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct UdpSocket { x: u8 }
        #[verifier::external_body]
        pub struct From { x: u8 }
        // a datagram of which the first n bytes are in the buffer: all of it, or as much as the buffer holds
        pub open spec fn received(e: UdpEv, buf: Seq<u8>, n: nat) -> bool {
            e is Received && n <= buf.len() && n <= e->Received_0.len() && (n < e->Received_0.len() ==> n == buf.len())
                && forall|i: int| 0 <= i < n ==> #[trigger] buf[i] == e->Received_0[i]
        }
        // the system has no socket left
        pub uninterp spec fn no_sockets() -> bool;
        // no packet can be sent there
        pub uninterp spec fn unresolved(a: Seq<char>) -> bool;
        impl UdpSocket {
            #[verifier::external_body]
            pub fn bind(a: &str) -> (r: io::Result<UdpSocket>) ensures r is Err && a@ == "0.0.0.0:0"@ ==> no_sockets() { unimplemented!() }
            #[verifier::external_body]
            pub fn connect(&self, a: String, w: &mut World) -> (r: io::Result<()>)
                ensures r is Err ==> unresolved(a@), final(w).udp() == old(w).udp().push(UdpEv::Connect(a@)), same_fs(old(w), final(w)), final(w).sends() == old(w).sends(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn send(&self, b: &[u8], w: &mut World) -> (r: io::Result<usize>)
                ensures final(w).udp() == old(w).udp().push(UdpEv::Sent(b@)), same_fs(old(w), final(w)), final(w).sends() == old(w).sends(),
            { unimplemented!() }
            // one datagram, cut at the size of the buffer
            #[verifier::external_body]
            pub fn recv_from(&self, b: &mut [u8], w: &mut World) -> (r: io::Result<(usize, From)>)
                ensures final(b)@.len() == old(b)@.len(), same_fs(old(w), final(w)), final(w).sends() == old(w).sends(),
                    match r {
                        Ok((n, _)) => n <= old(b)@.len() && final(b)@.skip(n as int) == old(b)@.skip(n as int)
                            && final(w).udp() == old(w).udp().push(final(w).udp().last())
                            && received(final(w).udp().last(), final(b)@, n as nat),
                        Err(_) => final(b)@ == old(b)@ && final(w).udp() == old(w).udp(),
                    },
            { unimplemented!() }
        }
    } }
    pub mod rand {
        use vstd::prelude::*;
        use crate::vp_ext::VpIter;
        #[verifier::external_body]
        pub struct ThreadRng { x: u8 }
        #[verifier::external_body]
        pub fn thread_rng() -> (r: ThreadRng) { unimplemented!() }
        pub mod distributions { use vstd::prelude::*; pub struct Alphanumeric; }
        pub mod seq { pub trait SliceRandom {} }
        pub trait Rng {}
        pub open spec fn is_alnum(c: char) -> bool { ('0' <= c && c <= '9') || ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
        // as many samples as are asked for
        #[verifier::external_body]
        pub struct Samples { x: u8 }
        #[verifier::external_body]
        pub struct Chars { x: u8 }
        impl ThreadRng {
            #[verifier::external_body]
            pub fn sample_iter(self, d: &distributions::Alphanumeric) -> (r: Samples) { unimplemented!() }
        }
        impl Samples {
            #[verifier::external_body]
            pub fn take(self, n: usize) -> (r: VpIter<u8>)
                ensures r@.len() == n, forall|i: int| 0 <= i < n ==> is_alnum((#[trigger] r@[i]) as char),
            { unimplemented!() }
        }
    }
    #[verifier::external_body]
    pub fn vp_char_from(b: u8) -> (r: char) ensures r == b as char { unimplemented!() }

    pub mod actix {
        use vstd::prelude::*;
        use crate::vp_ext::{World, SendEv, same_fs};
        // `msg_ok`: what the sender of a message guarantees and its receiver relies on
        pub trait Message: Sized { spec fn mv(&self) -> crate::vp_msg::MsgView; spec fn msg_ok(&self) -> bool; }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        pub struct Addr<A> { x: core::marker::PhantomData<A> }
        #[derive(Debug)]
        #[verifier::external_body]
        pub struct MailboxError { x: u8 }
        impl<A> Addr<A> {
            pub uninterp spec fn id(&self) -> int;
            // the state the actor was started with
            pub uninterp spec fn init(&self) -> A;
            #[verifier::external_body]
            pub fn do_send<M: Message>(&self, m: M, w: &mut World)
                requires m.msg_ok(),
                ensures final(w).sends() == old(w).sends().push(SendEv { to: self.id(), msg: m.mv(), sure: true }), same_fs(old(w), final(w)), final(w).udp() == old(w).udp(), final(w).started() == old(w).started(),
            { unimplemented!() }
            #[verifier::external_body]
            pub fn try_send<M: Message>(&self, m: M, w: &mut World) -> (r: core::result::Result<(), MailboxError>)
                requires m.msg_ok(),
                ensures final(w).sends() == old(w).sends().push(SendEv { to: self.id(), msg: m.mv(), sure: false }), same_fs(old(w), final(w)), final(w).udp() == old(w).udp(), final(w).started() == old(w).started(),
            { unimplemented!() }
        }
        impl<A> Clone for Addr<A> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        pub struct Context<A> { x: core::marker::PhantomData<A> }
        #[verifier::external_body]
        #[verifier::reject_recursive_types(A)]
        pub struct SyncContext<A> { x: core::marker::PhantomData<A> }
        impl<A> Context<A> {
            pub uninterp spec fn id(&self) -> int;
            #[verifier::external_body]
            pub fn address(&self) -> (r: Addr<A>) ensures r.id() == self.id() { unimplemented!() }
            // a mailbox smaller than actix makes it (16; 0: without bound) loses what is offered with try_send
            #[verifier::external_body]
            pub fn set_mailbox_capacity(&mut self, n: usize) requires n == 0 || n >= 16 ensures final(self).id() == old(self).id() { unimplemented!() }
        }
        pub struct SyncArbiter;
        impl SyncArbiter {
            // an arbiter of no threads answers no message
            #[verifier::external_body]
            pub fn start<A, F: Fn() -> A>(n: usize, f: F) -> (r: Addr<A>) requires n > 0 { unimplemented!() }
        }
        pub trait VpActor: Sized {
            fn start(self, w: &mut World) -> (r: Addr<Self>)
                ensures r.init() == self, final(w).started() == old(w).started().push(r.id()), final(w).sends() == old(w).sends(), same_fs(old(w), final(w)), final(w).udp() == old(w).udp();
        }
        impl<A> VpActor for A { #[verifier::external_body] fn start(self, w: &mut World) -> (r: Addr<Self>) { unimplemented!() } }
        pub mod prelude { pub use super::{Addr, Context, SyncContext, SyncArbiter, Message, VpActor}; }
    }
    pub mod actix_web {
        use vstd::prelude::*;
        pub mod web {
            use vstd::prelude::*;
            pub struct Data<T> { pub v: T }
            impl<T> core::ops::Deref for Data<T> { type Target = T; #[verifier::external_body] fn deref(&self) -> (r: &T) ensures *r == self.v { unimplemented!() } }
        }
        pub struct App;
        pub struct HttpServer;
        pub mod post {}
        pub mod get {}
        pub struct HttpResponse { pub status: u16 }
        pub struct HttpResponseBuilder { pub status: u16 }
        impl HttpResponse {
            pub fn BadRequest() -> (r: HttpResponseBuilder) ensures r.status == 400 { HttpResponseBuilder { status: 400 } }
            pub fn Ok() -> (r: HttpResponseBuilder) ensures r.status == 200 { HttpResponseBuilder { status: 200 } }
            pub fn InternalServerError() -> (r: HttpResponseBuilder) ensures r.status == 500 { HttpResponseBuilder { status: 500 } }
        }
        pub trait VpBody {}
        impl VpBody for String {}
        impl<'a> VpBody for &'a str {}
        impl HttpResponseBuilder {
            #[verifier::external_body]
            pub fn body<B: VpBody>(self, b: B) -> (r: HttpResponse) ensures r.status == self.status { unimplemented!() }
            #[verifier::external_body]
            pub fn finish(self) -> (r: HttpResponse) ensures r.status == self.status { unimplemented!() }
        }
    }

    // ---------------------------------------------------------------- methods of standard types (renamed vp_*)
    pub mod exts {
        use vstd::prelude::*;
        use crate::vp_ext::*;
        pub trait VpAffix<T> {
            spec fn vp_af(&self) -> Seq<T>;
            #[verifier::external_body]
            fn vp_starts_with<N: VpSeq<T>>(&self, n: N) -> (r: bool) ensures r == prefix(n.vp_sq(), self.vp_af()) { unimplemented!() }
            #[verifier::external_body]
            fn vp_ends_with<N: VpSeq<T>>(&self, n: N) -> (r: bool) ensures r == suffix(n.vp_sq(), self.vp_af()) { unimplemented!() }
        }
        impl VpAffix<char> for str { open spec fn vp_af(&self) -> Seq<char> { self@ } }
        impl VpAffix<char> for String { open spec fn vp_af(&self) -> Seq<char> { self@ } }
        impl VpAffix<u8> for [u8] { open spec fn vp_af(&self) -> Seq<u8> { self@ } }
        impl VpAffix<u8> for Vec<u8> { open spec fn vp_af(&self) -> Seq<u8> { self@ } }
        pub trait VpSeq<T>: Sized { spec fn vp_sq(self) -> Seq<T>; }
        impl VpSeq<char> for char { open spec fn vp_sq(self) -> Seq<char> { seq![self] } }
        impl<'a> VpSeq<char> for &'a str { open spec fn vp_sq(self) -> Seq<char> { self@ } }
        impl<'a> VpSeq<char> for &'a String { open spec fn vp_sq(self) -> Seq<char> { self@ } }
        impl<'a> VpSeq<u8> for &'a [u8] { open spec fn vp_sq(self) -> Seq<u8> { self@ } }
        impl<'a> VpSeq<u8> for &'a Vec<u8> { open spec fn vp_sq(self) -> Seq<u8> { self@ } }
        impl<'a, const N: usize> VpSeq<u8> for &'a [u8; N] { open spec fn vp_sq(self) -> Seq<u8> { self@ } }
        pub trait VpToString { spec fn vp_str(&self) -> Seq<char>; fn vp_to_string(&self) -> (r: String) ensures r@ == self.vp_str(); }
        impl VpToString for str { open spec fn vp_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
        impl VpToString for String { open spec fn vp_str(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
        impl VpToString for usize { open spec fn vp_str(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
        impl VpToString for u16 { open spec fn vp_str(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }
        impl VpToString for u8 { open spec fn vp_str(&self) -> Seq<char> { dec(*self as nat) } #[verifier::external_body] fn vp_to_string(&self) -> (r: String) { unimplemented!() } }

        pub trait VpToOwned { type O; spec fn vp_owned(&self, r: Self::O) -> bool; fn vp_to_owned(&self) -> (r: Self::O) ensures self.vp_owned(r); }
        impl VpToOwned for str { type O = String; open spec fn vp_owned(&self, r: String) -> bool { r@ == self@ } #[verifier::external_body] fn vp_to_owned(&self) -> (r: String) { unimplemented!() } }
        impl VpToOwned for String { type O = String; open spec fn vp_owned(&self, r: String) -> bool { r@ == self@ && r == *self } #[verifier::external_body] fn vp_to_owned(&self) -> (r: String) { unimplemented!() } }
        impl VpToOwned for [u8] { type O = Vec<u8>; open spec fn vp_owned(&self, r: Vec<u8>) -> bool { r@ == self@ } #[verifier::external_body] fn vp_to_owned(&self) -> (r: Vec<u8>) { unimplemented!() } }

        // to_vec: element-wise clone, taken to be the identity (u8, bool, String and derived clones)
        pub trait VpSlice<T> {
            spec fn vp_s(&self) -> Seq<T>;
            fn vp_to_vec(&self) -> (r: Vec<T>) ensures r@ == self.vp_s();
        }
        impl<T> VpSlice<T> for [T] {
            open spec fn vp_s(&self) -> Seq<T> { self@ }
            #[verifier::external_body] fn vp_to_vec(&self) -> (r: Vec<T>) { unimplemented!() }
        }
        // memory: no collection of this code holds elements of size zero, so lengths stay within isize::MAX (iterators excepted)
        pub trait VpLen { spec fn vp_n(&self) -> nat; spec fn vp_in_memory(&self) -> bool; fn vp_len(&self) -> (r: usize) ensures r as nat == self.vp_n(), self.vp_in_memory() ==> r <= 0x7fff_ffff_ffff_ffff; }
        impl<T> VpLen for [T] { open spec fn vp_n(&self) -> nat { self@.len() } open spec fn vp_in_memory(&self) -> bool { true } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }
        impl VpLen for str { open spec fn vp_n(&self) -> nat { encode_utf8(self@).len() } open spec fn vp_in_memory(&self) -> bool { true } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }
        impl VpLen for String { open spec fn vp_n(&self) -> nat { encode_utf8(self@).len() } open spec fn vp_in_memory(&self) -> bool { true } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }
        impl<T> VpLen for Vec<T> { open spec fn vp_n(&self) -> nat { self@.len() } open spec fn vp_in_memory(&self) -> bool { true } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }
        impl<T> VpLen for VpIter<T> { open spec fn vp_n(&self) -> nat { self@.len() } open spec fn vp_in_memory(&self) -> bool { false } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }
        impl<T> VpLen for std::collections::VecDeque<T> { open spec fn vp_n(&self) -> nat { self@.len() } open spec fn vp_in_memory(&self) -> bool { true } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }

        impl<K: VpKey, V> VpLen for HashMap<K, V> { open spec fn vp_n(&self) -> nat { self@.dom().len() } open spec fn vp_in_memory(&self) -> bool { false } #[verifier::external_body] fn vp_len(&self) -> (r: usize) { unimplemented!() } }

        // extend: the elements of a vector or slice, appended in order (T: Copy in the slice case)
        pub trait VpElems<T>: Sized { spec fn vp_e(self) -> Seq<T>; }
        impl<T> VpElems<T> for Vec<T> { open spec fn vp_e(self) -> Seq<T> { self@ } }
        impl<'a, T: Copy> VpElems<T> for &'a [T] { open spec fn vp_e(self) -> Seq<T> { self@ } }
        impl<'a, T: Copy> VpElems<T> for &'a Vec<T> { open spec fn vp_e(self) -> Seq<T> { self@ } }
        impl<T, const N: usize> VpElems<T> for [T; N] { open spec fn vp_e(self) -> Seq<T> { self@ } }
        impl<'a, T: Copy, const N: usize> VpElems<T> for &'a [T; N] { open spec fn vp_e(self) -> Seq<T> { self@ } }
        pub trait VpExtend<T> { spec fn vp_xv(&self) -> Seq<T>; fn vp_extend<S: VpElems<T>>(&mut self, s: S) ensures final(self).vp_xv() == old(self).vp_xv() + s.vp_e(); }
        impl<T> VpExtend<T> for Vec<T> { open spec fn vp_xv(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_extend<S: VpElems<T>>(&mut self, s: S) { unimplemented!() } }

        pub trait VpIterable<T> { spec fn vp_i(&self) -> Seq<T>; fn vp_iter<'a>(&'a self) -> (r: VpIter<&'a T>) ensures r@ == Seq::new(self.vp_i().len(), |i: int| &self.vp_i()[i]); }
        impl<T> VpIterable<T> for [T] { open spec fn vp_i(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_iter<'a>(&'a self) -> (r: VpIter<&'a T>) { unimplemented!() } }

        pub trait VpBe { spec fn vp_be(&self, r: Seq<u8>) -> bool; type A; fn vp_to_be_bytes(self) -> (r: Self::A) where Self: Sized ensures self.vp_be(Self::vp_v(r)); spec fn vp_v(a: Self::A) -> Seq<u8>; }
        impl VpBe for u32 { type A = [u8; 4]; open spec fn vp_be(&self, r: Seq<u8>) -> bool { r == be32(*self as nat) } open spec fn vp_v(a: [u8; 4]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
        impl VpBe for u16 { type A = [u8; 2]; open spec fn vp_be(&self, r: Seq<u8>) -> bool { r == be16(*self as nat) } open spec fn vp_v(a: [u8; 2]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 2]) { unimplemented!() } }
        impl VpBe for u8 { type A = [u8; 1]; open spec fn vp_be(&self, r: Seq<u8>) -> bool { r == seq![*self] } open spec fn vp_v(a: [u8; 1]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 1]) { unimplemented!() } }
        impl VpBe for u64 { type A = [u8; 8]; open spec fn vp_be(&self, r: Seq<u8>) -> bool { r == be64(*self as nat) } open spec fn vp_v(a: [u8; 8]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_be_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }
        // little endian
        pub trait VpLe { spec fn vp_le(&self, r: Seq<u8>) -> bool; type A; fn vp_to_le_bytes(self) -> (r: Self::A) where Self: Sized ensures self.vp_le(Self::vp_lv(r)); spec fn vp_lv(a: Self::A) -> Seq<u8>; }
        impl VpLe for u32 { type A = [u8; 4]; open spec fn vp_le(&self, r: Seq<u8>) -> bool { r == be32(*self as nat).reverse() } open spec fn vp_lv(a: [u8; 4]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_le_bytes(self) -> (r: [u8; 4]) { unimplemented!() } }
        impl VpLe for u16 { type A = [u8; 2]; open spec fn vp_le(&self, r: Seq<u8>) -> bool { r == be16(*self as nat).reverse() } open spec fn vp_lv(a: [u8; 2]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_le_bytes(self) -> (r: [u8; 2]) { unimplemented!() } }
        impl VpLe for u8 { type A = [u8; 1]; open spec fn vp_le(&self, r: Seq<u8>) -> bool { r == seq![*self] } open spec fn vp_lv(a: [u8; 1]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_le_bytes(self) -> (r: [u8; 1]) { unimplemented!() } }
        impl VpLe for u64 { type A = [u8; 8]; open spec fn vp_le(&self, r: Seq<u8>) -> bool { r == be64(*self as nat).reverse() } open spec fn vp_lv(a: [u8; 8]) -> Seq<u8> { a@ } #[verifier::external_body] fn vp_to_le_bytes(self) -> (r: [u8; 8]) { unimplemented!() } }

        #[derive(Debug)]
        pub struct SizeError { pub v: u8 }
        pub trait VpTry4 { fn vp_try_into(&self) -> (r: core::result::Result<[u8; 4], SizeError>) ensures r is Ok <==> self.vp_t4().len() == 4, r is Ok ==> r->Ok_0@ == self.vp_t4(); spec fn vp_t4(&self) -> Seq<u8>; }
        impl VpTry4 for [u8] { open spec fn vp_t4(&self) -> Seq<u8> { self@ } #[verifier::external_body] fn vp_try_into(&self) -> (r: core::result::Result<[u8; 4], SizeError>) { unimplemented!() } }

        #[derive(Debug)]
        pub struct ParseFail { pub v: u8 }
        pub trait VpParse: Sized { spec fn vp_parses(s: Seq<char>) -> bool; spec fn vp_parsed(s: Seq<char>) -> Self; }
        // decimal digits (an optional sign is accepted by the standard library), value at most usize::MAX
        pub open spec fn undec(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { undec(s.drop_last()) * 10 + ((s.last() as u32 - 48) as nat) } }
        pub open spec fn all_digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i]) }
        impl VpParse for usize {
            uninterp spec fn vp_parses(s: Seq<char>) -> bool;
            uninterp spec fn vp_parsed(s: Seq<char>) -> usize;
        }
        pub axiom fn ax_parse_usize(s: Seq<char>)
            requires all_digits(s)
            ensures <usize as VpParse>::vp_parses(s) <==> s.len() > 0 && undec(s) <= usize::MAX,
                <usize as VpParse>::vp_parses(s) ==> <usize as VpParse>::vp_parsed(s) as nat == undec(s);
        pub trait VpStr { spec fn vp_c(&self) -> Seq<char>;
            fn vp_parse<T: VpParse>(&self) -> (r: core::result::Result<T, ParseFail>)
                ensures r is Ok <==> T::vp_parses(self.vp_c()), r is Ok ==> r->Ok_0 == T::vp_parsed(self.vp_c());
        }
        impl VpStr for str { open spec fn vp_c(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_parse<T: VpParse>(&self) -> (r: core::result::Result<T, ParseFail>) { unimplemented!() } }

        // how many times one adds `s`, from a, before reaching b
        pub open spec fn ceil_div(n: nat, s: nat) -> nat { if s == 0 { 0 } else { ((n + s - 1) as nat) / s } }
        pub trait VpStep { spec fn vp_a(&self) -> nat; spec fn vp_z(&self) -> nat; fn vp_step_by(self, s: usize) -> (r: VpIter<usize>) where Self: Sized
            requires s > 0
            ensures r@.len() == ceil_div(if self.vp_z() > self.vp_a() { (self.vp_z() - self.vp_a()) as nat } else { 0 }, s as nat); }
        impl VpStep for core::ops::Range<usize> { open spec fn vp_a(&self) -> nat { self.start as nat } open spec fn vp_z(&self) -> nat { self.end as nat } #[verifier::external_body] fn vp_step_by(self, s: usize) -> (r: VpIter<usize>) { unimplemented!() } }

        pub trait VpChunks<T> { spec fn vp_k(&self) -> Seq<T>; fn vp_chunks_exact<'a>(&'a self, n: usize) -> (r: VpIter<&'a [T]>)
            requires n > 0
            ensures r@.len() == self.vp_k().len() / (n as nat), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.vp_k().subrange(i * n, i * n + n); }
        impl<T> VpChunks<T> for [T] { open spec fn vp_k(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_chunks_exact<'a>(&'a self, n: usize) -> (r: VpIter<&'a [T]>) { unimplemented!() } }

        pub trait VpJoin { spec fn vp_parts(&self) -> Seq<Seq<char>>; fn vp_join(&self, sep: &str) -> (r: String) ensures r@ == joined(self.vp_parts(), sep@); }
        pub open spec fn joined(p: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases p.len() {
            if p.len() == 0 { Seq::empty() } else if p.len() == 1 { p[0] } else { joined(p.drop_last(), sep) + sep + p.last() }
        }
        impl VpJoin for [String] { open spec fn vp_parts(&self) -> Seq<Seq<char>> { Seq::new(self@.len(), |i: int| self@[i]@) } #[verifier::external_body] fn vp_join(&self, sep: &str) -> (r: String) { unimplemented!() } }

        pub trait VpShuffle<T> { fn vp_shuffle(&mut self, rng: &mut crate::vp_ext::rand::ThreadRng)
            ensures final(self).vp_v().to_multiset() == old(self).vp_v().to_multiset(), final(self).vp_v().len() == old(self).vp_v().len(),
                forall|i: int| 0 <= i < final(self).vp_v().len() ==> old(self).vp_v().contains(#[trigger] final(self).vp_v()[i]),
                forall|i: int| 0 <= i < old(self).vp_v().len() ==> final(self).vp_v().contains(#[trigger] old(self).vp_v()[i]);
            spec fn vp_v(&self) -> Seq<T>; }
        impl<T> VpShuffle<T> for Vec<T> { open spec fn vp_v(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_shuffle(&mut self, rng: &mut crate::vp_ext::rand::ThreadRng) { unimplemented!() } }

        pub trait VpByte { spec fn vp_u(&self) -> u8;
            fn vp_is_ascii_digit(&self) -> (r: bool) ensures r == (48 <= self.vp_u() <= 57);
            fn vp_is_ascii_uppercase(&self) -> (r: bool) ensures r == (65 <= self.vp_u() <= 90);
            fn vp_is_ascii_lowercase(&self) -> (r: bool) ensures r == (97 <= self.vp_u() <= 122);
            fn vp_is_ascii_alphabetic(&self) -> (r: bool) ensures r == (65 <= self.vp_u() <= 90 || 97 <= self.vp_u() <= 122);
            fn vp_is_ascii_alphanumeric(&self) -> (r: bool) ensures r == (48 <= self.vp_u() <= 57 || 65 <= self.vp_u() <= 90 || 97 <= self.vp_u() <= 122);
            fn vp_is_ascii_hexdigit(&self) -> (r: bool) ensures r == (48 <= self.vp_u() <= 57 || 65 <= self.vp_u() <= 70 || 97 <= self.vp_u() <= 102);
        }
        impl VpByte for u8 { open spec fn vp_u(&self) -> u8 { *self }
            #[verifier::external_body] fn vp_is_ascii_digit(&self) -> (r: bool) { unimplemented!() }
            #[verifier::external_body] fn vp_is_ascii_uppercase(&self) -> (r: bool) { unimplemented!() }
            #[verifier::external_body] fn vp_is_ascii_lowercase(&self) -> (r: bool) { unimplemented!() }
            #[verifier::external_body] fn vp_is_ascii_alphabetic(&self) -> (r: bool) { unimplemented!() }
            #[verifier::external_body] fn vp_is_ascii_alphanumeric(&self) -> (r: bool) { unimplemented!() }
            #[verifier::external_body] fn vp_is_ascii_hexdigit(&self) -> (r: bool) { unimplemented!() }
        }
        pub trait VpCopied<T> { spec fn vp_o(&self) -> Option<&T>; fn vp_copied(self) -> (r: Option<T>) where Self: Sized
            ensures match self.vp_o() { Some(x) => r == Some(*x), None => r is None }; }
        impl<'a, T: Copy> VpCopied<T> for Option<&'a T> { open spec fn vp_o(&self) -> Option<&T> { *self } #[verifier::external_body] fn vp_copied(self) -> (r: Option<T>) { unimplemented!() } }
        pub use crate::vp_ext::cf::VpCf;
        pub trait VpOpt<T>: Sized {
            spec fn vp_op(self) -> Option<T>;
            fn vp_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
                requires self.vp_op() matches Some(x) ==> f.requires((x,)),
                ensures match self.vp_op() { Some(x) => f.ensures((x,), r), None => !r };
            fn vp_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>)
                requires self.vp_op() matches Some(x) ==> f.requires((&x,)),
                ensures match self.vp_op() { Some(x) => (r is None && f.ensures((&x,), false)) || (r == Some(x) && f.ensures((&x,), true)), None => r is None };
        }
        impl<T> VpOpt<T> for Option<T> { open spec fn vp_op(self) -> Option<T> { self }
            #[verifier::external_body] fn vp_is_some_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
            #[verifier::external_body] fn vp_filter<F: FnOnce(&T) -> bool>(self, f: F) -> (r: Option<T>) { unimplemented!() }
        }
        pub trait VpRes<T, E>: Sized {
            spec fn vp_re(self) -> core::result::Result<T, E>;
            fn vp_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool)
                requires self.vp_re() matches Ok(x) ==> f.requires((x,)),
                ensures match self.vp_re() { Ok(x) => f.ensures((x,), r), Err(_) => !r };
        }
        impl<T, E> VpRes<T, E> for core::result::Result<T, E> { open spec fn vp_re(self) -> core::result::Result<T, E> { self }
            #[verifier::external_body] fn vp_is_ok_and<F: FnOnce(T) -> bool>(self, f: F) -> (r: bool) { unimplemented!() }
        }
        // the value, or what stands in for it
        pub trait VpElseO<T>: Sized {
            spec fn vp_eo(self) -> Option<T>;
            fn vp_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T)
                requires self.vp_eo() is None ==> f.requires(()),
                ensures match self.vp_eo() { Some(x) => r == x, None => f.ensures((), r) };
            fn vp_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>)
                requires self.vp_eo() is None ==> f.requires(()),
                ensures match self.vp_eo() { Some(x) => r == Some(x), None => f.ensures((), r) };
            fn vp_or(self, o: Option<T>) -> (r: Option<T>)
                ensures r == match self.vp_eo() { Some(x) => Some(x), None => o };
            fn vp_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>)
                requires self.vp_eo() matches Some(x) ==> f.requires((x,)),
                ensures match self.vp_eo() { Some(x) => f.ensures((x,), r), None => r is None };
        }
        impl<T> VpElseO<T> for Option<T> { open spec fn vp_eo(self) -> Option<T> { self }
            #[verifier::external_body] fn vp_unwrap_or_else<F: FnOnce() -> T>(self, f: F) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn vp_or_else<F: FnOnce() -> Option<T>>(self, f: F) -> (r: Option<T>) { unimplemented!() }
            #[verifier::external_body] fn vp_or(self, o: Option<T>) -> (r: Option<T>) { unimplemented!() }
            #[verifier::external_body] fn vp_and_then<U, F: FnOnce(T) -> Option<U>>(self, f: F) -> (r: Option<U>) { unimplemented!() }
        }
        pub trait VpElseR<T, E>: Sized {
            spec fn vp_er(self) -> core::result::Result<T, E>;
            fn vp_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T)
                requires self.vp_er() matches Err(e) ==> f.requires((e,)),
                ensures match self.vp_er() { Ok(x) => r == x, Err(e) => f.ensures((e,), r) };
            fn vp_or_else<G, F: FnOnce(E) -> core::result::Result<T, G>>(self, f: F) -> (r: core::result::Result<T, G>)
                requires self.vp_er() matches Err(e) ==> f.requires((e,)),
                ensures match self.vp_er() { Ok(x) => r == core::result::Result::<T, G>::Ok(x), Err(e) => f.ensures((e,), r) };
            fn vp_or<G>(self, o: core::result::Result<T, G>) -> (r: core::result::Result<T, G>)
                ensures r == match self.vp_er() { Ok(x) => core::result::Result::<T, G>::Ok(x), Err(_) => o };
            fn vp_and_then<U, F: FnOnce(T) -> core::result::Result<U, E>>(self, f: F) -> (r: core::result::Result<U, E>)
                requires self.vp_er() matches Ok(x) ==> f.requires((x,)),
                ensures match self.vp_er() { Ok(x) => f.ensures((x,), r), Err(e) => r == core::result::Result::<U, E>::Err(e) };
        }
        impl<T, E> VpElseR<T, E> for core::result::Result<T, E> { open spec fn vp_er(self) -> core::result::Result<T, E> { self }
            #[verifier::external_body] fn vp_unwrap_or_else<F: FnOnce(E) -> T>(self, f: F) -> (r: T) { unimplemented!() }
            #[verifier::external_body] fn vp_or_else<G, F: FnOnce(E) -> core::result::Result<T, G>>(self, f: F) -> (r: core::result::Result<T, G>) { unimplemented!() }
            #[verifier::external_body] fn vp_or<G>(self, o: core::result::Result<T, G>) -> (r: core::result::Result<T, G>) { unimplemented!() }
            #[verifier::external_body] fn vp_and_then<U, F: FnOnce(T) -> core::result::Result<U, E>>(self, f: F) -> (r: core::result::Result<U, E>) { unimplemented!() }
        }
        pub trait VpDefault: Sized { spec fn is_default(self) -> bool; }
        impl VpDefault for usize { open spec fn is_default(self) -> bool { self == 0 } }
        impl VpDefault for u64 { open spec fn is_default(self) -> bool { self == 0 } }
        impl VpDefault for u32 { open spec fn is_default(self) -> bool { self == 0 } }
        impl VpDefault for u16 { open spec fn is_default(self) -> bool { self == 0 } }
        impl VpDefault for u8 { open spec fn is_default(self) -> bool { self == 0 } }
        impl VpDefault for bool { open spec fn is_default(self) -> bool { !self } }
        impl VpDefault for String { open spec fn is_default(self) -> bool { self@.len() == 0 } }
        impl<T> VpDefault for Vec<T> { open spec fn is_default(self) -> bool { self@.len() == 0 } }
        pub trait VpOrDefault<T: VpDefault>: Sized {
            spec fn vp_od(self) -> Option<T>;
            fn vp_unwrap_or_default(self) -> (r: T) ensures match self.vp_od() { Some(x) => r == x, None => r.is_default() };
        }
        impl<T: VpDefault> VpOrDefault<T> for Option<T> { open spec fn vp_od(self) -> Option<T> { self } #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: T) { unimplemented!() } }
        impl<T: VpDefault, E> VpOrDefault<T> for core::result::Result<T, E> { open spec fn vp_od(self) -> Option<T> { match self { Ok(x) => Some(x), Err(_) => None } } #[verifier::external_body] fn vp_unwrap_or_default(self) -> (r: T) { unimplemented!() } }
        // one element, a piece of text
        pub trait VpPlain {}
        impl VpPlain for u8 {} impl VpPlain for u16 {} impl VpPlain for u32 {} impl VpPlain for u64 {} impl VpPlain for usize {} impl VpPlain for char {}
        pub trait VpContains<P> { spec fn vp_in(&self, p: P) -> bool; fn vp_contains(&self, p: P) -> (r: bool) ensures r == self.vp_in(p); }
        impl<'a, T: VpPlain> VpContains<&'a T> for [T] { open spec fn vp_in(&self, p: &'a T) -> bool { self@.contains(*p) } #[verifier::external_body] fn vp_contains(&self, p: &'a T) -> (r: bool) { unimplemented!() } }
        pub open spec fn has_text(s: Seq<char>, p: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() - p.len() && #[trigger] s.subrange(i, i + p.len()) == p }
        impl VpContains<char> for str { open spec fn vp_in(&self, p: char) -> bool { self@.contains(p) } #[verifier::external_body] fn vp_contains(&self, p: char) -> (r: bool) { unimplemented!() } }
        impl<'a> VpContains<&'a str> for str { open spec fn vp_in(&self, p: &'a str) -> bool { has_text(self@, p@) } #[verifier::external_body] fn vp_contains(&self, p: &'a str) -> (r: bool) { unimplemented!() } }
        pub trait VpReverse<T> { spec fn vp_rs(&self) -> Seq<T>; fn vp_reverse(&mut self) ensures final(self).vp_rs() == old(self).vp_rs().reverse(); }
        impl<T> VpReverse<T> for Vec<T> { open spec fn vp_rs(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_reverse(&mut self) { unimplemented!() } }
        pub trait VpNum: Sized { spec fn vp_i(self) -> int;
            fn vp_div_ceil(self, b: Self) -> (r: Self) requires b.vp_i() > 0, ensures r.vp_i() == (self.vp_i() + b.vp_i() - 1) / b.vp_i();
            fn vp_abs_diff(self, b: Self) -> (r: Self) ensures r.vp_i() == if self.vp_i() < b.vp_i() { b.vp_i() - self.vp_i() } else { self.vp_i() - b.vp_i() };
        }
        impl VpNum for usize { open spec fn vp_i(self) -> int { self as int } #[verifier::external_body] fn vp_div_ceil(self, b: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vp_abs_diff(self, b: Self) -> (r: Self) { unimplemented!() } }
        impl VpNum for u64 { open spec fn vp_i(self) -> int { self as int } #[verifier::external_body] fn vp_div_ceil(self, b: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vp_abs_diff(self, b: Self) -> (r: Self) { unimplemented!() } }
        impl VpNum for u32 { open spec fn vp_i(self) -> int { self as int } #[verifier::external_body] fn vp_div_ceil(self, b: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vp_abs_diff(self, b: Self) -> (r: Self) { unimplemented!() } }
        impl VpNum for u16 { open spec fn vp_i(self) -> int { self as int } #[verifier::external_body] fn vp_div_ceil(self, b: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vp_abs_diff(self, b: Self) -> (r: Self) { unimplemented!() } }
        impl VpNum for u8 { open spec fn vp_i(self) -> int { self as int } #[verifier::external_body] fn vp_div_ceil(self, b: Self) -> (r: Self) { unimplemented!() } #[verifier::external_body] fn vp_abs_diff(self, b: Self) -> (r: Self) { unimplemented!() } }
        // texts and sequences that are put into another form; where the form does not matter to the code it stays unspecified
        pub uninterp spec fn trimmed(s: Seq<char>, end: int) -> Seq<char>;
        pub uninterp spec fn other_case(s: Seq<char>, which: int) -> Seq<char>;
        pub open spec fn low(b: u8) -> u8 { if 65 <= b <= 90 { (b + 32) as u8 } else { b } }
        pub open spec fn up(b: u8) -> u8 { if 97 <= b <= 122 { (b - 32) as u8 } else { b } }
        pub open spec fn all_low(s: Seq<u8>) -> Seq<u8> { Seq::new(s.len(), |i: int| low(s[i])) }
        pub trait VpText { spec fn vp_tx(&self) -> Seq<char>;
            fn vp_trim(&self) -> (r: &str) ensures r@ == trimmed(self.vp_tx(), 0), self.vp_tx().len() == 0 ==> r@.len() == 0;
            fn vp_trim_start(&self) -> (r: &str) ensures r@ == trimmed(self.vp_tx(), 1);
            fn vp_trim_end(&self) -> (r: &str) ensures r@ == trimmed(self.vp_tx(), 2);
            fn vp_to_lowercase(&self) -> (r: String) ensures r@ == other_case(self.vp_tx(), 0);
            fn vp_to_uppercase(&self) -> (r: String) ensures r@ == other_case(self.vp_tx(), 1);
            fn vp_strip_prefix<N: VpSeq<char>>(&self, n: N) -> (r: Option<&str>)
                ensures match r { Some(x) => self.vp_tx() == n.vp_sq() + x@, None => !prefix(n.vp_sq(), self.vp_tx()) };
        }
        impl VpText for str { open spec fn vp_tx(&self) -> Seq<char> { self@ }
            #[verifier::external_body] fn vp_trim(&self) -> (r: &str) { unimplemented!() }
            #[verifier::external_body] fn vp_trim_start(&self) -> (r: &str) { unimplemented!() }
            #[verifier::external_body] fn vp_trim_end(&self) -> (r: &str) { unimplemented!() }
            #[verifier::external_body] fn vp_to_lowercase(&self) -> (r: String) { unimplemented!() }
            #[verifier::external_body] fn vp_to_uppercase(&self) -> (r: String) { unimplemented!() }
            #[verifier::external_body] fn vp_strip_prefix<N: VpSeq<char>>(&self, n: N) -> (r: Option<&str>) { unimplemented!() }
        }
        pub trait VpAsciiCase<O: ?Sized> { spec fn vp_ac(&self) -> Seq<u8>; spec fn vp_oc(o: &O) -> Seq<u8>;
            fn vp_eq_ignore_ascii_case(&self, o: &O) -> (r: bool) ensures r == (all_low(self.vp_ac()) == all_low(Self::vp_oc(o))); }
        impl VpAsciiCase<str> for str { open spec fn vp_ac(&self) -> Seq<u8> { encode_utf8(self@) } open spec fn vp_oc(o: &str) -> Seq<u8> { encode_utf8(o@) } #[verifier::external_body] fn vp_eq_ignore_ascii_case(&self, o: &str) -> (r: bool) { unimplemented!() } }
        impl VpAsciiCase<String> for str { open spec fn vp_ac(&self) -> Seq<u8> { encode_utf8(self@) } open spec fn vp_oc(o: &String) -> Seq<u8> { encode_utf8(o@) } #[verifier::external_body] fn vp_eq_ignore_ascii_case(&self, o: &String) -> (r: bool) { unimplemented!() } }
        impl VpAsciiCase<[u8]> for [u8] { open spec fn vp_ac(&self) -> Seq<u8> { self@ } open spec fn vp_oc(o: &[u8]) -> Seq<u8> { o@ } #[verifier::external_body] fn vp_eq_ignore_ascii_case(&self, o: &[u8]) -> (r: bool) { unimplemented!() } }
        impl VpAsciiCase<Vec<u8>> for [u8] { open spec fn vp_ac(&self) -> Seq<u8> { self@ } open spec fn vp_oc(o: &Vec<u8>) -> Seq<u8> { o@ } #[verifier::external_body] fn vp_eq_ignore_ascii_case(&self, o: &Vec<u8>) -> (r: bool) { unimplemented!() } }
        impl<const N: usize> VpAsciiCase<[u8; N]> for [u8] { open spec fn vp_ac(&self) -> Seq<u8> { self@ } open spec fn vp_oc(o: &[u8; N]) -> Seq<u8> { o@ } #[verifier::external_body] fn vp_eq_ignore_ascii_case(&self, o: &[u8; N]) -> (r: bool) { unimplemented!() } }
        pub trait VpToCase { type O; spec fn vp_cased(&self, r: Self::O, which: int) -> bool;
            fn vp_to_ascii_lowercase(&self) -> (r: Self::O) ensures self.vp_cased(r, 0);
            fn vp_to_ascii_uppercase(&self) -> (r: Self::O) ensures self.vp_cased(r, 1); }
        impl VpToCase for u8 { type O = u8; open spec fn vp_cased(&self, r: u8, which: int) -> bool { r == if which == 0 { low(*self) } else { up(*self) } }
            #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> (r: u8) { unimplemented!() }
            #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: u8) { unimplemented!() } }
        impl VpToCase for [u8] { type O = Vec<u8>; open spec fn vp_cased(&self, r: Vec<u8>, which: int) -> bool { r@ == Seq::new(self@.len(), |i: int| if which == 0 { low(self@[i]) } else { up(self@[i]) }) }
            #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> (r: Vec<u8>) { unimplemented!() }
            #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: Vec<u8>) { unimplemented!() } }
        impl VpToCase for str { type O = String; open spec fn vp_cased(&self, r: String, which: int) -> bool { r@ == other_case(self@, 2 + which) }
            #[verifier::external_body] fn vp_to_ascii_lowercase(&self) -> (r: String) { unimplemented!() }
            #[verifier::external_body] fn vp_to_ascii_uppercase(&self) -> (r: String) { unimplemented!() } }
        pub uninterp spec fn deduped<T>(s: Seq<T>) -> Seq<T>;
        pub trait VpVec<T> { spec fn vp_vs(&self) -> Seq<T>;
            fn vp_swap(&mut self, a: usize, b: usize) requires a < old(self).vp_vs().len(), b < old(self).vp_vs().len(),
                ensures final(self).vp_vs() == old(self).vp_vs().update(a as int, old(self).vp_vs()[b as int]).update(b as int, old(self).vp_vs()[a as int]);
            fn vp_dedup(&mut self) ensures final(self).vp_vs() == deduped(old(self).vp_vs()), final(self).vp_vs().len() <= old(self).vp_vs().len();
            fn vp_sort(&mut self) ensures permuted(old(self).vp_vs(), final(self).vp_vs()), final(self).vp_vs().len() == old(self).vp_vs().len();
            fn vp_sort_unstable(&mut self) ensures permuted(old(self).vp_vs(), final(self).vp_vs()), final(self).vp_vs().len() == old(self).vp_vs().len();
        }
        impl<T> VpVec<T> for Vec<T> { open spec fn vp_vs(&self) -> Seq<T> { self@ }
            #[verifier::external_body] fn vp_swap(&mut self, a: usize, b: usize) { unimplemented!() }
            #[verifier::external_body] fn vp_dedup(&mut self) { unimplemented!() }
            #[verifier::external_body] fn vp_sort(&mut self) { unimplemented!() }
            #[verifier::external_body] fn vp_sort_unstable(&mut self) { unimplemented!() }
        }
        pub trait VpSlice2<T> { spec fn vp_s2(&self) -> Seq<T>;
            fn vp_split_last(&self) -> (r: Option<(&T, &[T])>)
                ensures match r { Some(x) => self.vp_s2().len() > 0 && *x.0 == self.vp_s2().last() && x.1@ == self.vp_s2().drop_last(), None => self.vp_s2().len() == 0 };
        }
        impl<T> VpSlice2<T> for [T] { open spec fn vp_s2(&self) -> Seq<T> { self@ }
            #[verifier::external_body] fn vp_split_last(&self) -> (r: Option<(&T, &[T])>) { unimplemented!() } }
        pub trait VpSwapBytes: Sized { spec fn vp_sb(self, r: Self) -> bool; fn vp_swap_bytes(self) -> (r: Self) ensures self.vp_sb(r); }
        impl VpSwapBytes for u32 { open spec fn vp_sb(self, r: u32) -> bool { be32(r as nat) == be32(self as nat).reverse() } #[verifier::external_body] fn vp_swap_bytes(self) -> (r: u32) { unimplemented!() } }
        impl VpSwapBytes for u16 { open spec fn vp_sb(self, r: u16) -> bool { be16(r as nat) == be16(self as nat).reverse() } #[verifier::external_body] fn vp_swap_bytes(self) -> (r: u16) { unimplemented!() } }
        pub trait VpConcat { spec fn vp_cc(&self) -> Seq<Vec<u8>>; fn vp_concat(&self) -> (r: Vec<u8>) ensures r@ == crate::vp_ext::flat_bytes(self.vp_cc()); }
        impl VpConcat for [Vec<u8>] { open spec fn vp_cc(&self) -> Seq<Vec<u8>> { self@ } #[verifier::external_body] fn vp_concat(&self) -> (r: Vec<u8>) { unimplemented!() } }
        pub trait VpMapOr<T> { spec fn vp_m(self) -> Option<T>; fn vp_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) where Self: Sized
            requires self.vp_m() is Some ==> f.requires((self.vp_m()->Some_0,)),
            ensures match self.vp_m() { Some(x) => f.ensures((x,), r), None => r == d }; }
        impl<T> VpMapOr<T> for Option<T> { open spec fn vp_m(self) -> Option<T> { self } #[verifier::external_body] fn vp_map_or<U, F: FnOnce(T) -> U>(self, d: U, f: F) -> (r: U) { unimplemented!() } }

        pub trait VpCmp { spec fn vp_k(&self) -> Seq<char>; fn vp_cmp(&self, o: &Self) -> (r: core::cmp::Ordering)
            ensures (r == core::cmp::Ordering::Less) == str_lt(self.vp_k(), o.vp_k()), (r == core::cmp::Ordering::Greater) == str_lt(o.vp_k(), self.vp_k()),
                (r == core::cmp::Ordering::Equal) == (self.vp_k() == o.vp_k()); }
        impl VpCmp for String { open spec fn vp_k(&self) -> Seq<char> { self@ } #[verifier::external_body] fn vp_cmp(&self, o: &Self) -> (r: core::cmp::Ordering) { unimplemented!() } }
        pub open spec fn in_order<T, F: Fn(&T, &T) -> core::cmp::Ordering>(f: F, a: T, b: T) -> bool { exists|o: core::cmp::Ordering| #[trigger] f.ensures((&a, &b), o) && o != core::cmp::Ordering::Greater }
        pub open spec fn is_perm(p: Seq<int>) -> bool { (forall|i: int| 0 <= i < p.len() ==> 0 <= #[trigger] p[i] < p.len()) && (forall|i: int, j: int| 0 <= i < j < p.len() ==> #[trigger] p[i] != #[trigger] p[j])
            && (forall|k: int| 0 <= k < p.len() ==> #[trigger] p.contains(k)) }
        pub open spec fn permuted<T>(a: Seq<T>, b: Seq<T>) -> bool { exists|p: Seq<int>| p.len() == a.len() && #[trigger] is_perm(p) && a.len() == b.len() && forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]] }
        pub trait VpSort<T> { spec fn vp_z(&self) -> Seq<T>; fn vp_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F)
            requires forall|a: &T, b: &T| #[trigger] f.requires((a, b)),
            ensures final(self).vp_z().len() == old(self).vp_z().len(),
                permuted(old(self).vp_z(), final(self).vp_z()),
                forall|i: int, j: int| 0 <= i < j < final(self).vp_z().len() ==> in_order(f, #[trigger] final(self).vp_z()[i], #[trigger] final(self).vp_z()[j]); }
        impl<T> VpSort<T> for Vec<T> { open spec fn vp_z(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vp_sort_by<F: Fn(&T, &T) -> core::cmp::Ordering>(&mut self, f: F) { unimplemented!() } }
    }
    pub mod vp_axioms {
        use vstd::prelude::*;
        use vstd::std_specs::cmp::PartialEqSpec;
        pub broadcast axiom fn ax_string_eq(a: String, b: String) ensures <String as PartialEqSpec>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
        pub broadcast axiom fn ax_vec_eq(a: Vec<u8>, b: Vec<u8>) ensures <Vec<u8> as PartialEqSpec>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(&a, &b) == (a@ == b@);
        pub broadcast axiom fn ax_vec_slice_obeys() ensures #[trigger] <Vec<u8> as PartialEqSpec<&[u8]>>::obeys_eq_spec();
        pub broadcast axiom fn ax_vec_slice_eq<'a>(a: Vec<u8>, b: &'a [u8]) ensures #[trigger] <Vec<u8> as PartialEqSpec<&'a [u8]>>::eq_spec(&a, &b) == (a@ == b@);
        pub broadcast axiom fn ax_slice_eq(a: &[u8], b: &[u8]) ensures <[u8] as PartialEqSpec>::obeys_eq_spec(), #[trigger] PartialEqSpec::eq_spec(a, b) == (a@ == b@);
        pub broadcast axiom fn ax_string_ext(a: String, b: String) requires #[trigger] a@ == #[trigger] b@ ensures a == b;
        // a Vec never holds more than isize::MAX bytes
        pub broadcast axiom fn ax_vec_len(v: Vec<u8>) ensures #[trigger] v@.len() <= 0x7fff_ffff_ffff_ffff;
        pub broadcast group group { ax_string_eq, ax_vec_eq, ax_slice_eq, ax_vec_slice_eq, ax_vec_slice_obeys }
    }
}

//VP_BODY//

} // verus!

fn main() {}
