//! The comparison of the implementation with the reference on one input.
#![allow(unused)]
use crate::dump::{Dump, Out};
use crate::peg::*;
use crate::vp;
use std::cmp::Ordering;
use std::hash::{Hash, Hasher};
use weedle::{Err, Parse};

pub const ACCEPTS_TOO_MUCH: u32 = 1;
pub const REJECTS_VALID: u32 = 2;
pub const CONSUMED: u32 = 3;
pub const TREE: u32 = 4;
pub const ERROR_KIND: u32 = 5;
pub const ERROR_POSITION: u32 = 6;
pub const REMAINDER: u32 = 7;
pub const SLICES: u32 = 8;

pub const EQ: u32 = 10;
pub const EQ_REFLEXIVE: u32 = 11;
pub const EQ_SYMMETRIC: u32 = 12;
pub const ORD_EQ: u32 = 13;
pub const ORD_ANTISYMMETRIC: u32 = 14;
pub const ORD_PARTIAL: u32 = 15;
pub const ORD_TREE: u32 = 16;
pub const HASH: u32 = 17;
pub const CLONE: u32 = 18;
pub const CONVERSION: u32 = 19;
pub const OPERATORS: u32 = 20;

pub const R_ACCEPT: u32 = 1;
pub const R_REJECT: u32 = 2;

fn within(s: &str, x: &str) -> bool {
    let (a, b) = (s.as_ptr() as usize, x.as_ptr() as usize);
    b >= a && b + x.len() <= a + s.len()
}
fn suffix(s: &str, x: &str) -> bool {
    within(s, x) && x.as_ptr() as usize + x.len() == s.as_ptr() as usize + s.len()
}
fn fold(t: &Tape) -> u64 {
    let mut h = t.len() as u64;
    for x in t {
        h = h.rotate_left(7) ^ *x as u64;
    }
    h
}

pub fn tree<T: Dump>(s: &str, ast: &T, want: &Tape) {
    let mut o = Out::new(s);
    ast.dump(&mut o);
    vp::check(!o.outside, SLICES);
    vp::check(o.t == *want, TREE);
    vp::out(fold(&o.t));
}

/// `diff` for the terminals.
#[cfg(feature = "terms")]
pub fn tdiff<T: Parse<'static> + Dump>(g: &'static G, s: &'static str) {
    compare::<T>(g, s)
}
#[cfg(not(feature = "terms"))]
pub fn tdiff<T: Parse<'static> + Dump>(_: &'static G, _: &'static str) {}
#[cfg(not(feature = "full"))]
pub fn diff<T: Parse<'static> + Dump>(_: &'static G, _: &'static str) {}
#[cfg(feature = "full")]
/// One rule, through the public parsing trait.
pub fn diff<T: Parse<'static> + Dump>(g: &'static G, s: &'static str) {
    compare::<T>(g, s)
}
fn compare<T: Parse<'static> + Dump>(g: &'static G, s: &'static str) {
    let r = T::parse(s);
    let mut rf = Ref::new(s.as_bytes());
    let want = rf.p(g, 0);
    match r {
        Ok((rem, ast)) => {
            vp::check(suffix(s, rem), REMAINDER);
            vp::check(want.is_some(), ACCEPTS_TOO_MUCH);
            let e = want.unwrap_or(0);
            vp::check(s.len() - rem.len() == e, CONSUMED);
            tree(s, &ast, &rf.t);
            vp::out(e as u64);
            vp::reach(R_ACCEPT);
        }
        Err(Err::Error((at, _))) => {
            vp::check(want.is_none(), REJECTS_VALID);
            vp::check(within(s, at), ERROR_POSITION);
            vp::out(u64::MAX);
            vp::reach(R_REJECT);
        }
        Err(_) => vp::check(false, ERROR_KIND),
    }
}

#[cfg(not(feature = "full"))]
pub fn whole(_: &'static str) {}
#[cfg(feature = "full")]
/// A whole document, through the entry point.
pub fn whole(s: &'static str) {
    let r = weedle::parse(s);
    let mut rf = Ref::new(s.as_bytes());
    let want = match rf.p(&DEFINITIONS, 0) {
        Some(e) => rf.trivia(e) == s.len(),
        None => false,
    };
    match r {
        Ok(ast) => {
            vp::check(want, ACCEPTS_TOO_MUCH);
            tree(s, &ast, &rf.t);
            vp::reach(R_ACCEPT);
        }
        Err(Err::Error((at, _))) => {
            vp::check(!want, REJECTS_VALID);
            vp::check(within(s, at), ERROR_POSITION);
            vp::out(u64::MAX);
            vp::reach(R_REJECT);
        }
        Err(_) => vp::check(false, ERROR_KIND),
    }
}

#[cfg(not(feature = "total"))]
pub fn total<T: Parse<'static>>(_: &'static str) {}
#[cfg(feature = "total")]
/// The result is a value or an error of the recoverable kind; nothing else is judged.
pub fn total<T: Parse<'static>>(s: &'static str) {
    match T::parse(s) {
        Ok((rem, _)) => {
            vp::out(rem.len() as u64);
            vp::reach(R_ACCEPT);
        }
        Err(Err::Error(_)) => {
            vp::out(u64::MAX);
            vp::reach(R_REJECT);
        }
        Err(_) => vp::check(false, ERROR_KIND),
    }
}
#[cfg(not(feature = "total"))]
pub fn total_whole(_: &'static str) {}
#[cfg(feature = "total")]
pub fn total_whole(s: &'static str) {
    match weedle::parse(s) {
        Ok(ast) => {
            vp::out(ast.len() as u64);
            vp::reach(R_ACCEPT);
        }
        Err(Err::Error((at, _))) => {
            vp::check(within(s, at), ERROR_POSITION);
            vp::out(u64::MAX);
            vp::reach(R_REJECT);
        }
        Err(_) => vp::check(false, ERROR_KIND),
    }
}

/// What a value feeds to a hasher.
struct Rec(Vec<u8>);
impl Hasher for Rec {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        0
    }
}
fn content<T: Dump>(s: &str, x: &T) -> Tape {
    let mut o = Out::new(s);
    o.content = true;
    x.dump(&mut o);
    o.t
}
fn ranked<T: Dump>(s: &str, x: &T) -> Tape {
    let mut o = Out::new(s);
    o.content = true;
    o.ranked = true;
    x.dump(&mut o);
    o.t
}
fn hashed<T: Hash>(x: &T) -> Vec<u8> {
    let mut h = Rec(Vec::with_capacity(256));
    x.hash(&mut h);
    h.0
}
fn lex(a: &Tape, b: &Tape) -> Ordering {
    let mut i = 0;
    loop {
        match (i < a.len(), i < b.len()) {
            (false, false) => return Ordering::Equal,
            (false, true) => return Ordering::Less,
            (true, false) => return Ordering::Greater,
            _ => {}
        }
        if a[i] < b[i] {
            return Ordering::Less;
        }
        if a[i] > b[i] {
            return Ordering::Greater;
        }
        i += 1;
    }
}

#[cfg(not(feature = "pair"))]
pub fn pair<T: Parse<'static> + Dump + Clone + Eq + Ord + Hash>(_: &'static str, _: &'static str) {}
#[cfg(feature = "pair")]
/// Equality, order, hash and clone of two parsed values agree with their contents.
pub fn pair<T: Parse<'static> + Dump + Clone + Eq + Ord + Hash>(s: &'static str, t: &'static str) {
    let (a, b) = match (T::parse(s), T::parse(t)) {
        (Ok((_, a)), Ok((_, b))) => (a, b),
        _ => return,
    };
    let (ta, tb) = (ranked(s, &a), ranked(t, &b));
    let same = ta == tb;
    vp::check((a == b) == same, EQ);
    vp::check((a != b) == !same, EQ);
    vp::check(a == a && b == b, EQ_REFLEXIVE);
    vp::check((b == a) == same, EQ_SYMMETRIC);
    let o = a.cmp(&b);
    vp::check((o == Ordering::Equal) == same, ORD_EQ);
    vp::check(b.cmp(&a) == o.reverse(), ORD_ANTISYMMETRIC);
    vp::check(a.partial_cmp(&b) == Some(o), ORD_PARTIAL);
    vp::check(o == lex(&ta, &tb), ORD_TREE);
    vp::check((a < b) == (o == Ordering::Less) && (a >= b) == (o != Ordering::Less), OPERATORS);
    if same {
        vp::check(hashed(&a) == hashed(&b), HASH);
        vp::reach(R_SAME);
    } else {
        vp::reach(R_DIFFERENT);
    }
    let c = a.clone();
    vp::check(c == a && c.cmp(&a) == Ordering::Equal, CLONE);
    vp::check(ranked(s, &c) == ta, CLONE);
    vp::check(hashed(&c) == hashed(&a), HASH);
    let mut d = b.clone();
    d.clone_from(&a);
    vp::check(ranked(s, &d) == ta, CLONE);
    vp::out(o as i8 as u8 as u64);
}
pub const R_SAME: u32 = 4;
pub const R_DIFFERENT: u32 = 8;

#[cfg(not(feature = "pair"))]
pub fn conv<S: Parse<'static> + Dump, E: From<S> + Dump>(_: &'static str, _: u32) {}
#[cfg(feature = "pair")]
/// A member converted into its enum is the variant that parsing yields.
pub fn conv<S: Parse<'static> + Dump, E: From<S> + Dump>(s: &'static str, variant: u32) {
    if let Ok((_, x)) = S::parse(s) {
        let mut want = vec![variant];
        want.extend_from_slice(&content(s, &x));
        let got = content(s, &E::from(x));
        vp::check(got == want, CONVERSION);
        vp::out(got.len() as u64);
        vp::reach(R_ACCEPT);
    }
}

#[cfg(not(feature = "accept"))]
pub fn accept<T: Parse<'static>>(_: &'static G, _: &'static str) {}
#[cfg(feature = "accept")]
/// Whether a text is accepted, and nothing else.
pub fn accept<T: Parse<'static>>(g: &'static G, s: &'static str) {
    let r = T::parse(s);
    let mut rf = Ref::new(s.as_bytes());
    judge(r.map(|_| ()), rf.p(g, 0).is_some());
}
#[cfg(not(feature = "accept"))]
pub fn accept_whole(_: &'static str) {}
#[cfg(feature = "accept")]
pub fn accept_whole(s: &'static str) {
    let r = weedle::parse(s);
    let mut rf = Ref::new(s.as_bytes());
    let want = match rf.p(&DEFINITIONS, 0) {
        Some(e) => rf.trivia(e) == s.len(),
        None => false,
    };
    judge(r.map(|_| ()), want);
}
fn judge(r: Result<(), Err<(&'static str, weedle::ErrorKind)>>, want: bool) {
    match r {
        Ok(()) => {
            vp::check(want, ACCEPTS_TOO_MUCH);
            vp::out(1);
            vp::reach(R_ACCEPT);
        }
        Err(Err::Error(_)) => {
            vp::check(!want, REJECTS_VALID);
            vp::out(0);
            vp::reach(R_REJECT);
        }
        Err(_) => vp::check(false, ERROR_KIND),
    }
}
