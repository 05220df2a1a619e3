//! Library features that a parser may come to use, run by the executor and natively.
#[path = "../../../harness/src/vp.rs"]
#[allow(dead_code)]
mod vp;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::collections::*;
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering::*};
use std::sync::{Arc, Mutex, OnceLock};

fn text(n: usize) -> String {
    let mut b = vec![];
    for i in 0..n {
        b.push(if i % 2 == 0 { vp::byte(b'a', b'c') } else { vp::byte(b' ', b'9') });
    }
    vp::text(&b);
    String::from_utf8(b).unwrap()
}
fn raw(n: usize) -> Vec<u8> {
    let mut b = vec![];
    for _ in 0..n {
        b.push(vp::byte(0, 255));
    }
    b
}
fn h(s: &[u8]) {
    let mut x = 7u64;
    for b in s {
        x = x.rotate_left(5) ^ *b as u64;
    }
    vp::out(x);
}
fn hs(s: &str) {
    h(s.as_bytes())
}
static HITS: AtomicUsize = AtomicUsize::new(0);
static TABLE: OnceLock<HashMap<&'static str, u32>> = OnceLock::new();
static LOCK: Mutex<Vec<u32>> = Mutex::new(Vec::new());
thread_local!(static DEPTH: Cell<u32> = Cell::new(0));
thread_local!(static MEMO: RefCell<HashMap<String, usize>> = RefCell::new(HashMap::new()));
thread_local!(static STACK: RefCell<Vec<String>> = RefCell::new(vec![]));

trait Shape {
    fn area(&self) -> u32;
    fn name(&self) -> String {
        String::from("shape")
    }
}
struct Sq(u32);
struct Re(u32, u32);
impl Shape for Sq {
    fn area(&self) -> u32 {
        self.0 * self.0
    }
}
impl Shape for Re {
    fn area(&self) -> u32 {
        self.0 * self.1
    }
    fn name(&self) -> String {
        format!("rect {}x{:02}", self.0, self.1)
    }
}
struct Noisy<'a>(&'a Cell<u32>);
impl<'a> Drop for Noisy<'a> {
    fn drop(&mut self) {
        self.0.set(self.0.get() + 1);
    }
}
#[derive(Debug, Clone, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Tok<'a> {
    Word(&'a str),
    Num(i64),
    Punct(char),
    List(Vec<Tok<'a>>),
}
fn lex(s: &str) -> Vec<Tok<'_>> {
    let mut v = vec![];
    let mut it = s.char_indices().peekable();
    while let Some((i, c)) = it.next() {
        if c.is_alphabetic() {
            let mut e = i + c.len_utf8();
            while let Some(&(j, d)) = it.peek() {
                if d.is_alphanumeric() {
                    e = j + d.len_utf8();
                    it.next();
                } else {
                    break;
                }
            }
            v.push(Tok::Word(&s[i..e]));
        } else if c.is_ascii_digit() {
            v.push(Tok::Num(c.to_digit(10).unwrap() as i64));
        } else if !c.is_whitespace() {
            v.push(Tok::Punct(c));
        }
    }
    v
}

pub const N: usize = 44;
#[no_mangle]
pub fn vp_main() {
    match vp::arg() {
        0 => {
            let s = text(4);
            for (i, w) in s.split(|c: char| c == ' ' || c == '-').enumerate() {
                vp::out(i as u64);
                hs(w);
            }
        }
        1 => {
            let s = text(4);
            hs(&format!("{:?} {} {:>8}|{:<6}|{:^5}|{:x}", s, s.len(), &s[..2], 7, 'x', 255));
        }
        2 => {
            let s = text(4);
            hs(&s.to_uppercase());
            hs(&s.to_ascii_uppercase());
            hs(s.trim());
            hs(s.trim_end_matches(char::is_numeric));
            hs(&s.replace("a", "<>"));
        }
        3 => {
            let mut m = HashMap::new();
            for k in ["a", "b", "ca", "a1"] {
                m.insert(k, k.len());
            }
            let s = text(2);
            vp::out(m.get(&s[..1]).copied().unwrap_or(99) as u64);
            vp::out(m.get(&s[..2]).copied().unwrap_or(99) as u64);
        }
        4 => {
            let set: HashSet<&str> = ["a", "b 1", "c9"].iter().copied().collect();
            let s = text(2);
            vp::out(set.contains(s.as_str()) as u64);
        }
        5 => {
            let mut m = BTreeMap::new();
            for b in raw(4) {
                *m.entry(b % 5).or_insert(0u64) += 1;
            }
            for (k, v) in &m {
                vp::out(*k as u64 * 100 + v);
            }
        }
        6 => {
            let mut v = raw(4);
            v.sort();
            h(&v);
            v.dedup();
            h(&v);
            v.reverse();
            h(&v);
        }
        7 => {
            let mut v: Vec<(u8, usize)> = raw(3).into_iter().zip(0..).collect();
            v.sort_by_key(|x| std::cmp::Reverse(x.0 / 64));
            for x in v {
                vp::out(x.1 as u64);
            }
        }
        8 => {
            let s = text(4);
            vp::out(s.find("a").unwrap_or(99) as u64);
            vp::out(s.rfind(|c: char| c.is_ascii_digit()).unwrap_or(99) as u64);
            vp::out(s.find("*/").unwrap_or(99) as u64);
            vp::out(s.matches('b').count() as u64);
        }
        9 => {
            for t in lex(&text(4)) {
                hs(&format!("{:?}", t));
            }
        }
        10 => {
            HITS.fetch_add(3, SeqCst);
            let b = raw(1)[0];
            if b > 10 {
                HITS.fetch_sub(1, Relaxed);
            }
            let _ = HITS.compare_exchange(3, 50, AcqRel, Acquire);
            vp::out(HITS.swap(0, SeqCst) as u64);
        }
        11 => {
            let t = TABLE.get_or_init(|| [("a", 1), ("b", 2), ("c5", 3)].into_iter().collect());
            vp::out(*t.get(&text(2)[..1]).unwrap_or(&0) as u64);
        }
        12 => {
            let b = raw(1)[0];
            LOCK.lock().unwrap().push(b as u32 / 100);
            let v = LOCK.lock().unwrap();
            vp::out(*v.last().unwrap() as u64);
        }
        13 => {
            DEPTH.with(|d| d.set(d.get() + 2));
            let r = if raw(1)[0] == 3 { 5 } else { DEPTH.with(|d| d.get()) };
            DEPTH.with(|d| d.set(0));
            vp::out(r as u64);
        }
        14 => {
            let s = text(2);
            MEMO.with(|m| m.borrow_mut().clear());
            for k in [&s[..1], &s[..2], &s[1..]] {
                MEMO.with(|m| *m.borrow_mut().entry(k.to_string()).or_insert(0) += k.len());
            }
            vp::out(MEMO.with(|m| m.borrow().len()) as u64);
        }
        15 => {
            STACK.with(|m| m.borrow_mut().push(text(1)));
            vp::out(STACK.with(|m| m.borrow_mut().pop()).unwrap().len() as u64);
        }
        16 => {
            let b = raw(2);
            let v: Vec<Box<dyn Shape>> = vec![Box::new(Sq(b[0] as u32 % 4)), Box::new(Re(b[1] as u32 % 3, 2))];
            for x in &v {
                vp::out(x.area() as u64);
                hs(&x.name());
            }
        }
        17 => {
            let s = text(3);
            let r: Result<u32, _> = s[1..2].parse::<u32>();
            vp::out(r.map(|x| x as u64).unwrap_or(1000));
            let f: Result<f64, _> = "1.25e2".parse::<f64>();
            vp::out(f.unwrap() as u64);
            vp::out(i64::from_str_radix("7f", 16).unwrap() as u64);
        }
        18 => {
            let b = raw(3);
            match std::str::from_utf8(&b) {
                Ok(s) => vp::out(s.chars().count() as u64),
                Err(e) => vp::out(100 + e.valid_up_to() as u64),
            }
        }
        19 => {
            let b = raw(3);
            hs(&String::from_utf8_lossy(&b[..2]));
        }
        20 => {
            let c = Cell::new(0);
            {
                let _a = Noisy(&c);
                let _v = vec![Noisy(&c), Noisy(&c)];
                if raw(1)[0] < 5 {
                    std::mem::forget(Noisy(&c));
                }
            }
            vp::out(c.get() as u64);
        }
        21 => {
            let s = Rc::new(RefCell::new(text(2)));
            let t = s.clone();
            t.borrow_mut().push('x');
            vp::out(Rc::strong_count(&s) as u64);
            hs(&s.borrow());
            let a = Arc::new(5);
            vp::out(*Arc::clone(&a) as u64);
        }
        22 => {
            let mut d: VecDeque<u8> = raw(3).into();
            d.rotate_left(1);
            d.push_front(1);
            d.pop_back();
            for x in d {
                vp::out(x as u64 / 128);
            }
        }
        23 => {
            let b = raw(4);
            vp::out(b.iter().map(|x| (*x >> 6) as u64).sum());
            vp::out(b.iter().position(|x| *x == 9).unwrap_or(7) as u64);
            vp::out(b.iter().filter(|x| **x > 200).count() as u64);
            vp::out(b.chunks(3).map(|c| c.len() as u64).fold(1, |a, c| a * c));
            vp::out(b.windows(2).any(|w| w[0] == w[1]) as u64);
        }
        24 => {
            let b = raw(2);
            vp::out((b[0] as u32).checked_sub(b[1] as u32).is_some() as u64);
            vp::out(b[0].wrapping_mul(3) as u64 & 1);
            vp::out(b[0].saturating_add(b[1]) as u64 >> 7);
            vp::out(b[0].leading_zeros() as u64);
            vp::out(b[0].count_ones() as u64);
            vp::out((b[0] as u64 + 1).trailing_zeros() as u64);
            vp::out((b[0] % (b[1] | 1)) as u64 >> 6);
        }
        25 => {
            let s = text(4);
            let l: Vec<&str> = s.lines().collect();
            vp::out(l.len() as u64);
            hs(&l.join("+"));
            hs(&s.split_whitespace().collect::<Vec<_>>().concat());
            if let Some((a, b)) = s.split_once(' ') {
                hs(a);
                hs(b);
            }
            vp::out(s.strip_prefix("a ").is_some() as u64);
            vp::out(s.starts_with(&['a', 'b'][..]) as u64);
        }
        26 => {
            let s = text(2);
            let c: Cow<str> = if s.contains(' ') { Cow::Owned(s.replace(' ', "_")) } else { Cow::Borrowed(&s) };
            hs(&c);
        }
        27 => {
            let mut s = String::new();
            write!(s, "{}-{}", raw(1)[0] / 50, 3).unwrap();
            s.insert(0, 'z');
            s.insert_str(1, "yy");
            s.extend(['a', '\u{e9}', '\u{1f600}']);
            s.retain(|c| c != 'y');
            s.truncate(5);
            hs(&s);
            hs(&s.chars().rev().collect::<String>());
        }
        28 => {
            let b = raw(1)[0];
            let w = match &text(2).as_bytes()[..] {
                [b'a', b' '] => 1,
                [b'b', x] if *x > b'0' => 2,
                [_, b'0'..=b'9'] => 3,
                _ => 4,
            };
            vp::out(w * 10 + (b == b'\n') as u64);
        }
        29 => {
            let b = raw(2);
            let t = (b[0] as char, char::from_u32(b[1] as u32 * 300).unwrap_or('?'));
            vp::out(t.0.is_alphabetic() as u64);
            vp::out(t.0.is_whitespace() as u64);
            vp::out(t.1.len_utf8() as u64);
        }
        30 => {
            let f = |n: usize| -> Box<dyn Fn(u8) -> bool> { if n == 0 { Box::new(|b| b > 9) } else { Box::new(move |b| b as usize > n * 100) } };
            let b = raw(1)[0];
            vp::out(f(0)(b) as u64 * 2 + f(1)(b) as u64);
        }
        31 => {
            let mut heap = BinaryHeap::from(raw(3));
            heap.push(7);
            vp::out(heap.pop().unwrap() as u64 >> 5);
        }
        32 => {
            let a = lex("ab 1");
            let b = lex("ab 2");
            let s = text(2);
            let c = Tok::List(lex(&s));
            vp::out(a.cmp(&b) as i8 as u8 as u64);
            vp::out((c == Tok::List(vec![Tok::Word("a")])) as u64);
            vp::out((c.clone() < Tok::List(vec![Tok::Word("b"), Tok::Num(3)])) as u64);
        }
        33 => {
            use std::hash::{Hash, Hasher};
            let mut d = std::collections::hash_map::DefaultHasher::new();
            lex("ab 1").hash(&mut d);
            vp::out(d.finish());
        }
        34 => {
            let b = raw(2);
            let mut a = [[0u8; 3]; 3];
            a[(b[0] % 3) as usize][(b[1] % 3) as usize] = 5;
            vp::out(a.iter().flatten().map(|x| *x as u64).sum());
            vp::out(a[1][1] as u64);
        }
        35 => {
            let s = text(3);
            let t: &'static str = Box::leak(s.into_boxed_str());
            let (x, y) = t.split_at(1);
            vp::out(t.is_char_boundary(2) as u64);
            hs(x);
            hs(y);
            vp::out(t.bytes().rev().next().unwrap() as u64 >> 4);
            vp::out(x.eq_ignore_ascii_case("A") as u64);
            vp::out(memchr(b' ', t.as_bytes()).unwrap_or(9) as u64);
        }
        36 => {
            let b = raw(2);
            let x = u32::from_le_bytes([b[0], b[1], 1, 2]);
            vp::out((x ^ 0x0201_0000) as u64 >> 13);
            let p = b[0] as u128 * b[1] as u128;
            vp::out((p >> 14) as u64);
            let v: u64 = 1 << (b[0] % 64);
            vp::out(v.count_ones() as u64);
            vp::out(f64::from(b[0]).sqrt() as u64 >> 3);
        }
        37 => {
            let r = std::panic::catch_unwind(|| 5);
            vp::out(r.is_ok() as u64);
        }
        38 => {
            let mut v: Vec<String> = vec![];
            for i in 0..40 {
                v.push(format!("k{}", i * 7 % 11));
            }
            v.sort();
            v.dedup();
            vp::out(v.len() as u64);
            let mut m: HashMap<String, Vec<usize>> = HashMap::with_capacity(4);
            for (i, s) in v.iter().cycle().take(60).enumerate() {
                m.entry(s.clone()).or_default().push(i);
            }
            m.remove("k3");
            let mut k: Vec<_> = m.into_iter().map(|(k, v)| (k, v.len())).collect();
            k.sort_unstable();
            hs(&format!("{:?}", k));
        }
        39 => {
            let s = text(4);
            let v: Vec<char> = s.chars().collect();
            let mut it = v.iter().skip_while(|c| **c == 'a').step_by(2).chain(v.iter().rev().take(1)).copied();
            while let Some(c) = it.next() {
                vp::out(c as u64 >> 4);
            }
            vp::out(s.char_indices().filter(|(_, c)| c.is_ascii_punctuation()).last().map(|x| x.0).unwrap_or(9) as u64);
            vp::out(v.binary_search(&'b').is_ok() as u64);
        }
        40 => {
            let b = raw(3);
            let o = b.first().copied().filter(|x| *x > 3).and_then(|x| x.checked_add(200)).or(b.get(7).copied());
            vp::out(o.is_some() as u64);
            let r: Result<Vec<u8>, u8> = b.iter().map(|x| if *x > 250 { Err(*x) } else { Ok(x / 100) }).collect();
            vp::out(r.map(|v| v.len() as u64).unwrap_or_else(|e| e as u64));
        }
        41 => {
            let s = text(3);
            std::thread_local!(static T: Cell<usize> = const { Cell::new(0) });
            T.with(|t| t.set(s.len()));
            vp::out(T.with(|t| t.take()) as u64);
            vp::out(std::any::type_name::<Tok>().len() as u64);
            vp::out(std::mem::size_of_val(&s) as u64);
            vp::out(std::mem::discriminant(&Tok::Num(1)).eq(&std::mem::discriminant(&Tok::Num(2))) as u64);
        }
        42 => {
            let b = raw(2);
            let mut v: Vec<u8> = b.iter().copied().map(|x| x / 64).collect();
            v.insert(1, 9);
            v.swap(0, 2);
            v.splice(0..1, [1, 2, 3]);
            v.drain(1..2);
            v.extend_from_within(0..2);
            v.rotate_right(1);
            h(&v);
            vp::out(v.iter().max().copied().unwrap() as u64);
            let l: LinkedList<u8> = v.into_iter().collect();
            vp::out(l.len() as u64);
        }
        _ => {
            let s = text(3);
            let n = s.as_bytes().iter().take_while(|b| b.is_ascii_alphabetic()).count();
            vp::out(n as u64);
            let mut stack = vec![(0usize, s.as_str())];
            while let Some((d, t)) = stack.pop() {
                vp::out(d as u64);
                if t.len() > 1 && d < 3 {
                    let m = t.len() / 2;
                    stack.push((d + 1, &t[..m]));
                    stack.push((d + 1, &t[m..]));
                }
            }
        }
    }
}
fn memchr(c: u8, s: &[u8]) -> Option<usize> {
    s.iter().position(|x| *x == c)
}
