//! Native side of the harness interface: replays a list of variable values.
use std::sync::Mutex;
struct S {
    arg: u64,
    vars: Vec<u64>,
    next: usize,
    show: bool,
}
static ST: Mutex<S> = Mutex::new(S { arg: 0, vars: vec![], next: 0, show: false });
fn take(lo: u64) -> u64 {
    let mut s = ST.lock().unwrap();
    let i = s.next;
    s.next += 1;
    s.vars.get(i).copied().unwrap_or(lo)
}
#[no_mangle]
pub extern "C" fn vp_arg() -> u64 {
    ST.lock().unwrap().arg
}
#[no_mangle]
pub extern "C" fn vp_byte(lo: u8, hi: u8) -> u8 {
    let v = take(lo as u64) as u8;
    if v < lo || v > hi {
        println!("MISMATCH byte out of range");
        std::process::exit(11);
    }
    v
}
#[no_mangle]
pub extern "C" fn vp_pick(n: u64) -> u64 {
    let v = take(0);
    if v >= n {
        println!("MISMATCH pick out of range");
        std::process::exit(11);
    }
    v
}
#[no_mangle]
pub unsafe extern "C" fn vp_choice(t: *const u8, n: u64, l: u64, out: *mut u8) -> u8 {
    let v = take(0);
    if v >= n {
        println!("MISMATCH choice out of range");
        std::process::exit(11);
    }
    std::ptr::copy(t.add((v * l) as usize), out, l as usize);
    v as u8
}
#[no_mangle]
pub extern "C" fn vp_assume(c: bool) {
    if !c {
        println!("MISMATCH assumption");
        std::process::exit(11);
    }
}
#[no_mangle]
pub extern "C" fn vp_check(c: bool, code: u32) {
    if !c {
        println!("FAIL check {}", code);
        std::process::exit(10);
    }
}
#[no_mangle]
pub extern "C" fn vp_reach(_: u32) {}
#[no_mangle]
pub extern "C" fn vp_out(v: u64) {
    println!("OUT {}", v);
}
#[no_mangle]
pub unsafe extern "C" fn vp_text(p: *const u8, n: u64) {
    if ST.lock().unwrap().show {
        let b = std::slice::from_raw_parts(p, n as usize);
        println!("TEXT {:?}", String::from_utf8_lossy(b));
    }
}
fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if a[0] == "--list" {
        for i in 0..wh::N {
            println!("{}", i);
        }
        return;
    }
    if a[0] == "--batch" {
        // lines "arg v,v,..." on stdin; only for values that do not fail
        let mut line = String::new();
        while std::io::stdin().read_line(&mut line).unwrap() > 0 {
            let mut it = line.split_whitespace();
            let arg = it.next().unwrap().parse().unwrap();
            let vars: Vec<u64> = it.next().unwrap_or("").split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
            {
                let mut s = ST.lock().unwrap();
                s.arg = arg;
                s.vars = vars;
                s.next = 0;
            }
            wh::vp_main();
            println!("END");
            line.clear();
        }
        return;
    }
    {
        let mut s = ST.lock().unwrap();
        s.arg = a[0].parse().unwrap();
        if a.len() > 1 {
            s.vars = a[1].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        }
        s.show = true;
    }
    wh::vp_main();
    println!("DONE");
}
