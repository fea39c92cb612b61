//! Native environment: inputs and uninterpreted functions come from a tape (see symx/driver.py).
use std::cell::RefCell;
use std::collections::HashMap;

#[derive(Default)]
pub struct Env {
    pub inputs: Vec<(String, String, String)>,
    pub pos: usize,
    pub ufs: HashMap<(u32, Vec<u8>, usize), Vec<u8>>,
    pub failed: Vec<String>,
    pub reached: Vec<String>,
    pub notes: Vec<String>,
    pub real: bool,
    /// all inputs and choices are pseudo-random
    pub rnd: Option<u64>,
    /// choices come from the tape, inputs are pseudo-random
    pub rndin: Option<u64>,
}
thread_local!(pub static ENV: RefCell<Env> = RefCell::new(Env::default()));

pub struct AssumeFailed;
pub struct Unsupported(pub String);

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn load(tape: &str, real: bool) {
    let mut e = Env { real, ..Default::default() };
    for l in tape.lines() {
        let f: Vec<&str> = l.split(' ').collect();
        match f[0] {
            "in" | "ch" => e.inputs.push((f[0].into(), f[1].into(), f.get(2).unwrap_or(&"").to_string())),
            "uf" => {
                let a = unhex(f[2].trim_start_matches('-'));
                let o = unhex(f[3]);
                e.ufs.insert((f[1].parse().unwrap(), a, o.len()), o);
            }
            "rnd" => e.rnd = Some(f[1].parse().unwrap()),
            "rndin" => e.rndin = Some(f[1].parse().unwrap()),
            _ => {}
        }
    }
    ENV.with(|x| *x.borrow_mut() = e);
}
fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(sl(p, n)).into()
}
fn sl<'a>(p: *const u8, n: usize) -> &'a [u8] {
    if n == 0 { &[] } else { unsafe { std::slice::from_raw_parts(p, n) } }
}
pub fn mix(fid: u32, data: &[u8], n: usize) -> Vec<u8> {
    let mut h: u64 = 0xcbf29ce484222325;
    for b in fid.to_le_bytes().iter().chain(data) {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    let mut out = vec![];
    let mut ctr = 0u64;
    while out.len() < n {
        let mut x = h.wrapping_add(ctr.wrapping_mul(0x9E3779B97F4A7C15));
        x ^= x >> 30;
        x = x.wrapping_mul(0xBF58476D1CE4E5B9);
        x ^= x >> 27;
        x = x.wrapping_mul(0x94D049BB133111EB);
        x ^= x >> 31;
        out.extend_from_slice(&x.to_le_bytes());
        ctr += 1;
    }
    out.truncate(n);
    out
}
#[no_mangle]
extern "C-unwind" fn sym_input(p: *mut u8, n: usize, tag: *const u8, tl: usize) {
    let tag = st(tag, tl);
    let v = ENV.with(|e| {
        let mut e = e.borrow_mut();
        let i = e.pos;
        e.pos += 1;
        if let Some(s) = e.rnd {
            e.rnd = Some(s.wrapping_add(1));
            let mut w = s.to_le_bytes().to_vec();
            w.push(1);
            let v = mix(99, &w, n);
            e.inputs.push(("in".into(), tag, hex(&v)));
            return v;
        }
        if let Some(s) = e.rndin {
            let mut w = s.to_le_bytes().to_vec();
            w.extend_from_slice(&(i as u64).to_le_bytes());
            let v = mix(99, &w, n);
            if let Some(x) = e.inputs.get_mut(i) {
                x.2 = hex(&v);
            }
            return v;
        }
        match e.inputs.get(i) {
            Some((k, _, h)) if k == "in" => {
                let mut b = unhex(h);
                b.resize(n, 0);
                b
            }
            // past the end of the tape (the real build may draw more than the model): a fixed pattern
            _ => mix(98, &(i as u64).to_le_bytes(), n),
        }
    });
    for (i, b) in v.iter().enumerate() {
        unsafe { *p.add(i) = *b }
    }
}
#[no_mangle]
extern "C-unwind" fn sym_choose(lo: u64, hi: u64, tag: *const u8, tl: usize) -> u64 {
    let tag = st(tag, tl);
    ENV.with(|e| {
        let mut e = e.borrow_mut();
        let i = e.pos;
        e.pos += 1;
        if let Some(s) = e.rnd {
            e.rnd = Some(s.wrapping_add(1));
            let r = mix(97, &s.to_le_bytes(), 8);
            let v = lo + u64::from_le_bytes(r.try_into().unwrap()) % (hi - lo + 1);
            e.inputs.push(("ch".into(), tag, v.to_string()));
            return v;
        }
        match e.inputs.get(i) {
            Some((k, _, h)) if k == "ch" => h.parse::<u64>().unwrap().clamp(lo, hi),
            _ => lo,
        }
    })
}
#[no_mangle]
extern "C-unwind" fn sym_assume(c: bool) {
    if !c {
        std::panic::panic_any(AssumeFailed);
    }
}
#[no_mangle]
extern "C-unwind" fn sym_check(c: bool, m: *const u8, ml: usize) {
    if !c {
        let s = st(m, ml);
        ENV.with(|e| e.borrow_mut().failed.push(s));
    }
    log(format!("check {}", c as u8));
}
#[no_mangle]
extern "C-unwind" fn sym_reach(m: *const u8, ml: usize) {
    let s = st(m, ml);
    log(format!("reach {}", s));
    ENV.with(|e| e.borrow_mut().reached.push(s));
}
#[no_mangle]
extern "C-unwind" fn sym_unsupported(m: *const u8, ml: usize) {
    std::panic::panic_any(Unsupported(st(m, ml)));
}
fn log(s: String) {
    ENV.with(|e| e.borrow_mut().notes.push(s));
}
fn lookup(fid: u32, i: &[u8], n: usize) -> Vec<u8> {
    ENV.with(|e| e.borrow().ufs.get(&(fid, i.to_vec(), n)).cloned()).unwrap_or_else(|| mix(fid, i, n))
}
#[no_mangle]
extern "C-unwind" fn sym_uf(fid: u32, _flags: u32, ip: *const u8, il: usize, op: *mut u8, ol: usize) {
    let v = lookup(fid, sl(ip, il), ol);
    log(format!("uf {} {} {}", fid, hex(sl(ip, il)), hex(&v)));
    for (i, b) in v.iter().enumerate() {
        unsafe { *op.add(i) = *b }
    }
    if _flags & 1 == 1 {
        // remember the graph so that the inverse is consistent
        let i = sl(ip, il).to_vec();
        ENV.with(|e| e.borrow_mut().ufs.insert((fid + 1000, v, il), i));
    }
}
#[no_mangle]
extern "C-unwind" fn sym_uf_inv(fid: u32, ip: *const u8, il: usize, op: *mut u8, ol: usize) {
    let v = lookup(fid + 1000, sl(ip, il), ol);
    log(format!("inv {} {} {}", fid, hex(sl(ip, il)), hex(&v)));
    for (i, b) in v.iter().enumerate() {
        unsafe { *op.add(i) = *b }
    }
}
#[no_mangle]
extern "C-unwind" fn sym_modpow(b: u64, e: *const u64, el: usize, m: u64) -> u64 {
    let e = if el == 0 { &[][..] } else { unsafe { std::slice::from_raw_parts(e, el) } };
    let (m, mut b) = (m as u128, b as u128 % m as u128);
    let mut r = 1 % m;
    for d in e {
        for i in 0..64 {
            if d >> i & 1 == 1 {
                r = r * b % m;
            }
            b = b * b % m;
        }
    }
    r as u64
}
#[no_mangle]
extern "C-unwind" fn sym_big(_: u32, _: *const u64, _: usize, _: *const u64, _: usize, _: *const u64, _: usize, _: *mut u64) -> usize {
    usize::MAX
}
#[no_mangle]
extern "C-unwind" fn sym_big_cmp(_: *const u64, _: usize, _: *const u64, _: usize) -> u32 {
    9
}
#[no_mangle]
extern "C-unwind" fn sym_big_norm(_: *const u64, _: usize) -> usize {
    usize::MAX
}
#[no_mangle]
extern "C-unwind" fn sym_big_top(limb: u64) -> usize {
    (71 - limb.leading_zeros() as usize) / 8
}
#[no_mangle]
extern "C-unwind" fn sym_eq(a: *const u8, b: *const u8, n: usize) -> bool {
    sl(a, n) == sl(b, n)
}
#[no_mangle]
extern "C-unwind" fn sym_note(p: *const u8, n: usize) {
    let s = hex(sl(p, n));
    ENV.with(|e| e.borrow_mut().notes.push(s));
}
#[no_mangle]
extern "C-unwind" fn sym_real() -> bool {
    ENV.with(|e| e.borrow().real)
}

#[no_mangle]
extern "C-unwind" fn sym_pmod(p: *const u8, n: usize, q: u64) -> u64 {
    let b = sl(p, n);
    let w = b.iter().rposition(|x| *x != 0).map_or(1, |i| i + 1);
    // long strings: as on the tape
    for w in w..=n {
        if let Some(v) = ENV.with(|e| e.borrow().ufs.get(&(3000, b[..w].to_vec(), 1)).cloned()) {
            return v[0] as u64 % q;
        }
    }
    b.iter().rev().fold(0, |r, b| (r * 256 + *b as u64) % q)
}
#[no_mangle]
extern "C-unwind" fn sym_ring(op: u32, a: u64, b: u64, q: u64) -> u64 {
    match op {
        0 => (a + b) % q,
        1 => (a % q + q - b % q) % q,
        _ => a * b % q,
    }
}
#[no_mangle]
extern "C-unwind" fn sym_inv(v: u64, q: u64) -> u64 {
    (1..q).find(|x| v % q * x % q == 1).unwrap_or(0)
}
#[no_mangle]
extern "C-unwind" fn sym_known_same(a: *const u8, b: *const u8, n: usize) -> bool {
    sl(a, n) == sl(b, n)
}

/// Run one harness on a tape; prints the outcome and returns the process exit code.
/// 0: every check held; 1: a check failed or the code panicked; 2: the tape does not fit (assumption failed, unsupported)
pub fn main(table: &[(&str, extern "C-unwind" fn())], real: bool) -> i32 {
    let a: Vec<String> = std::env::args().collect();
    let (name, tape) = (&a[1], std::fs::read_to_string(&a[2]).unwrap());
    load(&tape, real);
    let f = table.iter().find(|x| x.0 == name).expect("no such harness").1;
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<AssumeFailed>() || i.payload().is::<Unsupported>() {
            return;
        }
        println!("PANIC {}", i);
    }));
    let r = std::panic::catch_unwind(|| f());
    let (failed, reached, notes, inputs) = ENV.with(|e| {
        let e = e.borrow();
        (e.failed.clone(), e.reached.clone(), e.notes.clone(), e.inputs.clone())
    });
    for f in &failed {
        println!("FAILED {}", f);
    }
    for f in &reached {
        println!("REACHED {}", f);
    }
    if a.get(3).map(|x| x == "-v").unwrap_or(false) {
        for n in &notes {
            println!("TRACE {}", n);
        }
        for (k, t, v) in &inputs {
            println!("TAPE {} {} {}", k, t, v);
        }
    }
    match r {
        Ok(()) => (!failed.is_empty()) as i32,
        Err(p) => {
            if p.is::<AssumeFailed>() {
                println!("ASSUMPTION does not hold on this tape");
                if failed.is_empty() { 2 } else { 1 }
            } else if let Some(u) = p.downcast_ref::<Unsupported>() {
                println!("UNSUPPORTED {}", u.0);
                2
            } else {
                println!("PANICKED");
                1
            }
        }
    }
}
