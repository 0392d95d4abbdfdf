//! Native execution of a harness on concrete inputs (one hex value per line of
//! the input file), used to confirm counterexamples and to validate the
//! symbolic executor against the compiled code.
use std::sync::Mutex;
static INPUTS: Mutex<(Vec<u64>, usize, u64)> = Mutex::new((Vec::new(), 0, 0));
fn next() -> u64 {
    let mut g = INPUTS.lock().unwrap();
    let i = g.1;
    g.1 += 1;
    if i >= g.0.len() { drop(g); println!("INPUT-EXHAUSTED"); std::process::exit(4) }
    g.0[i]
}
#[no_mangle] pub extern "C" fn rse_sym(bits: u32) -> u64 { let v = next(); if bits >= 64 { v } else { v & ((1u64 << bits) - 1) } }
#[no_mangle] pub extern "C" fn rse_pick(n: u32) -> u32 { let v = next(); if v >= n as u64 { println!("ASSUME"); std::process::exit(3) } v as u32 }
#[no_mangle] pub extern "C" fn rse_assume(c: bool) { if !c { println!("ASSUME"); std::process::exit(3) } }
#[no_mangle] pub extern "C" fn rse_check(c: bool, id: u32) { if !c { println!("CHECK-FAILED {}", id); std::process::exit(10) } }
#[no_mangle] pub extern "C" fn rse_cover(id: u32) { println!("OBS 1:{:x}", id) }
#[no_mangle] pub extern "C" fn rse_observe(v: u64) { println!("OBS 0:{:x}", v) }
#[no_mangle] pub extern "C" fn rse_case() -> u64 { INPUTS.lock().unwrap().2 }
#[no_mangle] pub extern "C" fn rse_concretize(v: u64) -> u64 { v }
static EXPECT: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
#[no_mangle] pub extern "C" fn rse_expect_panic(on: bool) { EXPECT.store(on, std::sync::atomic::Ordering::SeqCst) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        // the checks that the compiler adds to unsafe operations: never a refusal
        let ub = m.contains("unsafe precondition") || m.contains("misaligned pointer dereference") || m.contains("null pointer dereference");
        if !ub && EXPECT.load(std::sync::atomic::Ordering::SeqCst) { println!("EXPECTED-PANIC"); std::process::exit(0) }
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        println!("PANIC {}", l);
        println!("MESSAGE {}", i.to_string().replace('\n', " | "));
        std::process::exit(11)
    }));
    let text = std::fs::read_to_string(&a[2]).expect("input file");
    let mut vals = Vec::new();
    let mut case = 0;
    for l in text.lines() {
        let l = l.trim();
        if l.is_empty() || l.starts_with('#') { continue }
        if let Some(c) = l.strip_prefix("case ") { case = c.parse().unwrap(); continue }
        if l.starts_with("harness ") { continue }
        vals.push(u64::from_str_radix(l, 16).expect("hex"));
    }
    *INPUTS.lock().unwrap() = (vals, 0, case);
    for (n, f) in harness::table() {
        if n == a[1] { f(); println!("DONE"); return }
    }
    eprintln!("no such harness"); std::process::exit(5)
}
