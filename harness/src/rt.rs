//! Interface between harnesses and whatever runs them: the symbolic executor
//! (which interprets these calls) or the native replayer (src/bin/replay.rs).
extern "C" {
    fn rse_sym(bits: u32) -> u64;
    fn rse_assume(c: bool);
    fn rse_check(c: bool, id: u32);
    fn rse_cover(id: u32);
    fn rse_observe(v: u64);
    fn rse_pick(n: u32) -> u32;
    fn rse_case() -> u64;
    fn rse_concretize(v: u64) -> u64;
    fn rse_expect_panic(on: bool);
}
/// A fresh symbolic byte / half-word / word / double word.
pub fn u8s() -> u8 { unsafe { rse_sym(8) as u8 } }
pub fn u16s() -> u16 { unsafe { rse_sym(16) as u16 } }
pub fn u32s() -> u32 { unsafe { rse_sym(32) as u32 } }
pub fn u64s() -> u64 { unsafe { rse_sym(64) } }
pub fn u128s() -> u128 { ((u64s() as u128) << 64) | u64s() as u128 }
pub fn bools() -> bool { unsafe { rse_sym(1) & 1 == 1 } }
pub fn bits(n: u32) -> u64 { unsafe { rse_sym(n) } }
/// Symbolic value in 0..n, not forked.
pub fn below(n: u64) -> u64 {
    let mut w = 1;
    while w < 63 && (1u64 << w) < n { w += 1 }
    let v = bits(w);
    assume(v < n);
    v
}
/// Symbolic value in 0..n; the path forks into one state per value.
pub fn pick(n: u32) -> u32 { unsafe { rse_pick(n) } }
pub fn pickz(n: usize) -> usize { unsafe { rse_pick(n as u32) as usize } }
pub fn assume(c: bool) { unsafe { rse_assume(c) } }
/// The property: `c` must hold for all values.
pub fn check(c: bool, id: u32) { unsafe { rse_check(c, id) } }
/// Reachability witness.
pub fn cover(id: u32) { unsafe { rse_cover(id) } }
/// Value compared between symbolic and native execution.
pub fn observe(v: u64) { unsafe { rse_observe(v) } }
pub fn observe_bytes(b: &[u8]) { observe(b.len() as u64); for x in b { observe(*x as u64) } }
pub fn case() -> u64 { unsafe { rse_case() } }
pub fn concretize(v: u64) -> u64 { unsafe { rse_concretize(v) } }
pub fn expect_panic(on: bool) { unsafe { rse_expect_panic(on) } }
pub fn bytes(n: usize) -> Vec<u8> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(u8s()) } v }
/// True in the thorough tier: harnesses then use their larger bounds.
pub fn thorough() -> bool { case() >> 32 != 0 }
/// The configuration number of this run.
pub fn config() -> usize { (case() & 0xffff_ffff) as usize }
/// Byte equality without forking on the contents.
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0u8;
    for i in 0..a.len() { d |= a[i] ^ b[i] }
    d == 0
}
/// A symbolic size in 0..n, used where a size or index must be concrete: the
/// executor asks the solver for its feasible values and forks on them.
pub fn size(n: usize) -> usize { concretize(below(n as u64)) as usize }
/// Reachability witness 1 or 2.
pub fn either(c: bool) { cover(concretize(if c { 1 } else { 2 }) as u32) }
