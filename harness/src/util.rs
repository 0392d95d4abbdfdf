//! C15: arithmetic helpers and raw value access.
use crate::rt::*;
#[cfg(feature = "util")] use cathlamet::core::util;
#[cfg(feature = "helpers")] use cathlamet::storage::verif as st;

pub fn align() {
    let v = u64s() as usize;
    let k = size(64);
    let a = 1usize << k;
    // the smallest multiple must itself be representable
    assume(v <= usize::MAX & !(a - 1));
    let r = util::align(v, a);
    observe(r as u64);
    check(r >= v, 1);
    check(r & (a - 1) == 0, 2);
    check(r - v < a, 3);
    cover(1);
}

pub fn align_refuses() {
    // an alignment that is not a power of two is refused
    let v = u64s() as usize;
    let a = u64s() as usize;
    assume(a == 0 || a & (a - 1) != 0);
    cover(1);
    expect_panic(true);
    let _ = util::align(v, a);
    expect_panic(false);
    check(false, 1);
}

pub fn bits() {
    let v = u64s() as usize;
    let n = util::required_bits(v);
    observe(n as u64);
    check(n <= 64, 1);
    // v fits in n bits, and not in fewer
    check(if n == 64 { true } else { v >> n == 0 }, 2);
    check(if n == 0 { v == 0 } else { v >> (n - 1) == 1 }, 3);
    cover(1);
}

pub fn log2() {
    let v = u64s() as usize;
    let p2 = v != 0 && v & (v - 1) == 0;
    expect_panic(!p2);
    let n = util::log2(v);
    expect_panic(false);
    check(p2, 1);
    observe(n as u64);
    check(n < 64 && 1usize << (n & 63) == v, 2);
    cover(1);
}

fn raw<T: Copy, const N: usize>(make: impl Fn() -> T, eq: impl Fn(T, T) -> bool, le: impl Fn(T) -> [u8; N]) {
    let total = 24;
    let pre = size(4);
    let len = size(total - 8 + 1);
    let mut buf = bytes(pre + len + 4);
    let orig = buf.clone();
    let off = u64s() as usize;
    let fits = off <= len && N <= len - off.min(len);
    let v = make();
    let loading = bools();
    expect_panic(!fits);
    if loading {
        let g: T = util::get_value(&buf[pre..pre + len], off);
        expect_panic(false);
        check(fits, 1);
        let off = concretize(off as u64) as usize;
        check(same(&le(g), &orig[pre + off..pre + off + N]), 2);
        check(same(&buf, &orig), 3);
        cover(1);
        return;
    }
    util::set_value(&mut buf[pre..pre + len], off, v);
    expect_panic(false);
    check(fits, 4);
    let off = concretize(off as u64) as usize;
    check(eq(util::get_value(&buf[pre..pre + len], off), v), 5);
    check(same(&buf[pre + off..pre + off + N], &le(v)), 6);
    check(same(&buf[..pre + off], &orig[..pre + off]), 7);
    check(same(&buf[pre + off + N..], &orig[pre + off + N..]), 8);
    cover(2);
}

pub fn values() {
    match config() {
        0 => raw::<u8, 1>(u8s, |a, b| a == b, |v| v.to_ne_bytes()),
        1 => raw::<u16, 2>(u16s, |a, b| a == b, |v| v.to_ne_bytes()),
        2 => raw::<u32, 4>(u32s, |a, b| a == b, |v| v.to_ne_bytes()),
        3 => raw::<u64, 8>(u64s, |a, b| a == b, |v| v.to_ne_bytes()),
        _ => raw::<u128, 16>(u128s, |a, b| a == b, |v| v.to_ne_bytes()),
    }
}

#[cfg(feature = "helpers")]
macro_rules! al { ($t:ty, $f:path, $v:expr) => {{
    let bits = <$t>::BITS;
    let k = size(bits as usize);
    let a = (1 as $t) << k;
    let v: $t = $v;
    assume(v <= <$t>::MAX & !(a - 1));
    let r = $f(v, a);
    observe(r as u64);
    check(r >= v, 1);
    check(r & (a - 1) == 0, 2);
    check(r - v < a, 3);
    cover(1);
}} }

#[cfg(feature = "helpers")]
pub fn storage_align() {
    match config() {
        0 => al!(u8, st::align_u8, u8s()),
        1 => al!(u16, st::align_u16, u16s()),
        2 => al!(u32, st::align_u32, u32s()),
        3 => al!(u64, st::align_u64, u64s()),
        4 => al!(u128, st::align_u128, u128s()),
        _ => al!(usize, st::align_usize, u64s() as usize),
    }
}

/// calc_file_blocks: the least number of blocks that hold the file, for every power-of-two block
/// size in the documented range and for small arbitrary block sizes.
#[cfg(feature = "helpers")]
pub fn blocks() {
    let (size_, b) = if config() == 0 {
        (u64s(), 1u64 << size(40))
    } else {
        (crate::rt::bits(10), size(11) as u64 + 1)
    };
    assume(size_ <= u64::MAX - (b - 1));
    let n = st::calc_file_blocks(size_, b);
    observe(n);
    // n * b >= size and (n - 1) * b < size, without overflow
    check(if n == 0 { size_ == 0 } else { (n - 1) * b < size_ && size_ - (n - 1) * b <= b }, 1);
    cover(1);
}
