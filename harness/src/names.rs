//! C20: SQL names.
use crate::rt::*;
use cathlamet::sql::verif::Name;
use std::cmp::Ordering;
use std::collections::BTreeMap;

/// The upper case of a text, as numbers.
fn upper(s: &str) -> Vec<u32> {
    let mut v = Vec::new();
    for c in s.chars() { for u in c.to_uppercase() { v.push(u as u32) } }
    v
}
/// Lexicographic order, written out.
fn order(a: &[u32], b: &[u32]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() && i == b.len() { return Ordering::Equal }
        if i == a.len() { return Ordering::Less }
        if i == b.len() { return Ordering::Greater }
        if a[i] < b[i] { return Ordering::Less }
        if a[i] > b[i] { return Ordering::Greater }
        i += 1;
    }
}
fn relations(a: &str, b: &str) -> Ordering {
    let (x, y) = (Name::from(a), Name::new(String::from(b)));
    let want = order(&upper(a), &upper(b));
    check(x.cmp(&y) == want, 1);
    check(y.cmp(&x) == want.reverse(), 2);
    check(x.partial_cmp(&y) == Some(want), 3);
    check((x == y) == (want == Ordering::Equal), 4);
    check((x != y) == (want != Ordering::Equal), 5);
    check((x < y) == (want == Ordering::Less), 6);
    check((x <= y) == (want != Ordering::Greater), 7);
    check((x > y) == (want == Ordering::Greater), 8);
    check((x >= y) == (want != Ordering::Less), 9);
    // a name and text
    check((x == *b) == (want == Ordering::Equal), 10);
    check(x.partial_cmp(b) == Some(want), 11);
    check((x < *b) == (want == Ordering::Less), 12);
    // reading a name does not change it
    check(same(x.as_str().as_bytes(), a.as_bytes()), 13);
    want
}
fn ascii(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { let c = u8s(); assume(c < 0x80); s.push(c as char) }
    s
}
/// Every pair of short ASCII names.
pub fn pairs() {
    let m = if thorough() { 7 } else { 5 };
    let (a, b) = (ascii(pickz(m + 1)), ascii(pickz(m + 1)));
    let w = relations(&a, &b);
    if w == Ordering::Equal { cover(if same(a.as_bytes(), b.as_bytes()) { 1 } else { 2 }) } else { cover(3) }
    observe(w as i8 as u64);
}
/// The blocks of 256 characters that hold letters with two cases, and some others.
const BLOCKS: [u32; 44] = [0, 1, 2, 3, 4, 5, 6, 9, 0xe, 0x10, 0x11, 0x13, 0x1c, 0x1d, 0x1e, 0x1f, 0x20, 0x21, 0x23, 0x24, 0x25, 0x2c, 0x2d, 0x2e, 0x4e, 0xa6, 0xa7, 0xa8, 0xab, 0xd7, 0xfb, 0xff,
    0x100, 0x104, 0x105, 0x10c, 0x10d, 0x118, 0x16e, 0x1e9, 0x1d4, 0x300, 0x10ff, 0xe0];
/// Every character of these blocks, next to its own upper case and to chosen others.
pub fn chars() {
    let block = if thorough() { pick(0x1100) } else { BLOCKS[pickz(44)] };
    if block >= 0xd8 && block < 0xe0 { return }
    let v = (block << 8) | u8s() as u32;
    let c = match char::from_u32(v) { Some(c) => c, None => return };
    let mut a = String::new();
    let before = pickz(2);
    for _ in 0..before { a.push('q') }
    let mut b = a.clone();
    a.push(c);
    match pick(3) {
        0 => for u in c.to_uppercase() { b.push(u) },
        1 => { b.push_str("SS"); a.push('z'); }
        _ => { b.push('i'); b.push('\u{307}') }
    }
    let w = relations(&a, &b);
    if w == Ordering::Equal { cover(1) } else { cover(2) }
}
/// Two names of one character of any kind out of the blocks with the remarkable cases
/// (sharp s, dotless i, long s, final sigma, ligatures, Kelvin), and at times one more.
pub fn special() {
    const B: [u32; 9] = [0, 1, 2, 3, 0x1e, 0x1f, 0x21, 0xfb, 0x104];
    let k = if thorough() { 9 } else { 4 };
    let (a, b) = ((B[pickz(k)] << 8) | u8s() as u32, (B[pickz(k)] << 8) | u8s() as u32);
    let (mut x, mut y) = (String::new(), String::new());
    let more = if thorough() { pick(4) } else { pick(2) * 2 };
    if more & 1 == 1 { y.push('ß') }
    for (s, c) in [(&mut x, a), (&mut y, b)] { match char::from_u32(c) { Some(c) => s.push(c), None => return } }
    if more & 2 == 2 { x.push('s') }
    let w = relations(&x, &y);
    if w == Ordering::Equal { cover(1) } else { cover(2) }
}
/// A map keyed by names: entries are found by any spelling, and by no other name.
pub fn lookup() {
    let keys: Vec<String> = (0..if thorough() { 3 } else { 2 }).map(|_| { let n = pickz(if thorough() { 4 } else { 3 }); ascii(n) }).collect();
    let mut map: BTreeMap<Name, usize> = BTreeMap::new();
    let mut mine: Vec<(Vec<u32>, usize)> = Vec::new();
    for (i, k) in keys.iter().enumerate() {
        let u = upper(k);
        let old = mine.iter().position(|e| e.0 == u);
        check(map.insert(Name::from(k.as_str()), i) == old.map(|j| mine[j].1), 21);
        match old { Some(j) => mine[j].1 = i, None => mine.push((u, i)) }
    }
    check(map.len() == mine.len(), 22);
    let q = ascii(pickz(3));
    let u = upper(&q);
    let want = mine.iter().find(|e| e.0 == u).map(|e| e.1);
    check(map.get(&Name::from(q.as_str())).copied() == want, 23);
    if want.is_some() { cover(1) } else { cover(2) }
    if mine.len() < keys.len() { cover(3) }
    check(map.remove(&Name::from(q)) == want, 24);
    // iteration is in order
    let ks: Vec<&Name> = map.keys().collect();
    for i in 1..ks.len() { check(order(&upper(ks[i - 1].as_str()), &upper(ks[i].as_str())) == Ordering::Less, 25) }
}
/// Long names that differ in one place, if at all, or in their lengths.
pub fn long() {
    const N: [usize; 14] = [8, 9, 16, 17, 30, 31, 32, 33, 63, 64, 65, 128, 129, 257];
    let n = N[pickz(14)];
    let at = [0, n / 2, n - 1][pickz(3)];
    let more = pickz(3);
    let (c, d) = (u8s(), u8s());
    assume(c < 0x80 && d < 0x80);
    let spell = |x: u8, lower: bool, more: usize| {
        let mut s = String::new();
        for i in 0..n + more { s.push(if i == at { x as char } else if lower { (b'a' + (i % 7) as u8) as char } else { (b'A' + (i % 7) as u8) as char }) }
        s
    };
    let w = relations(&spell(c, false, 0), &spell(d, true, more / 2));
    if w == Ordering::Equal { cover(1) } else { cover(2) }
    let mut map: BTreeMap<Name, usize> = BTreeMap::new();
    map.insert(Name::from(spell(c, true, 0)), 1);
    check(map.get(&Name::from(spell(d, false, more / 2))).is_some() == (w == Ordering::Equal), 31);
}
