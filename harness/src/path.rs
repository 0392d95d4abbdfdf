//! C11 to C13: element paths, qualified names, collections of values.
use crate::rt::*;
use crate::typ::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};
use cathlamet::core::value::PrimitiveValue;
use std::cmp::Ordering;

fn make(c: &[usize]) -> Path {
    let mut p = Path::create_empty();
    for x in c { p = p.with_component(*x) }
    p
}
fn components(max: usize) -> Vec<usize> {
    let n = pickz(max + 1);
    (0..n).map(|_| u64s() as usize).collect()
}
/// Lexicographic order, written without reference to the code.
fn order(a: &[usize], b: &[usize]) -> Ordering {
    let mut i = 0;
    loop {
        if i == a.len() && i == b.len() { return Ordering::Equal }
        if i == a.len() { return Ordering::Less }
        if i == b.len() { return Ordering::Greater }
        if a[i] < b[i] { return Ordering::Less }
        if a[i] > b[i] { return Ordering::Greater }
        i += 1;
    }
}
fn starts(a: &[usize], b: &[usize]) -> bool {
    let mut i = 0;
    while i < a.len() {
        if i == b.len() || a[i] != b[i] { return false }
        i += 1;
    }
    true
}

/// Equality, order and prefix of any two paths.
pub fn relations() {
    let max = if thorough() { 6 } else { 4 };
    let (a, b) = (components(max), components(max));
    let (p, q) = (make(&a), make(&b));
    let o = order(&a, &b);
    check(p.cmp(&q) == o, 1);
    check(p.partial_cmp(&q) == Some(o), 2);
    check((p == q) == (o == Ordering::Equal), 3);
    check((p != q) == (o != Ordering::Equal), 4);
    check((p < q) == (o == Ordering::Less) && (p <= q) == (o != Ordering::Greater), 5);
    check((p > q) == (o == Ordering::Greater) && (p >= q) == (o != Ordering::Less), 6);
    let s = starts(&a, &b);
    check(p.is_prefix_of(&q) == s, 7);
    check(p.is_proper_prefix_of(&q) == (s && a.len() < b.len()), 8);
    check(q.is_prefix_of(&p) == starts(&b, &a), 9);
    check(q.is_proper_prefix_of(&p) == (starts(&b, &a) && b.len() < a.len()), 10);
    check(p.path().len() == a.len() && q.path().len() == b.len(), 11);
    if s { cover(1) }
    if s && a.len() < b.len() { cover(2) }
    if o == Ordering::Greater { cover(3) }
    observe(p.cmp(&q) as i8 as u8 as u64);
}

/// Building paths component by component.
pub fn extend() {
    let a = components(if thorough() { 12 } else { 8 });
    let x = u64s() as usize;
    let y = u64s() as usize;
    let p = make(&a);
    let q = p.with_component(x);
    let r = p.with_component(y);
    let c = p.clone();
    check(p.path().len() == a.len(), 1);
    check(same_path(p.path(), &a), 2);
    check(q.path().len() == a.len() + 1 && same_path(&q.path()[..a.len()], &a) && q.path()[a.len()] == x, 3);
    check(r.path().len() == a.len() + 1 && same_path(&r.path()[..a.len()], &a) && r.path()[a.len()] == y, 4);
    check(c == p && same_path(c.path(), &a), 5);
    check(p < q && p.is_prefix_of(&q) && !q.is_prefix_of(&p), 6);
    check(p.is_proper_prefix_of(&q) && !p.is_proper_prefix_of(&c), 7);
    check((q == r) == (x == y), 8);
    check(Path::create_empty().path().len() == 0, 9);
    check(Path::create_empty().is_prefix_of(&p), 10);
    cover(1);
}
fn same_path(a: &[usize], b: &[usize]) -> bool {
    if a.len() != b.len() { return false }
    let mut d = 0;
    for i in 0..a.len() { d |= a[i] ^ b[i] }
    d == 0
}

// C12

/// What a name means: the position taken at each level, or nothing.
fn resolve<'a>(typ: &'a Type, name: &[u8]) -> Option<(Vec<usize>, &'a Type)> {
    let mut t = typ;
    let mut path = Vec::new();
    let mut i = 0;
    loop {
        let start = i;
        while i < name.len() && name[i] != b'.' { i += 1 }
        let part = &name[start..i];
        let at = match t.kind {
            Kind::Tuple(ref v) => {
                if part.len() == 0 { return None }
                let mut n = 0usize;
                for c in part {
                    if *c < b'0' || *c > b'9' { return None }
                    n = n.saturating_mul(10).saturating_add((*c - b'0') as usize);
                }
                if n >= v.len() { return None }
                t = &v[n];
                n
            }
            Kind::Struct(ref v) => {
                let mut found = None;
                for n in 0..v.len() { if same(v[n].label.as_bytes(), part) { found = Some(n); break } }
                match found { Some(n) => { t = &v[n].typ; n } None => return None }
            }
            Kind::Enum(ref v) => {
                let mut found = None;
                for n in 0..v.len() { if same(v[n].label.as_bytes(), part) { found = Some(n); break } }
                match found { Some(n) => { t = &v[n].typ; n } None => return None }
            }
            _ => return None,
        };
        path.push(at);
        if i == name.len() { return Some((path, t)) }
        i += 1;
    }
}
fn judge(typ: &Type, name: &[u8]) {
    let text = match std::str::from_utf8(name) { Ok(s) => s, Err(_) => return };
    let r = Path::resolve_qualified_name(typ, text);
    match (resolve(typ, name), r) {
        (None, Err(_)) => cover(2),
        (Some((want, elem)), Ok(path)) => {
            check(same_path(path.path(), &want), 1);
            check(std::ptr::eq(typ.extract(&path), elem), 2);
            cover(1);
            observe(want[0] as u64);
        }
        (None, Ok(_)) => check(false, 3),
        (Some(_), Err(_)) => check(false, 4),
    }
}
fn ascii(n: usize) -> Vec<u8> {
    (0..n).map(|_| { let c = u8s(); assume(c < 0x80); c }).collect()
}
const NAMED: [&str; 10] = [
    "{a:u8,b:{a:bool,bb:string},bb:u16}",
    "<a:{x:(u8,<y:string,z:()>)},x:(),xx:u8>",
    "(u8,(string,(bool,bool),{q:u8}),u16)",
    "(u8,u8,u8,u8,u8,u8,u8,u8,u8,u8,(u8,u8),<k:u8>)",
    "{a1:u8,_1:(u8,u8),A1:string}",
    "(({a:((u8),u8)}))",
    "u8", "string", "()", "<a:<b:<c:<d:u8,a:u8>>>>",
];
/// Any short text against a choice of types.
pub fn names() {
    let typ = parse(NAMED[config() % NAMED.len()]);
    let n = pickz(if thorough() { 8 } else { 6 });
    judge(&typ, &ascii(n));
}
/// Any short UTF-8 text and arbitrary one-letter labels (or two letters).
pub fn labels() {
    let k = 1 + pickz(2);
    let (a, b, c) = (ascii(k), ascii(1), ascii(1));
    for l in [&a, &b, &c] { for x in l { assume(*x != b'.') } }
    assume(!same(&a, &b));
    let s = |v: &Vec<u8>| String::from_utf8(v.clone()).unwrap();
    let inner = if bools() {
        t(Kind::Struct(vec![Field { label: s(&c), typ: Box::new(prim(Primitive::U8)) }]))
    } else {
        t(Kind::Tuple(vec![Box::new(t(Kind::Unit)), Box::new(prim(Primitive::U16))]))
    };
    let (x, y) = if bools() { (inner, t(Kind::String)) } else { (t(Kind::String), inner) };
    let typ = if bools() {
        t(Kind::Struct(vec![Field { label: s(&a), typ: Box::new(x) }, Field { label: s(&b), typ: Box::new(y) }]))
    } else {
        t(Kind::Enum(vec![Case { label: s(&a), typ: Box::new(x) }, Case { label: s(&b), typ: Box::new(y) }]))
    };
    let n = pickz(if thorough() { 5 } else { 4 });
    judge(&typ, &ascii(n));
}
/// Positions in long tuples, numbers that do not fit a machine word.
pub fn positions() {
    let typ = t(Kind::Tuple((0..110).map(|_| Box::new(prim(Primitive::U8))).collect()));
    let mut name = Vec::new();
    match pick(3) {
        0 => { let n = 1 + pickz(4); for _ in 0..n { let c = u8s(); assume(c >= b'*' && c <= b':' && c != b'.'); name.push(c) } }
        1 => { name.extend_from_slice(b"184467440737095516"); for _ in 0..2 { let c = u8s(); assume(c >= b'0' && c <= b'9'); name.push(c) } }
        _ => { name.extend_from_slice(b"000000000000000000000000"); let c = u8s(); assume(c < 0x80 && c != b'.'); name.push(c) }
    }
    judge(&typ, &name);
}
/// Text that is not ASCII never names anything here and never crashes.
pub fn foreign() {
    let typ = parse(NAMED[pickz(5)]);
    let mut name = Vec::new();
    let pre = pickz(2);
    for _ in 0..pre { name.extend_from_slice(b"b.") }
    let c = u32s();
    match char::from_u32(c) {
        Some(c) => { let mut b = [0; 4]; let s = c.encode_utf8(&mut b).as_bytes().to_vec(); name.extend_from_slice(&s) }
        None => return,
    }
    if bools() { name.extend_from_slice(b".a") }
    judge(&typ, &name);
}

// C13

#[derive(Clone)]
enum Val { P(PrimitiveValue), S(Vec<u8>), T(usize) }

fn value(k: usize) -> Val {
    match k {
        0 => Val::P(PrimitiveValue::Bool(bools())),
        1 => Val::P(PrimitiveValue::Char(match char::from_u32(u32s()) { Some(c) => c, None => 'x' })),
        2 => Val::P(PrimitiveValue::U8(u8s())),
        3 => Val::P(PrimitiveValue::U16(u16s())),
        4 => Val::P(PrimitiveValue::U32(u32s())),
        5 => Val::P(PrimitiveValue::U64(u64s())),
        6 => Val::P(PrimitiveValue::U128(u128s())),
        7 => Val::P(PrimitiveValue::I8(u8s() as i8)),
        8 => Val::P(PrimitiveValue::I16(u16s() as i16)),
        9 => Val::P(PrimitiveValue::I32(u32s() as i32)),
        10 => Val::P(PrimitiveValue::I64(u64s() as i64)),
        11 => Val::P(PrimitiveValue::I128(u128s() as i128)),
        12 => Val::P(PrimitiveValue::F32(f32::from_bits(u32s()))),
        13 => Val::P(PrimitiveValue::F64(f64::from_bits(u64s()))),
        14 => Val::T(u64s() as usize),
        k => Val::S(ascii(k - 15)),
    }
}
fn put(d: &mut IntermediateDataSource, p: &Path, v: &Val) {
    match v {
        Val::P(x) => d.add_primitive(p, *x),
        Val::S(s) => d.add_string(p, std::str::from_utf8(s).unwrap()),
        Val::T(n) => d.add_case_tag(p, *n),
    }
}
fn got(d: &IntermediateDataSource, p: &Path, v: &Val, id: u32) {
    let ok = match v {
        Val::P(PrimitiveValue::Bool(x)) => d.get_bool(p) == *x,
        Val::P(PrimitiveValue::Char(x)) => d.get_char(p) == *x,
        Val::P(PrimitiveValue::U8(x)) => d.get_u8(p) == *x,
        Val::P(PrimitiveValue::U16(x)) => d.get_u16(p) == *x,
        Val::P(PrimitiveValue::U32(x)) => d.get_u32(p) == *x,
        Val::P(PrimitiveValue::U64(x)) => d.get_u64(p) == *x,
        Val::P(PrimitiveValue::U128(x)) => d.get_u128(p) == *x,
        Val::P(PrimitiveValue::I8(x)) => d.get_i8(p) == *x,
        Val::P(PrimitiveValue::I16(x)) => d.get_i16(p) == *x,
        Val::P(PrimitiveValue::I32(x)) => d.get_i32(p) == *x,
        Val::P(PrimitiveValue::I64(x)) => d.get_i64(p) == *x,
        Val::P(PrimitiveValue::I128(x)) => d.get_i128(p) == *x,
        Val::P(PrimitiveValue::F32(x)) => d.get_f32(p).to_bits() == x.to_bits(),
        Val::P(PrimitiveValue::F64(x)) => d.get_f64(p).to_bits() == x.to_bits(),
        Val::T(x) => d.get_case_tag(p) == *x,
        Val::S(x) => d.get_length(p) == x.len() && same(d.get_bytes(p), x),
    };
    check(ok, id);
}
/// Reading with the getter of another type, or what was never stored, must be refused.
fn wrong(d: &IntermediateDataSource, p: &Path, k: usize) {
    match k {
        0 => { d.get_bool(p); }
        1 => { d.get_char(p); }
        2 => { d.get_u8(p); }
        3 => { d.get_u16(p); }
        4 => { d.get_u32(p); }
        5 => { d.get_u64(p); }
        6 => { d.get_u128(p); }
        7 => { d.get_i8(p); }
        8 => { d.get_i16(p); }
        9 => { d.get_i32(p); }
        10 => { d.get_i64(p); }
        11 => { d.get_i128(p); }
        12 => { d.get_f32(p); }
        13 => { d.get_f64(p); }
        14 => { d.get_case_tag(p); }
        15 => { d.get_length(p); }
        _ => { d.get_bytes(p); }
    }
}
fn kind_of(v: &Val) -> usize {
    match v {
        Val::P(x) => PRIMS.iter().position(|q| q.1 == x.primitive()).unwrap(),
        Val::T(_) => 14,
        Val::S(_) => 15,
    }
}

/// A history of insertions at arbitrary paths.
pub fn collection() {
    let n = 1 + pickz(if thorough() { 5 } else { 4 });
    let mut d = IntermediateDataSource::new();
    let mut want: Vec<(Vec<usize>, Val)> = Vec::new();
    for i in 0..n {
        if i > 0 && i == config() && bools() { d.clear(); want.clear(); cover(2) }
        let len = pickz(3);
        let c: Vec<usize> = (0..len).map(|_| u8s() as usize).collect();
        let v = match (i + config()) % 3 { 0 => Val::P(PrimitiveValue::U16(u16s())), 1 => value(15 + pickz(2)), _ => Val::T(u64s() as usize) };
        put(&mut d, &make(&c), &v);
        let at = want.iter().position(|w| order(&w.0, &c) == Ordering::Equal);
        match at { Some(k) => { want[k].1 = v; cover(3) } None => want.push((c, v)) }
    }
    for (c, v) in &want { got(&d, &make(c), v, 1) }
    cover(1);
}
/// Every kind of value replaced by every other kind, next to others, read with every getter.
pub fn kinds() {
    let mut d = IntermediateDataSource::new();
    let (p, q) = (make(&[1]), make(&[1, 0]));
    let before = value(pickz(17));
    let other = value(15 + pickz(2));
    let v = value(pickz(17));
    let fresh = pick(3);
    if fresh == 0 { put(&mut d, &p, &before) }
    put(&mut d, &q, &other);
    if fresh == 2 { d.clear(); put(&mut d, &q, &other) }
    put(&mut d, &p, &v);
    got(&d, &p, &v, 1);
    got(&d, &q, &other, 2);
    cover(1);
    let k = pickz(17);
    if (if k == 16 { 15 } else { k }) == kind_of(&v) { return }
    expect_panic(true);
    wrong(&d, &p, k);
    check(false, 3);
}
/// What was never stored, or was cleared, cannot be read.
pub fn absent() {
    let mut d = IntermediateDataSource::new();
    let (a, b) = (components(2), components(2));
    let v = value(pickz(16));
    put(&mut d, &make(&a), &v);
    let cleared = bools();
    if cleared { d.clear() } else { assume(order(&a, &b) != Ordering::Equal) }
    cover(1);
    expect_panic(true);
    wrong(&d, &make(if cleared { &a } else { &b }), kind_of(&v));
    check(false, 1);
}
/// Many entries (the tree has several nodes), inserted in different orders, then one more anywhere.
pub fn many() {
    let n = if thorough() { 40 } else { 16 };
    let step = [1, 3, 5, 7, 11, 13][pickz(6)];
    let mut d = IntermediateDataSource::new();
    let key = |k: usize| if k % 3 == 0 { vec![2 * k + 1] } else { vec![2 * k + 1, k] };
    let base = u32s();
    for i in 0..n { let k = i * step % (n + 1); put(&mut d, &make(&key(k)), &Val::P(PrimitiveValue::U32(base ^ k as u32))) }
    let mut c = vec![u64s() as usize];
    if bools() { c.push(u64s() as usize) }
    let x = u32s();
    put(&mut d, &make(&c), &Val::P(PrimitiveValue::U32(x)));
    for i in 0..n {
        let k = i * step % (n + 1);
        let w = if order(&c, &key(k)) == Ordering::Equal { cover(2); x } else { base ^ k as u32 };
        got(&d, &make(&key(k)), &Val::P(PrimitiveValue::U32(w)), 1);
    }
    got(&d, &make(&c), &Val::P(PrimitiveValue::U32(x)), 2);
    cover(1);
}
/// Text of any characters, and long text, next to and in place of other text.
pub fn texts() {
    let mut d = IntermediateDataSource::new();
    let (p, q) = (make(&[1]), make(&[1, 0]));
    let text = |n: usize| {
        let mut s = ascii(pickz(2));
        for _ in 0..n {
            if let Some(c) = char::from_u32(u32s()) { let mut b = [0; 4]; s.extend_from_slice(c.encode_utf8(&mut b).as_bytes()) }
        }
        s.extend(ascii(pickz(2)));
        s
    };
    let (a, b) = (text(if thorough() { 2 } else { 1 }), text(1));
    put(&mut d, &p, &Val::S(a.clone()));
    put(&mut d, &q, &Val::S(b.clone()));
    got(&d, &p, &Val::S(a), 1);
    got(&d, &q, &Val::S(b.clone()), 2);
    let n = [0, 23, 24, 255, 256, 257, 5000, 65600, 65535, 65536][pickz(if thorough() { 10 } else { 8 })];
    let c = u8s() & 0x7f;
    let long: Vec<u8> = (0..n).map(|i| if i % 97 == 5 || i + 1 == n { c } else { b'a' + (i % 23) as u8 }).collect();
    put(&mut d, &p, &Val::S(long.clone()));
    got(&d, &p, &Val::S(long), 3);
    got(&d, &q, &Val::S(b), 4);
    cover(1);
}
/// C11: long paths that differ in one component, or in their lengths.
pub fn long_paths() {
    let n = [7, 8, 9, 15, 16, 17, 32, 33, 64, 65, 129][pickz(if thorough() { 11 } else { 8 })];
    let (i, j) = ([0, 1, n / 2, n - 1][pickz(4)], [0, 1, n / 2, n - 1][pickz(4)]);
    let base: Vec<usize> = (0..n).map(|k| k * 3 % 7).collect();
    let (mut a, mut b) = (base.clone(), base);
    a[i] = u64s() as usize;
    b[j] = u64s() as usize;
    match pickz(4) { 0 => (), 1 => a.truncate(n - 1), 2 => b.truncate(n / 2), _ => b.push(u64s() as usize) }
    let (p, q) = (make(&a), make(&b));
    let o = order(&a, &b);
    check(p.cmp(&q) == o, 1);
    check((p == q) == (o == Ordering::Equal), 3);
    check((p < q) == (o == Ordering::Less) && (p >= q) == (o != Ordering::Less), 5);
    let s = starts(&a, &b);
    check(p.is_prefix_of(&q) == s, 7);
    check(p.is_proper_prefix_of(&q) == (s && a.len() < b.len()), 8);
    check(q.is_prefix_of(&p) == starts(&b, &a), 9);
    check(q.is_proper_prefix_of(&p) == (starts(&b, &a) && b.len() < a.len()), 10);
    check(same_path(p.path(), &a) && same_path(q.path(), &b), 11);
    if s { cover(1) }
}
/// C12: many labels, and long ones that differ in one character.
pub fn crowd() {
    let k = [2, 17, 33, 9, 65, 129, 300][pickz(if thorough() { 7 } else { 3 })];
    let d = [0, 1, k / 2, k - 2, k - 1][pickz(5)];
    let len = [1, 31, 64, 7, 33, 255][pickz(if thorough() { 6 } else { 3 })];
    let place = [0, len / 2, len][pickz(3)];
    // labels of the same length that differ at one place, in letters and in their case
    let label = |i: usize| { let mut s = "a".repeat(place); s.push(char::from(b'0' + (i / 26 % 10) as u8)); s.push(char::from(if i >= 260 { b'A' } else { b'a' } + (i % 26) as u8)); s.push_str(&"b".repeat(len - place)); s };
    let leaf = |i: usize| match i % 4 { 0 => prim(Primitive::U8), 1 => t(Kind::String), 2 => t(Kind::Tuple(vec![Box::new(prim(Primitive::U16)), Box::new(t(Kind::Unit))])), _ => t(Kind::Struct(vec![Field { label: String::from("x"), typ: Box::new(prim(Primitive::Bool)) }])) };
    let inner = match pickz(3) {
        0 => t(Kind::Struct((0..k).map(|i| Field { label: label(i), typ: Box::new(leaf(i)) }).collect())),
        1 => t(Kind::Enum((0..k).map(|i| Case { label: label(i), typ: Box::new(leaf(i)) }).collect())),
        _ => t(Kind::Tuple((0..k).map(|i| Box::new(leaf(i))).collect())),
    };
    let mut name = match &inner.kind { Kind::Tuple(_) => format!("{}", d).into_bytes(), _ => label(d).into_bytes() };
    // one character more, less or another one
    let at = [0, place, (place + 1).min(name.len() - 1), name.len() - 1][pickz(4)].min(name.len() - 1);
    match pickz(4) {
        0 => (),
        1 => { name.remove(at); }
        2 => name.insert(at, ascii(1)[0]),
        _ => name[at] = ascii(1)[0],
    }
    name.extend_from_slice([&b""[..], b".0", b".x", b".x.x", b"."][pickz(5)]);
    // below some levels of other types
    let levels = [0, 1, 17, 40, 130][pickz(if k > 2 { 2 } else if thorough() { 5 } else { 4 })];
    let mut typ = inner;
    for i in 0..levels {
        if i % 2 == 0 { typ = t(Kind::Tuple(vec![Box::new(t(Kind::Unit)), Box::new(typ)])); name.splice(0..0, b"1.".iter().copied()); }
        else { typ = t(Kind::Struct(vec![Field { label: String::from("xx"), typ: Box::new(t(Kind::Unit)) }, Field { label: String::from("x"), typ: Box::new(typ) }])); name.splice(0..0, b"x.".iter().copied()); }
    }
    judge(&typ, &name);
}
/// C13: values at long paths, at all their beginnings and next to them.
pub fn deep() {
    let n = [4, 8, 16, 17, 33][pickz(if thorough() { 5 } else { 3 })];
    let mut d = IntermediateDataSource::new();
    let base: Vec<usize> = (0..n).map(|i| i % 3 + 1).collect();
    let mut want: Vec<(Vec<usize>, Val)> = Vec::new();
    let put_ = |d: &mut IntermediateDataSource, want: &mut Vec<(Vec<usize>, Val)>, c: Vec<usize>, v: Val| {
        put(d, &make(&c), &v);
        match want.iter().position(|w| order(&w.0, &c) == Ordering::Equal) { Some(k) => { want[k].1 = v; cover(2) } None => want.push((c, v)) }
    };
    let x = u32s();
    let down = bools();
    for i in 0..n + 1 {
        let i = if down { n - i } else { i };
        put_(&mut d, &mut want, base[..i].to_vec(), Val::P(PrimitiveValue::U32(x ^ i as u32)));
        if i % 4 == 1 { let mut c = base[..i].to_vec(); c[i - 1] += 7; put_(&mut d, &mut want, c, Val::T(i)) }
    }
    // one more at any of them or next to it
    for _ in 0..if thorough() { 2 } else { 1 } {
        let l = [0, 1, n / 2, n - 1, n][pickz(5)];
        let mut c = base[..l].to_vec();
        if bools() { c.push(u8s() as usize) }
        let v = match pickz(3) { 0 => Val::P(PrimitiveValue::U32(u32s())), 1 => Val::T(u64s() as usize), _ => Val::S(ascii(1)) };
        put_(&mut d, &mut want, c, v);
    }
    for (c, v) in &want { got(&d, &make(c), v, 1) }
    cover(1);
    if bools() {
        // nothing is left when all is removed
        let k = [0, want.len() / 2, want.len() - 1][pickz(3)];
        d.clear();
        if bools() { let o = (k + 1) % want.len(); put(&mut d, &make(&want[o].0), &want[o].1); got(&d, &make(&want[o].0), &want[o].1, 2) }
        expect_panic(true);
        wrong(&d, &make(&want[k].0), kind_of(&want[k].1));
        check(false, 3);
    }
}
