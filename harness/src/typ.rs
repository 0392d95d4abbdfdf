//! Types, values of them, and a data source that is independent of the code under test.
use crate::rt::*;
use cathlamet::core::data_source::DataSource;
use cathlamet::core::types::{Case, Field, Kind, Path, Primitive, Type};

pub const PRIMS: [(&str, Primitive); 14] = [
    ("bool", Primitive::Bool), ("char", Primitive::Char), ("u8", Primitive::U8), ("u16", Primitive::U16), ("u32", Primitive::U32),
    ("u64", Primitive::U64), ("u128", Primitive::U128), ("i8", Primitive::I8), ("i16", Primitive::I16), ("i32", Primitive::I32),
    ("i64", Primitive::I64), ("i128", Primitive::I128), ("f32", Primitive::F32), ("f64", Primitive::F64),
];

pub fn t(kind: Kind) -> Type { Type { kind } }
pub fn prim(p: Primitive) -> Type { t(Kind::Primitive(p)) }

/// Reads: name, (a,b) tuple, {x:a} struct, <x:a> enum, <N:a> enum of N cases all of type a.
pub fn parse(s: &str) -> Type {
    let b = s.as_bytes();
    let mut i = 0;
    let r = parse_at(b, &mut i);
    assert!(i == b.len());
    r
}
fn word(b: &[u8], i: &mut usize) -> String {
    let mut w = String::new();
    while *i < b.len() && (b[*i] == b'_' || b[*i].is_ascii_alphanumeric()) { w.push(b[*i] as char); *i += 1 }
    w
}
fn parse_at(b: &[u8], i: &mut usize) -> Type {
    match b[*i] {
        b'(' => {
            *i += 1;
            let mut v = Vec::new();
            while b[*i] != b')' {
                v.push(Box::new(parse_at(b, i)));
                if b[*i] == b',' { *i += 1 }
            }
            *i += 1;
            if v.len() == 0 { t(Kind::Unit) } else { t(Kind::Tuple(v)) }
        }
        c @ (b'{' | b'<') => {
            *i += 1;
            let mut v = Vec::new();
            while b[*i] != b'}' && b[*i] != b'>' {
                let label = word(b, i);
                assert!(b[*i] == b':');
                *i += 1;
                v.push((label, parse_at(b, i)));
                if b[*i] == b',' { *i += 1 }
            }
            *i += 1;
            if c == b'{' { return t(Kind::Struct(v.into_iter().map(|(label, typ)| Field { label, typ: Box::new(typ) }).collect())) }
            if let Ok(n) = v[0].0.parse::<usize>() {
                let typ = v[0].1.clone();
                v = (0..n).map(|k| (format!("c{}", k), typ.clone())).collect();
            }
            t(Kind::Enum(v.into_iter().map(|(label, typ)| Case { label, typ: Box::new(typ) }).collect()))
        }
        _ => {
            let w = word(b, i);
            if w == "string" { return t(Kind::String) }
            match PRIMS.iter().find(|p| p.0 == w) { Some(p) => prim(p.1), None => panic!("spec {}", w) }
        }
    }
}

/// Any type of at most this depth and width; forks.
pub fn any_type(depth: usize, width: usize, leaves: &[&str]) -> Type {
    let k = pickz(leaves.len() + if depth > 0 { 3 } else { 0 });
    if k < leaves.len() { return parse(leaves[k]) }
    let n = 1 + pickz(width);
    let v: Vec<Box<Type>> = (0..n).map(|_| Box::new(any_type(depth - 1, width, leaves))).collect();
    let label = |i: usize| String::from(["a", "bb", "c", "d"][i]);
    match k - leaves.len() {
        0 => t(Kind::Tuple(v)),
        1 => t(Kind::Struct(v.into_iter().enumerate().map(|(i, typ)| Field { label: label(i), typ }).collect())),
        _ => t(Kind::Enum(v.into_iter().enumerate().map(|(i, typ)| Case { label: label(i), typ }).collect())),
    }
}

#[derive(Clone)]
pub enum Leaf { Prim(Primitive, u128), Str(Vec<u8>), Tag(usize) }

pub fn width(p: Primitive) -> u32 {
    match p {
        Primitive::Bool | Primitive::U8 | Primitive::I8 => 8,
        Primitive::U16 | Primitive::I16 => 16,
        Primitive::Char | Primitive::U32 | Primitive::I32 | Primitive::F32 => 32,
        Primitive::U64 | Primitive::I64 | Primitive::F64 => 64,
        Primitive::U128 | Primitive::I128 => 128,
    }
}
pub fn any_char() -> char {
    let c = bits(21) as u32;
    assume(c < 0x110000 && !(c >= 0xd800 && c < 0xe000));
    unsafe { char::from_u32_unchecked(c) }
}
pub fn any_prim(p: Primitive) -> u128 {
    match p {
        Primitive::Bool => bools() as u128,
        Primitive::Char => any_char() as u128,
        _ => match width(p) { 8 => u8s() as u128, 16 => u16s() as u128, 32 => u32s() as u128, 64 => u64s() as u128, _ => u128s() },
    }
}
/// A symbolic case number of an enum of n cases; forks.
pub fn any_tag(n: usize) -> usize {
    if n <= 6 { return size(n) }
    let mut v = vec![0, 1, 127, 128, 255, 256, n / 2, n - 1];
    v.retain(|x| *x < n);
    v[pickz(v.len())]
}

/// The values under a path, in order of their paths.
#[derive(Clone)]
pub struct Source(pub Vec<(Path, Leaf)>);

impl Source {
    pub fn any(typ: &Type, maxlen: usize) -> Source {
        let mut s = Source(Vec::new());
        s.fill(typ, &Path::create_empty(), &mut |_| bytes(size(maxlen + 1)));
        s
    }
    pub fn fill(&mut self, typ: &Type, at: &Path, string: &mut dyn FnMut(&Path) -> Vec<u8>) {
        match &typ.kind {
            Kind::Unit => (),
            Kind::Primitive(p) => self.0.push((at.clone(), Leaf::Prim(*p, any_prim(*p)))),
            Kind::String => { let s = string(at); self.0.push((at.clone(), Leaf::Str(s))) }
            Kind::Tuple(v) => for (i, c) in v.iter().enumerate() { self.fill(c, &at.with_component(i), string) },
            Kind::Struct(v) => for (i, c) in v.iter().enumerate() { self.fill(&c.typ, &at.with_component(i), string) },
            Kind::Enum(v) => {
                let k = any_tag(v.len());
                self.0.push((at.clone(), Leaf::Tag(k)));
                self.fill(&v[k].typ, &at.with_component(k), string)
            }
        }
    }
    /// The same case tags and string lengths with other contents.
    pub fn reshuffled(&self) -> Source {
        Source(self.0.iter().map(|(p, l)| (p.clone(), match l {
            Leaf::Prim(k, _) => Leaf::Prim(*k, any_prim(*k)),
            Leaf::Str(s) => Leaf::Str(bytes(s.len())),
            Leaf::Tag(k) => Leaf::Tag(*k),
        })).collect())
    }
    pub fn get(&self, path: &Path) -> &Leaf {
        let p = path.path();
        for (q, l) in self.0.iter() { if q.path() == p { return l } }
        panic!("the element does not exist in this value")
    }
    fn raw(&self, path: &Path, want: Primitive) -> u128 {
        match self.get(path) { Leaf::Prim(p, v) if *p == want => *v, _ => panic!("element asked for with the wrong type") }
    }
}

impl DataSource for Source {
    fn get_bool(&self, p: &Path) -> bool { self.raw(p, Primitive::Bool) != 0 }
    fn get_char(&self, p: &Path) -> char { unsafe { char::from_u32_unchecked(self.raw(p, Primitive::Char) as u32) } }
    fn get_f32(&self, p: &Path) -> f32 { f32::from_bits(self.raw(p, Primitive::F32) as u32) }
    fn get_f64(&self, p: &Path) -> f64 { f64::from_bits(self.raw(p, Primitive::F64) as u64) }
    fn get_u8(&self, p: &Path) -> u8 { self.raw(p, Primitive::U8) as u8 }
    fn get_u16(&self, p: &Path) -> u16 { self.raw(p, Primitive::U16) as u16 }
    fn get_u32(&self, p: &Path) -> u32 { self.raw(p, Primitive::U32) as u32 }
    fn get_u64(&self, p: &Path) -> u64 { self.raw(p, Primitive::U64) as u64 }
    fn get_u128(&self, p: &Path) -> u128 { self.raw(p, Primitive::U128) }
    fn get_i8(&self, p: &Path) -> i8 { self.raw(p, Primitive::I8) as i8 }
    fn get_i16(&self, p: &Path) -> i16 { self.raw(p, Primitive::I16) as i16 }
    fn get_i32(&self, p: &Path) -> i32 { self.raw(p, Primitive::I32) as i32 }
    fn get_i64(&self, p: &Path) -> i64 { self.raw(p, Primitive::I64) as i64 }
    fn get_i128(&self, p: &Path) -> i128 { self.raw(p, Primitive::I128) as i128 }
    fn get_case_tag(&self, p: &Path) -> usize { match self.get(p) { Leaf::Tag(t) => *t, _ => panic!("not an enum") } }
    fn get_length(&self, p: &Path) -> usize { match self.get(p) { Leaf::Str(t) => t.len(), _ => panic!("not a string") } }
    fn get_bytes<'a>(&'a self, p: &Path) -> &'a [u8] { match self.get(p) { Leaf::Str(t) => t, _ => panic!("not a string") } }
}

/// The bits a data source has for a primitive.
pub fn read_prim(d: &dyn DataSource, p: &Path, k: Primitive) -> u128 {
    match k {
        Primitive::Bool => raw_bool(d.get_bool(p)) as u128,
        Primitive::Char => raw_char(d.get_char(p)) as u128,
        Primitive::U8 => d.get_u8(p) as u128,
        Primitive::U16 => d.get_u16(p) as u128,
        Primitive::U32 => d.get_u32(p) as u128,
        Primitive::U64 => d.get_u64(p) as u128,
        Primitive::U128 => d.get_u128(p),
        Primitive::I8 => d.get_i8(p) as u8 as u128,
        Primitive::I16 => d.get_i16(p) as u16 as u128,
        Primitive::I32 => d.get_i32(p) as u32 as u128,
        Primitive::I64 => d.get_i64(p) as u64 as u128,
        Primitive::I128 => d.get_i128(p) as u128,
        Primitive::F32 => d.get_f32(p).to_bits() as u128,
        Primitive::F64 => d.get_f64(p).to_bits() as u128,
    }
}
/// The stored representation, which the compiler may not assume to be valid.
pub fn raw_bool(b: bool) -> u8 { unsafe { std::ptr::read_volatile(&b as *const bool as *const u8) } }
pub fn raw_char(c: char) -> u32 { unsafe { std::ptr::read_volatile(&c as *const char as *const u32) } }

/// Every element the source has reads the same from d.
pub fn agree(s: &Source, d: &dyn DataSource, id: u32) {
    for (p, l) in s.0.iter() {
        match l {
            Leaf::Prim(k, v) => check(read_prim(d, p, *k) == *v, id),
            Leaf::Str(b) => { check(d.get_length(p) == b.len(), id + 1); check(same(d.get_bytes(p), b), id + 2) }
            Leaf::Tag(t) => check(d.get_case_tag(p) == *t, id + 3),
        }
    }
}
