//! C14: type descriptors as text.
use crate::rt::*;
use crate::typ::{parse as spell, prim, t, PRIMS};
use cathlamet::core::types::parser::TypeParser;
use cathlamet::core::types::{Case, Field, Kind, Type};

/// Runs the parser on concrete texts first: its regular expressions build
/// their automata lazily, and what is built before needs no case distinction.
fn warm() -> TypeParser {
    let p = TypeParser::new();
    let mut pre: Vec<String> = Vec::new();
    for w in PRIMS.iter().map(|x| x.0).chain(["string", "struct", "enum", "(", ")", "{", "}", ",", ":", "_0", " ", "8"]) {
        for n in 0..w.len() + 1 { let s = String::from(&w[..n]); if !pre.contains(&s) { pre.push(s) } }
    }
    for s in &pre { for c in 0..128u8 { let mut x = s.clone(); x.push(c as char); let _ = p.parse(&x); } }
    p
}

// The language, written down independently of the grammar.
#[derive(Copy, Clone, PartialEq)]
enum Tok { Word, Punct(u8), End }
struct Reader<'a> { text: &'a [u8], at: usize, start: usize, tok: Tok }
fn space(c: u8) -> bool { c == b' ' || (c >= 9 && c <= 13) }
fn letter(c: u8) -> bool { (c >= b'a' && c <= b'z') || (c >= b'A' && c <= b'Z') || c == b'_' }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
impl<'a> Reader<'a> {
    fn word(&self) -> &'a [u8] { &self.text[self.start..self.at] }
    fn next(&mut self) -> Option<()> {
        while self.at < self.text.len() && space(self.text[self.at]) { self.at += 1 }
        self.start = self.at;
        if self.at == self.text.len() { self.tok = Tok::End; return Some(()) }
        let c = self.text[self.at];
        self.at += 1;
        if letter(c) {
            while self.at < self.text.len() && (letter(self.text[self.at]) || digit(self.text[self.at])) { self.at += 1 }
            self.tok = Tok::Word;
            return Some(())
        }
        for p in [b'(', b')', b'{', b'}', b',', b':'] { if c == p { self.tok = Tok::Punct(p); return Some(()) } }
        None
    }
    fn eat(&mut self, c: u8) -> Option<()> { if self.tok == Tok::Punct(c) { self.next() } else { None } }
    fn label(&mut self) -> Option<Vec<u8>> {
        if self.tok != Tok::Word || keyword(self.word()) { return None }
        let w = self.word().to_vec();
        self.next()?;
        Some(w)
    }
    fn typ(&mut self) -> Option<Spec> {
        if self.tok == Tok::Punct(b'(') {
            self.next()?;
            let mut v = Vec::new();
            if self.tok == Tok::Punct(b')') { self.next()?; return Some(Spec::Leaf(15)) }
            loop {
                v.push(self.typ()?);
                if self.tok != Tok::Punct(b',') { break }
                self.next()?;
            }
            self.eat(b')')?;
            return Some(Spec::Tuple(v))
        }
        if self.tok != Tok::Word { return None }
        let w = self.word();
        for i in 0..14 { if same(w, PRIMS[i].0.as_bytes()) { self.next()?; return Some(Spec::Leaf(i)) } }
        if same(w, b"string") { self.next()?; return Some(Spec::Leaf(14)) }
        let sum = if same(w, b"enum") { true } else if same(w, b"struct") { false } else { return None };
        self.next()?;
        self.eat(b'{')?;
        let mut v = Vec::new();
        loop {
            let l = self.label()?;
            self.eat(b':')?;
            v.push((l, self.typ()?));
            if self.tok != Tok::Punct(b',') { break }
            self.next()?;
            if self.tok == Tok::Punct(b'}') { break }
        }
        self.eat(b'}')?;
        Some(Spec::Labelled(sum, v))
    }
}
enum Spec { Leaf(usize), Tuple(Vec<Spec>), Labelled(bool, Vec<(Vec<u8>, Spec)>) }
fn keyword(w: &[u8]) -> bool {
    for i in 0..14 { if same(w, PRIMS[i].0.as_bytes()) { return true } }
    same(w, b"string") || same(w, b"enum") || same(w, b"struct")
}
fn spec(text: &[u8]) -> Option<Spec> {
    let mut r = Reader { text, at: 0, start: 0, tok: Tok::End };
    r.next()?;
    let x = r.typ()?;
    if r.tok == Tok::End { Some(x) } else { None }
}
fn equal(s: &Spec, t: &Type) -> bool {
    match (s, &t.kind) {
        (Spec::Leaf(15), Kind::Unit) | (Spec::Leaf(14), Kind::String) => true,
        (Spec::Leaf(i), Kind::Primitive(p)) => *i < 14 && PRIMS[*i].1 == *p,
        (Spec::Tuple(v), Kind::Tuple(w)) => v.len() == w.len() && (0..v.len()).all(|i| equal(&v[i], &w[i])),
        (Spec::Labelled(false, v), Kind::Struct(w)) => v.len() == w.len() && (0..v.len()).all(|i| same(&v[i].0, w[i].label.as_bytes()) && equal(&v[i].1, &w[i].typ)),
        (Spec::Labelled(true, v), Kind::Enum(w)) => v.len() == w.len() && (0..v.len()).all(|i| same(&v[i].0, w[i].label.as_bytes()) && equal(&v[i].1, &w[i].typ)),
        _ => false,
    }
}
fn judge(p: &TypeParser, text: &[u8]) {
    let s = match std::str::from_utf8(text) { Ok(s) => s, Err(_) => return };
    let r = p.parse(s);
    match (spec(text), r) {
        (None, Err(_)) => cover(1),
        (Some(x), Ok(typ)) => { check(equal(&x, &typ), 1); cover(2) }
        (None, Ok(_)) => check(false, 2),
        (Some(_), Err(_)) => check(false, 3),
    }
}
fn ascii() -> u8 { let c = u8s(); assume(c < 0x80); c }

/// Any short text.
pub fn short() {
    let p = warm();
    let n = pickz(if thorough() { 7 } else { 5 });
    let text: Vec<u8> = (0..n).map(|_| ascii()).collect();
    judge(&p, &text);
}
const TEXTS: [&str; 12] = [
    "(u8,i16 , string)",
    "struct{a:u8,b:(),}",
    "enum { first : bool , c2 : u128 }",
    "((),(char),((f32)))",
    "struct { x: enum { y: struct { z: i64 } } }",
    "enum{a:u8,b:i8,c:u32,d:i32,e:u16}",
    "struct { u: string, i: string,}",
    "f64", "i128", "string", "()", "\n\tstruct\r{\n_\t:\ti8\n}\n",
];
/// A text with something changed anywhere.
pub fn edited() {
    let p = warm();
    let base = TEXTS[config() % TEXTS.len()].as_bytes();
    let at = pickz(base.len() + 1);
    let mut text = base[..at].to_vec();
    match pick(4) {
        0 => { text.push(ascii()); text.extend_from_slice(&base[at..]) }
        1 => { if at == base.len() { return } text.push(ascii()); text.extend_from_slice(&base[at + 1..]) }
        2 => { if at == base.len() { return } text.extend_from_slice(&base[at + 1..]) }
        _ => { if bools() { text.push(ascii()); if thorough() { text.push(ascii()) } } }
    }
    judge(&p, &text);
}
fn write(typ: &Type, out: &mut Vec<u8>, gap: &mut dyn FnMut(&mut Vec<u8>)) {
    let list = |v: Vec<(&[u8], &Type)>, out: &mut Vec<u8>, gap: &mut dyn FnMut(&mut Vec<u8>)| {
        let n = v.len();
        for (i, (l, x)) in v.into_iter().enumerate() {
            out.extend_from_slice(l);
            gap(out);
            out.push(b':');
            gap(out);
            write(x, out, gap);
            gap(out);
            if i + 1 < n { out.push(b','); gap(out) }
        }
    };
    match &typ.kind {
        Kind::Unit => { out.push(b'('); gap(out); out.push(b')') }
        Kind::Primitive(p) => out.extend_from_slice(PRIMS.iter().find(|x| x.1 == *p).unwrap().0.as_bytes()),
        Kind::String => out.extend_from_slice(b"string"),
        Kind::Tuple(v) => {
            out.push(b'(');
            for (i, x) in v.iter().enumerate() { gap(out); write(x, out, gap); gap(out); if i + 1 < v.len() { out.push(b',') } }
            out.push(b')');
        }
        Kind::Struct(v) => {
            out.extend_from_slice(b"struct");
            gap(out); out.push(b'{'); gap(out);
            list(v.iter().map(|f| (f.label.as_bytes(), &*f.typ)).collect(), out, gap);
            out.push(b'}');
        }
        Kind::Enum(v) => {
            out.extend_from_slice(b"enum");
            gap(out); out.push(b'{'); gap(out);
            list(v.iter().map(|f| (f.label.as_bytes(), &*f.typ)).collect(), out, gap);
            out.push(b'}');
        }
    }
}
fn matches(a: &Type, b: &Type) -> bool {
    match (&a.kind, &b.kind) {
        (Kind::Tuple(v), Kind::Tuple(w)) => v.len() == w.len() && (0..v.len()).all(|i| matches(&v[i], &w[i])),
        (Kind::Struct(v), Kind::Struct(w)) => v.len() == w.len() && (0..v.len()).all(|i| same(v[i].label.as_bytes(), w[i].label.as_bytes()) && matches(&v[i].typ, &w[i].typ)),
        (Kind::Enum(v), Kind::Enum(w)) => v.len() == w.len() && (0..v.len()).all(|i| same(v[i].label.as_bytes(), w[i].label.as_bytes()) && matches(&v[i].typ, &w[i].typ)),
        (a, b) => a == b,
    }
}
fn label(n: usize) -> String {
    let mut v = Vec::new();
    for i in 0..n { let c = u8s(); assume(letter(c) || (i > 0 && digit(c))); v.push(c) }
    assume(!keyword(&v));
    String::from_utf8(v).unwrap()
}
/// Every type of some shapes, spelled with arbitrary labels and white space.
pub fn spelled() {
    let p = warm();
    let leaf = || { let k = pickz(16); if k < 14 { prim(PRIMS[k].1) } else if k == 14 { t(Kind::String) } else { t(Kind::Unit) } };
    let labels = pickz(2) == 1;
    let mut name = |short: &str| if labels { label(1) } else { String::from(short) };
    let typ = match config() % 6 {
        0 => leaf(),
        1 => t(Kind::Tuple(vec![Box::new(leaf()), Box::new(t(Kind::Tuple(vec![Box::new(t(Kind::Unit))]))), Box::new(leaf())])),
        2 => t(Kind::Struct(vec![Field { label: name("a"), typ: Box::new(leaf()) }, Field { label: name("bc"), typ: Box::new(t(Kind::String)) }])),
        3 => t(Kind::Enum(vec![Case { label: name("a"), typ: Box::new(prim(PRIMS[0].1)) }, Case { label: name("bc"), typ: Box::new(leaf()) }])),
        4 => t(Kind::Struct(vec![Field { label: name("x"), typ: Box::new(t(Kind::Enum(vec![Case { label: name("y"), typ: Box::new(t(Kind::Tuple(vec![Box::new(leaf())]))) }]))) }])),
        _ => t(Kind::Enum(vec![Case { label: label(if thorough() { 3 } else { 2 }), typ: Box::new(t(Kind::Struct(vec![Field { label: label(1), typ: Box::new(t(Kind::Unit)) }]))) }])),
    };
    // count the gaps, then put white space of any kind at one of them
    let mut n = 0;
    write(&typ, &mut Vec::new(), &mut |_| n += 1);
    let at = if labels && config() % 6 != 5 { 99 } else { pickz(n + 2) };
    let mut ws = Vec::new();
    for _ in 0..2 { let c = u8s(); assume(space(c)); ws.push(c) }
    let two = config() % 6 != 5 && bools();
    let mut text = Vec::new();
    let mut put = |out: &mut Vec<u8>| { out.push(ws[0]); if two { out.push(ws[1]) } };
    if at == n { put(&mut text) }
    let mut i = 0;
    write(&typ, &mut text, &mut |out| { if i == at { put(out) } i += 1; });
    if at == n + 1 { put(&mut text) }
    match p.parse(std::str::from_utf8(&text).unwrap()) {
        Ok(x) => { check(matches(&typ, &x), 1); cover(1) }
        Err(_) => check(false, 2),
    }
}
/// Long lists, deep nesting, long labels.
pub fn large() {
    let p = warm();
    let n = [9, 16, 33][pickz(3)];
    let (typ, mut trailing) = match pick(4) {
        0 => (t(Kind::Tuple((0..n).map(|i| Box::new(prim(PRIMS[i % 14].1))).collect())), false),
        1 => (t(Kind::Struct((0..n).map(|i| Field { label: format!("g{}", i), typ: Box::new(prim(PRIMS[i % 14].1)) }).collect())), true),
        2 => (t(Kind::Enum((0..n).map(|i| Case { label: format!("g{}", i), typ: Box::new(if i % 3 == 0 { t(Kind::Unit) } else { prim(PRIMS[i % 14].1) }) }).collect())), true),
        _ => {
            let mut x = spell("{a:u8,b:<c:string>}");
            for i in 0..n { x = if i % 3 == 0 { t(Kind::Tuple(vec![Box::new(x)])) } else if i % 3 == 1 { t(Kind::Struct(vec![Field { label: format!("x{}", i), typ: Box::new(x) }])) } else { t(Kind::Enum(vec![Case { label: String::from("e"), typ: Box::new(x) }, Case { label: String::from("f"), typ: Box::new(t(Kind::Unit)) }])) } }
            (x, false)
        }
    };
    trailing = trailing && bools();
    let mut text = Vec::new();
    write(&typ, &mut text, &mut |_| ());
    if trailing { text.pop(); text.extend_from_slice(b",}") }
    match p.parse(std::str::from_utf8(&text).unwrap()) {
        Ok(x) => { check(matches(&typ, &x), 1); cover(1) }
        Err(_) => check(false, 2),
    }
    // a long label with one arbitrary character
    let k = pickz(n);
    let mut l = vec![b'q'; n];
    l[k] = ascii();
    let mut text = b"struct{".to_vec();
    text.extend_from_slice(&l);
    text.extend_from_slice(b":bool}");
    judge(&p, &text);
}
/// One character of any kind among ASCII text.
pub fn foreign() {
    let p = warm();
    let c = match char::from_u32(u32s()) { Some(c) => c, None => return };
    assume(c as u32 >= 0x80);
    let mut b = [0; 4];
    let c = c.encode_utf8(&mut b).as_bytes().to_vec();
    let (before, after) = [("", "u8"), ("struct{a", ":u8}"), ("struct{", ":u8}"), ("u8", "")][config() % 4];
    let mut text = before.as_bytes().to_vec();
    text.extend_from_slice(&c);
    text.extend_from_slice(after.as_bytes());
    let r = p.parse(std::str::from_utf8(&text).unwrap());
    // white space beyond ASCII separates, everything else is refused
    if r.is_ok() { check(equal_any(&r.unwrap(), config() % 4), 1); cover(2) } else { cover(1) }
}
fn equal_any(x: &Type, k: usize) -> bool {
    let want = if k == 0 || k == 3 { spell("u8") } else { spell("{a:u8}") };
    k != 2 && matches(&want, x)
}
