//! C07 to C10: JSON.
use crate::rt::*;
use crate::typ::*;
use cathlamet::core::data_source::{DataSource, IntermediateDataSource};
use cathlamet::core::json::decoder::JsonDecoder;
use cathlamet::core::json::encoder::JsonEncoder;
use cathlamet::core::json::tokenizer::{Token, Tokenizer};
use cathlamet::core::types::{Kind, Path, Primitive, Type};

// ---- an independent reading of RFC 8259's lexical grammar --------------------
#[derive(Clone, Copy, PartialEq, Eq)]
enum T { Null, True, False, Str, Num, Lb, Rb, Ls, Rs, Comma, Colon }
struct Tok { kind: T, text: Vec<u8> }

fn push_char(v: &mut Vec<u8>, c: u32) {
    if c < 0x80 { v.push(c as u8) }
    else if c < 0x800 { v.push(0xc0 | (c >> 6) as u8); v.push(0x80 | (c & 63) as u8) }
    else if c < 0x10000 { v.push(0xe0 | (c >> 12) as u8); v.push(0x80 | (c >> 6 & 63) as u8); v.push(0x80 | (c & 63) as u8) }
    else { v.push(0xf0 | (c >> 18) as u8); v.push(0x80 | (c >> 12 & 63) as u8); v.push(0x80 | (c >> 6 & 63) as u8); v.push(0x80 | (c & 63) as u8) }
}
fn at(b: &[u8], i: usize) -> u8 { if i < b.len() { b[i] } else { 0 } }
fn hex4(b: &[u8], i: usize) -> Option<u32> {
    let mut v = 0;
    for k in i..i + 4 {
        let c = at(b, k);
        let d = match c { b'0'..=b'9' => c - b'0', b'a'..=b'f' => c - b'a' + 10, b'A'..=b'F' => c - b'A' + 10, _ => return None };
        v = v * 16 + d as u32;
    }
    Some(v)
}
/// The string literal starting at b[i]: its contents and where it ends.
fn string_at(b: &[u8], mut i: usize) -> Option<(Vec<u8>, usize)> {
    if at(b, i) != b'"' { return None }
    i += 1;
    let mut v = Vec::new();
    loop {
        if i >= b.len() { return None }
        let c = b[i];
        if c == b'"' { return Some((v, i + 1)) }
        if c < 0x20 { return None }
        if c != b'\\' { v.push(c); i += 1; continue }
        i += 1;
        match at(b, i) {
            b'"' => v.push(b'"'), b'\\' => v.push(b'\\'), b'/' => v.push(b'/'),
            b'b' => v.push(8), b'f' => v.push(12), b'n' => v.push(10), b'r' => v.push(13), b't' => v.push(9),
            b'u' => {
                let mut c = hex4(b, i + 1)?;
                i += 4;
                if c >= 0xd800 && c < 0xe000 {
                    // only pairs of surrogates stand for a character
                    if c >= 0xdc00 || at(b, i + 1) != b'\\' || at(b, i + 2) != b'u' { return None }
                    let d = hex4(b, i + 3)?;
                    if d < 0xdc00 || d >= 0xe000 { return None }
                    i += 6;
                    c = 0x10000 + (c - 0xd800) * 1024 + (d - 0xdc00);
                }
                push_char(&mut v, c);
            }
            _ => return None,
        }
        i += 1;
    }
}
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
/// The number starting at b[i] ends here.
fn number_at(b: &[u8], mut i: usize) -> Option<usize> {
    if at(b, i) == b'-' { i += 1 }
    if at(b, i) == b'0' {
        i += 1;
        if digit(at(b, i)) { return None }
    } else {
        if !digit(at(b, i)) { return None }
        while digit(at(b, i)) { i += 1 }
    }
    if at(b, i) == b'.' {
        i += 1;
        if !digit(at(b, i)) { return None }
        while digit(at(b, i)) { i += 1 }
    }
    if at(b, i) == b'e' || at(b, i) == b'E' {
        i += 1;
        if at(b, i) == b'+' || at(b, i) == b'-' { i += 1 }
        if !digit(at(b, i)) { return None }
        while digit(at(b, i)) { i += 1 }
    }
    Some(i)
}
/// None: not a sequence of tokens.
fn lex(b: &[u8]) -> Option<Vec<Tok>> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let one = |kind| Tok { kind, text: Vec::new() };
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b'{' => { v.push(one(T::Lb)); i += 1 }
            b'}' => { v.push(one(T::Rb)); i += 1 }
            b'[' => { v.push(one(T::Ls)); i += 1 }
            b']' => { v.push(one(T::Rs)); i += 1 }
            b',' => { v.push(one(T::Comma)); i += 1 }
            b':' => { v.push(one(T::Colon)); i += 1 }
            b'n' | b't' | b'f' => {
                let (w, kind): (&[u8], T) = match c { b'n' => (b"null", T::Null), b't' => (b"true", T::True), _ => (b"false", T::False) };
                for k in 0..w.len() { if at(b, i + k) != w[k] { return None } }
                i += w.len();
                // a letter or digit would continue the word
                let d = at(b, i);
                if digit(d) || (d | 32 >= b'a' && d | 32 <= b'z') { return None }
                v.push(one(kind));
            }
            b'"' => { let (text, e) = string_at(b, i)?; v.push(Tok { kind: T::Str, text }); i = e }
            _ if c == b'-' || digit(c) => { let e = number_at(b, i)?; v.push(Tok { kind: T::Num, text: b[i..e].to_vec() }); i = e }
            _ => return None,
        }
    }
    Some(v)
}
fn kind(t: &Token) -> Option<T> {
    Some(match t {
        Token::Null => T::Null, Token::True => T::True, Token::False => T::False, Token::String => T::Str, Token::Number => T::Num,
        Token::BeginObject => T::Lb, Token::EndObject => T::Rb, Token::BeginArray => T::Ls, Token::EndArray => T::Rs,
        Token::Comma => T::Comma, Token::Colon => T::Colon, _ => return None,
    })
}
fn tokenize(s: &str) -> Option<Vec<Tok>> {
    let mut v = Vec::new();
    let mut t = match Tokenizer::new(s) { Ok(t) => t, Err(_) => return None };
    loop {
        if t.token == Token::Eof { return Some(v) }
        let k = match kind(&t.token) { Some(k) => k, None => return None };
        let text = if k == T::Str || k == T::Num { t.value().as_bytes().to_vec() } else { Vec::new() };
        v.push(Tok { kind: k, text });
        if t.next().is_err() { return None }
        check(v.len() <= s.len(), 9);
    }
}
fn text(b: &[u8]) -> &str { unsafe { std::str::from_utf8_unchecked(b) } }

/// C09
fn compare_tokens(b: &[u8]) {
    let got = tokenize(text(b));
    let want = lex(b);
    observe(got.is_some() as u64);
    match (got, want) {
        (None, None) => cover(1),
        (Some(g), Some(w)) => {
            check(g.len() == w.len(), 1);
            for i in 0..g.len().min(w.len()) {
                check(g[i].kind == w[i].kind, 2);
                check(same(&g[i].text, &w[i].text), 3);
            }
            cover(2);
        }
        (Some(_), None) => check(false, 4),
        (None, Some(_)) => check(false, 5),
    }
}

/// A symbolic byte out of a set.
fn among(set: &[u8]) -> u8 {
    let i = below(set.len() as u64) as u8;
    let mut c = 0u8;
    for (k, x) in set.iter().enumerate() { c |= (i == k as u8) as u8 * x }
    c
}
fn ascii() -> u8 { bits(7) as u8 }

/// C09: short texts of all kinds.
pub fn tokens() {
    let mut b: Vec<u8> = Vec::new();
    match config() {
        0 => for _ in 0..size(if thorough() { 6 } else { 5 }) { b.push(ascii()) },
        1 => { b.push(b'1'); let c = any_char(); push_char(&mut b, c as u32); b.push(ascii()) }
        2 => for _ in 0..size(if thorough() { 9 } else { 8 }) { b.push(among(b"-+019.eE")) },
        3 => {
            // string bodies
            b.push(b'"');
            for _ in 0..size(if thorough() { 6 } else { 5 }) { b.push(ascii()) }
            b.push(b'"');
        }
        4 => {
            b.extend_from_slice(b"\"\\u");
            for _ in 0..4 { b.push(ascii()) }
            b.push(b'"');
        }
        5 => {
            b.extend_from_slice(b"\"\\u");
            for _ in 0..4 { b.push(among(if thorough() { b"08dDcbBeF" } else { b"08dB" })) }
            b.extend_from_slice(b"\\u");
            for _ in 0..4 { b.push(among(if thorough() { b"0dDceFb" } else { b"0dCF" })) }
            b.push(b'"');
        }
        6 => {
            // a high surrogate and anything
            b.extend_from_slice(b"\"\\ud8");
            for _ in 0..2 { b.push(among(b"0aF")) }
            for _ in 0..3 { b.push(among(b"\\u\"dna0")) }
            b.extend_from_slice(b"c00\"");
        }
        7 => {
            // keywords with one letter changed and something behind
            let w: &[u8] = [&b"null"[..], b"true", b"false"][pickz(3)];
            let k = pickz(w.len() + 1);
            for i in 0..w.len() { if i == k { b.push(ascii()) } else { b.push(w[i]) } }
            if bools() { b.push(ascii()); if bools() { b.push(ascii()) } }
        }
        8 => {
            b.push(b'"');
            for _ in 0..2 { let c = any_char(); push_char(&mut b, c as u32) }
            b.push(b'"');
        }
        9 => {
            // numbers with long digit sequences
            for _ in 0..size(2) { b.push(b'-') }
            let n = [0, 1, 2, 8, 15, 16, 17, 20, 24][pickz(if thorough() { 9 } else { 5 })];
            for _ in 0..n { b.push(b'7') }
            b.push(ascii());
            for _ in 0..size(4) { b.push(b'0') }
            b.push(ascii());
            b.push(ascii());
        }
        10 => {
            // truncated texts
            let w: &[u8] = b"{\"a\\n\\u00e9\":[-1.5e+3,true,null,false,\"\"]}";
            let n = size(w.len() + 1);
            b.extend_from_slice(&w[..n]);
            b.push(ascii());
        }
        _ => {
            // long strings
            b.push(b'"');
            let n = size(40);
            for _ in 0..n { b.push(b'x') }
            b.push(ascii());
            b.push(b'"');
            b.push(ascii());
        }
    }
    compare_tokens(&b);
}

// ---- C07 -------------------------------------------------------------------------
fn any_string(n: usize) -> Vec<u8> {
    let mut b = Vec::new();
    for _ in 0..n { let c = any_char(); push_char(&mut b, c as u32) }
    b
}
fn encode(typ: &Type, s: &dyn DataSource) -> Vec<u8> {
    let mut out: Vec<u8> = Vec::new();
    check(JsonEncoder::new(typ).encode(&mut out, s).is_ok(), 20);
    out
}
fn scalar(v: &[u8]) -> Option<u32> {
    let s = text(v);
    let mut c = s.chars();
    match (c.next(), c.next()) { (Some(c), None) => Some(c as u32), _ => None }
}

/// C07
pub fn strings() {
    let (typ, leaf, body) = match config() {
        0 => { let b = any_string(size(if thorough() { 4 } else { 3 })); (parse("string"), Leaf::Str(b.clone()), b) }
        1 => { let c = any_char(); let mut b = Vec::new(); push_char(&mut b, c as u32); (parse("char"), Leaf::Prim(Primitive::Char, c as u128), b) }
        3 => {
            let n = [63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1_023, 1_024, 1_025, 4_095, 4_096, 8_192, 65_535, 65_536, 70_000];
            let mut b: Vec<u8> = (0..n[pickz(n.len())]).map(|i| b'a' + (i % 26) as u8).collect();
            push_char(&mut b, among_char());
            b.extend_from_slice(b"yz");
            (parse("string"), Leaf::Str(b.clone()), b)
        }
        _ => {
            // long strings with one arbitrary character somewhere
            let mut b = vec![b'x'; size(40)];
            let c = any_char();
            push_char(&mut b, c as u32);
            b.extend_from_slice(b"yz");
            (parse("string"), Leaf::Str(b.clone()), b)
        }
    };
    let s = Source(vec![(Path::create_empty(), leaf)]);
    let out = encode(&typ, &s);
    let utf8 = std::str::from_utf8(&out);
    check(utf8.is_ok(), 1);
    let lit = string_at(&out, 0);
    check(lit.is_some(), 2);
    let (v, end) = lit.unwrap();
    check(end == out.len(), 3);
    check(same(&v, &body), 4);
    let mut d = IntermediateDataSource::new();
    check(JsonDecoder::new(&typ).parse(utf8.unwrap(), &mut d).is_ok(), 5);
    if config() == 1 { check(d.get_char(&Path::create_empty()) as u32 == scalar(&body).unwrap(), 6) }
    else { check(same(d.get_bytes(&Path::create_empty()), &body), 7); check(d.get_length(&Path::create_empty()) == body.len(), 8) }
    observe_bytes(&out);
    cover(1);
}

// ---- C08 -------------------------------------------------------------------------
/// A value of a primitive for which printing and parsing is within the solver's reach.
fn json_prim(p: Primitive) -> u128 {
    let w = width(p);
    match p {
        Primitive::F32 => {
            const V: [f32; 17] = [f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 0.0, -0.0, 1.0, -1.5, 0.1, 3.4028235e38, 1.1754944e-38, 1e-45, 16777217.0, 1e10, -123456.79, 0.33333334, 1e21, 5e-7];
            V[pickz(V.len())].to_bits() as u128
        }
        Primitive::F64 => {
            const V: [f64; 17] = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 0.0, -0.0, 1.0, -1.5, 0.1, 1.7976931348623157e308, 2.2250738585072014e-308, 5e-324, 9007199254740993.0, 1e100, -123456.789, 0.3333333333333333, 1e21, 5e-7];
            V[pickz(V.len())].to_bits() as u128
        }
        _ if w <= 16 || p == Primitive::Char => any_prim(p),
        _ => {
            let max = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
            // around zero, the ends of the signed and unsigned ranges, and powers of ten
            const TEN: [u128; 6] = [1_000, 100_000, 4_294_967_296, 10_000_000_000, 10_000_000_000_000_000_000, 1_000_000_000_000_000_000_000_000_000_000_000_000_00];
            let k = pickz(4 + TEN.len());
            let base = match k { 0 => 0, 1 => max, 2 => max / 2, 3 => max / 3, _ => TEN[k - 4] };
            let d = pickz(3) as u128;
            (match d { 0 => base, 1 => base.wrapping_sub(1) & max, _ => base.wrapping_add(1) & max }) & max
        }
    }
}
fn small(s: &mut Source, typ: &Type, at: &Path, chars: usize) {
    match &typ.kind {
        Kind::Primitive(p) => s.0.push((at.clone(), Leaf::Prim(*p, json_prim(*p)))),
        Kind::Tuple(v) => for (i, c) in v.iter().enumerate() { small(s, c, &at.with_component(i), chars) },
        Kind::Struct(v) => for (i, c) in v.iter().enumerate() { small(s, &c.typ, &at.with_component(i), chars) },
        Kind::Enum(v) => {
            let k = any_tag(v.len());
            s.0.push((at.clone(), Leaf::Tag(k)));
            small(s, &v[k].typ, &at.with_component(k), chars)
        }
        Kind::String => { let b = any_string(size(chars + 1)); s.0.push((at.clone(), Leaf::Str(b))) }
        Kind::Unit => (),
    }
}
pub const TYPES: [&str; 24] = [
    "bool", "u8", "i8", "u16", "i16", "(u32,i32)", "u64", "i64", "u128", "i128", "f32", "f64", "char",
    "(u8,bool,())",
    "{a:u8,bb:string,c:bool}",
    "<a:(),b:u8,c:string>",
    "{x:<a:{p:bool,q:()},b:(bool,bool)>,y:(string,<k:u8>)}",
    "<a:<a:<a:bool,b:string>,b:u8>,b:(i8,<a:bool,b:()>)>",
    "(((bool)),{a:{a:{a:bool}}})",
    "<129:()>",
    "{kind:u8,value:<kind:(),value:bool>}",
    "(string,string)",
    "{a:bool,value:bool,kind:bool,z:()}",
    "{kind:<value:bool,kind:()>,value:(),type:bool}",
];
fn round(typ: &Type, s: &Source) {
    let out = encode(typ, s);
    let t = std::str::from_utf8(&out);
    check(t.is_ok(), 1);
    check(lex(&out).is_some(), 9);
    let mut d = IntermediateDataSource::new();
    check(JsonDecoder::new(typ).parse(t.unwrap(), &mut d).is_ok(), 2);
    agree(s, &d, 3);
    observe_bytes(&out);
    cover(1);
}
/// C08
pub fn roundtrip() {
    let typ = parse(TYPES[config() % TYPES.len()]);
    let mut s = Source(Vec::new());
    small(&mut s, &typ, &Path::create_empty(), if thorough() { 2 } else { 1 });
    round(&typ, &s);
}
/// C08: every small type.
pub fn any() {
    let leaves: &[&str] = if thorough() { &["()", "bool", "i8", "string"] } else { &["()", "bool", "string"] };
    let typ = any_type(2, 2, leaves);
    let mut s = Source(Vec::new());
    small(&mut s, &typ, &Path::create_empty(), if thorough() { 1 } else { 0 });
    round(&typ, &s);
}
/// C08: labels of any kind, which types that are not parsed from text may have.
pub fn labels() {
    use cathlamet::core::types::{Case, Field};
    let text_of = |b: Vec<u8>| String::from_utf8(b).unwrap();
    let one = |v: bool| { let mut b = any_string(1); if v { b.push(b'x') } b };
    let (l, m) = (one(bools()), one(bools()));
    assume(!same(&l, &m));
    let b = || Box::new(prim(Primitive::Bool));
    let (l, m) = (text_of(l), text_of(m));
    let e = Path::create_empty();
    let mut s = Source(Vec::new());
    let kind = if bools() {
        s.0.push((e.with_component(0), Leaf::Prim(Primitive::Bool, bools() as u128)));
        s.0.push((e.with_component(1), Leaf::Prim(Primitive::Bool, bools() as u128)));
        Kind::Struct(vec![Field { label: l, typ: b() }, Field { label: m, typ: b() }])
    } else {
        let k = pickz(2);
        s.0.push((e.clone(), Leaf::Tag(k)));
        s.0.push((e.with_component(k), Leaf::Prim(Primitive::Bool, bools() as u128)));
        Kind::Enum(vec![Case { label: l, typ: b() }, Case { label: m, typ: b() }])
    };
    round(&Type { kind }, &s);
}
/// C08: structs with many fields.
pub fn wide() {
    let n = [1, 2, 31, 32, 33, 63, 64, 65, 70, 127, 128, 129, 255, 256, 257, 300][pickz(16)];
    let mut spec = String::from("{");
    for i in 0..n { if i > 0 { spec.push(',') } spec.push_str(&format!("f{}:bool", i)) }
    spec.push('}');
    let typ = parse(&spec);
    let mut s = Source(Vec::new());
    let k = [0, n / 2, n - 1][pickz(3)];
    for i in 0..n { s.0.push((Path::create_empty().with_component(i), Leaf::Prim(Primitive::Bool, if i == k { bools() as u128 } else { (i & 1) as u128 }))) }
    round(&typ, &s);
}

/// C08: types within types, and many parts of other kinds.
pub fn deep() {
    let n = [1, 2, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129][pickz(17)];
    let p = Path::create_empty();
    let kind = pickz(5);
    let mut spec = String::new();
    let mut s = Source(Vec::new());
    let v = if bools() { 200 } else { 7 };
    if kind < 3 {
        // n levels, each with something behind it
        let mut at = p.clone();
        for i in 0..n {
            spec.push_str(["(", "{a:", "<a:(),b:"][kind]);
            if kind == 2 { s.0.push((at.clone(), Leaf::Tag(1))); at = at.with_component(1) } else { at = at.with_component(0) }
            if i % 16 == 3 && kind == 0 { spec.push_str("(),"); let mut q = at.path().to_vec(); q.pop(); q.push(1); at = Path::create_empty(); for c in q { at = at.with_component(c) } }
        }
        spec.push_str("u8");
        s.0.push((at.clone(), Leaf::Prim(Primitive::U8, v)));
        for _ in 0..n { spec.push_str([")", "}", ",c:u8>"][kind]) }
    } else if kind == 3 {
        spec.push('(');
        for i in 0..n { if i > 0 { spec.push(',') } spec.push_str(if i % 3 == 0 { "u8" } else if i % 3 == 1 { "string" } else { "()" }) }
        spec.push(')');
        for i in 0..n { match i % 3 { 0 => s.0.push((p.with_component(i), Leaf::Prim(Primitive::U8, i as u128 & 255))), 1 => s.0.push((p.with_component(i), Leaf::Str(vec![b'a'; i % 5]))), _ => () } }
    } else {
        spec.push_str(&format!("<{}:u8>", n * 2));
        let t = [0, n - 1, n, 2 * n - 1][pickz(4)];
        s.0.push((p.clone(), Leaf::Tag(t)));
        s.0.push((p.with_component(t), Leaf::Prim(Primitive::U8, v)));
    }
    round(&parse(&spec), &s);
}

/// A destination that takes as many bytes at a time as it likes.
struct Choppy { out: Vec<u8>, budget: usize }
impl std::io::Write for Choppy {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = if b.len() > 1 && self.budget > 0 { self.budget -= 1; 1 + size(b.len()) } else { b.len() };
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
/// C08: split writes.
pub fn chopped() {
    let typ = parse("{a:string,b:<k:u8,l:bool>,c:char}");
    let p = Path::create_empty();
    let c = among_char();
    let mut str_ = Vec::new();
    push_char(&mut str_, c);
    let mut v = vec![(p.with_component(0), Leaf::Str(str_)), (p.with_component(1), Leaf::Tag(pickz(2)))];
    let k = match v[1].1 { Leaf::Tag(k) => k, _ => 0 };
    v.push((p.with_component(1).with_component(k), if k == 0 { Leaf::Prim(Primitive::U8, 217) } else { Leaf::Prim(Primitive::Bool, 1) }));
    v.push((p.with_component(2), Leaf::Prim(Primitive::Char, among_char() as u128)));
    let s = Source(v);
    let whole = encode(&typ, &s);
    let mut w = Choppy { out: Vec::new(), budget: if thorough() { 40 } else { 3 } };
    // let the first writes pass and chop from there
    let skip = if thorough() { 0 } else { size(30) };
    let mut sw = Skip { skip, inner: &mut w };
    check(JsonEncoder::new(&typ).encode(&mut sw, &s).is_ok(), 21);
    check(same(&w.out, &whole), 1);
    cover(1);
}
struct Skip<'a> { skip: usize, inner: &'a mut Choppy }
impl<'a> std::io::Write for Skip<'a> {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.skip > 0 { self.skip -= 1; self.inner.out.extend_from_slice(b); return Ok(b.len()) }
        if thorough() && self.inner.budget > 0 && b.len() > 1 {
            // one byte or everything
            self.inner.budget -= 1;
            let n = if bools() { 1 } else { b.len() };
            self.inner.out.extend_from_slice(&b[..n]);
            return Ok(n)
        }
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn among_char() -> u32 { [0x41, 0, 0x1f, 0x22, 0xe9, 0x9999, 0x1f600][pickz(7)] }

// ---- C10 -------------------------------------------------------------------------
/// Tokens a document is made of: text, and what it means.
struct Piece { text: &'static str, kind: T, int: Option<i64> }
const fn p(text: &'static str, kind: T) -> Piece { Piece { text, kind, int: None } }
const fn num(text: &'static str, v: i64) -> Piece { Piece { text, kind: T::Num, int: Some(v) } }
const PIECES: [Piece; 21] = [
    p("{", T::Lb), p("}", T::Rb), p("[", T::Ls), p("]", T::Rs), p(",", T::Comma), p(":", T::Colon),
    p("null", T::Null), p("true", T::True), p("false", T::False),
    p("\"a\"", T::Str), p("\"b\"", T::Str), p("\"cc\"", T::Str), p("\"kind\"", T::Str), p("\"value\"", T::Str), p("\"\"", T::Str),
    num("0", 0), num("255", 255), num("256", 256), num("-1", -1), num("-129", -129), p("1.5", T::Num),
];
const PW: usize = 8;
/// Byte k of the text of a symbolic piece, padded with spaces; code PIECES.len() is blank.
fn piece_byte(code: u8, k: usize) -> u8 {
    let mut c = 0u8;
    for (j, q) in PIECES.iter().enumerate() {
        let x = if k < q.text.len() { q.text.as_bytes()[k] } else { b' ' };
        c |= (code == j as u8) as u8 * x;
    }
    c | (code == PIECES.len() as u8) as u8 * b' '
}
struct Reader<'a> { codes: &'a [u8], i: usize, got: Vec<(Path, Want)> }
enum Want { Int(i64), Str(&'static str), Bool(bool), Tag(usize) }
impl<'a> Reader<'a> {
    /// The next piece that is not blank.
    fn peek(&mut self) -> Option<usize> {
        while self.i < self.codes.len() {
            let c = self.codes[self.i];
            if c as usize != PIECES.len() { return Some(concretize(c as u64) as usize) }
            self.i += 1;
        }
        None
    }
    fn eat(&mut self, k: T) -> bool {
        match self.peek() { Some(c) if PIECES[c].kind == k => { self.i += 1; true } _ => false }
    }
    fn string(&mut self) -> Option<&'static str> {
        let c = self.peek()?;
        if PIECES[c].kind != T::Str { return None }
        self.i += 1;
        Some(&PIECES[c].text[1..PIECES[c].text.len() - 1])
    }
    /// Does a value of the type start here?
    fn value(&mut self, typ: &Type, at: &Path) -> bool {
        match &typ.kind {
            Kind::Unit => self.eat(T::Null),
            Kind::String => match self.string() { Some(s) => { self.got.push((at.clone(), Want::Str(s))); true } None => false },
            Kind::Primitive(Primitive::Bool) => match self.peek() {
                Some(c) if PIECES[c].kind == T::True || PIECES[c].kind == T::False => {
                    self.got.push((at.clone(), Want::Bool(PIECES[c].kind == T::True)));
                    self.i += 1;
                    true
                }
                _ => false,
            },
            Kind::Primitive(Primitive::Char) => match self.string() { Some(s) if s.len() == 1 => { self.got.push((at.clone(), Want::Str(s))); true } _ => false },
            Kind::Primitive(q) => match self.peek() {
                Some(c) if PIECES[c].kind == T::Num => {
                    self.i += 1;
                    let ok = match PIECES[c].int {
                        None => false,
                        Some(v) => {
                            self.got.push((at.clone(), Want::Int(v)));
                            match q { Primitive::U8 => v >= 0 && v < 256, Primitive::I8 => v >= -128 && v < 128, Primitive::U16 => v >= 0, _ => true }
                        }
                    };
                    ok
                }
                _ => false,
            },
            Kind::Tuple(v) => {
                if !self.eat(T::Ls) { return false }
                for (i, c) in v.iter().enumerate() {
                    if i > 0 && !self.eat(T::Comma) { return false }
                    if !self.value(c, &at.with_component(i)) { return false }
                }
                self.eat(T::Rs)
            }
            Kind::Struct(v) => {
                if !self.eat(T::Lb) { return false }
                let mut seen = vec![false; v.len()];
                for n in 0..v.len() {
                    if n > 0 && !self.eat(T::Comma) { return false }
                    let l = match self.string() { Some(l) => l, None => return false };
                    let i = match v.iter().position(|f| f.label == l) { Some(i) => i, None => return false };
                    if seen[i] { return false }
                    seen[i] = true;
                    if !self.eat(T::Colon) { return false }
                    if !self.value(&v[i].typ, &at.with_component(i)) { return false }
                }
                self.eat(T::Rb)
            }
            Kind::Enum(v) => {
                if !self.eat(T::Lb) || self.string() != Some("kind") || !self.eat(T::Colon) { return false }
                let l = match self.string() { Some(l) => l, None => return false };
                let i = match v.iter().position(|f| f.label == l) { Some(i) => i, None => return false };
                self.got.push((at.clone(), Want::Tag(i)));
                if !self.eat(T::Comma) || self.string() != Some("value") || !self.eat(T::Colon) { return false }
                self.value(&v[i].typ, &at.with_component(i)) && self.eat(T::Rb)
            }
        }
    }
}
pub const DOC_TYPES: [(&str, usize); 14] = [
    ("{a:u8,b:bool}", 14), ("(u8,i8)", 8), ("<a:(),b:u8>", 10), ("bool", 3), ("string", 3), ("()", 3), ("char", 3),
    ("{b:u16,a:string,cc:()}", 14), ("((bool),(u16,()))", 14), ("{a:{a:bool}}", 12), ("<kind:bool,value:<a:(),b:()>>", 18), ("(u8)", 6), ("<a:string,b:(char)>", 12), ("{kind:u8,value:bool}", 14),
];
fn doc_type() -> (Type, usize) {
    let (s, n) = DOC_TYPES[config() % DOC_TYPES.len()];
    (parse(s), n)
}
fn compare_doc(typ: &Type, codes: &[u8], ok: bool, d: &IntermediateDataSource) {
    let mut r = Reader { codes, i: 0, got: Vec::new() };
    let conforms = r.value(typ, &Path::create_empty()) && r.peek().is_none();
    check(ok == conforms, 1);
    if !ok { cover(1); return }
    for (p, w) in r.got.iter() {
        let sub = typ.extract(p);
        match (w, &sub.kind) {
            (Want::Bool(v), _) => check(d.get_bool(p) == *v, 2),
            (Want::Tag(v), _) => check(d.get_case_tag(p) == *v, 3),
            (Want::Str(v), Kind::String) => check(same(d.get_bytes(p), v.as_bytes()), 4),
            (Want::Str(v), _) => check(d.get_char(p) == v.chars().next().unwrap(), 5),
            (Want::Int(v), Kind::Primitive(Primitive::U8)) => check(d.get_u8(p) as i64 == *v, 6),
            (Want::Int(v), Kind::Primitive(Primitive::I8)) => check(d.get_i8(p) as i64 == *v, 7),
            (Want::Int(v), _) => check(d.get_u16(p) as i64 == *v, 8),
        }
    }
    cover(2);
}
fn spell(codes: &[u8]) -> Vec<u8> {
    let mut b = Vec::new();
    for c in codes { for k in 0..PW { b.push(piece_byte(*c, k)) } }
    b
}
/// C10: every sequence of tokens.
pub fn documents() {
    let (typ, n) = doc_type();
    let n = if thorough() { n + 2 } else { n };
    let codes: Vec<u8> = (0..n).map(|_| below(PIECES.len() as u64 + 1) as u8).collect();
    // a document ends where the blanks start
    for i in 1..n { assume((codes[i - 1] as usize != PIECES.len()) | (codes[i] as usize == PIECES.len())) }
    let b = spell(&codes);
    let mut d = IntermediateDataSource::new();
    let ok = JsonDecoder::new(&typ).parse(text(&b), &mut d).is_ok();
    observe(ok as u64);
    compare_doc(&typ, &codes, ok, &d);
}
/// C10: a decode after another one has nothing of it.
pub fn again() {
    let typ = parse("<a:{a:u8,b:bool},b:(u8),cc:()>");
    let docs = ["{\"kind\":\"a\",\"value\":{\"a\":1,\"b\":true}}", "{\"kind\":\"a\",\"value\":{\"a\":1,\"b\":1}}", "{\"kind\":\"b\",\"value\":[7]}", "{\"kind\":\"cc\",\"value\":null}", "?", "", "\"\\u\"", "{\"kind\":\"b\",\"value\":[7,8]}"];
    let good = [true, false, true, true, false, false, false, false];
    let mut dec = JsonDecoder::new(&typ);
    let mut d = IntermediateDataSource::new();
    let (i, j) = (pickz(docs.len()), pickz(docs.len()));
    check(dec.parse(docs[i], &mut d).is_ok() == good[i], 1);
    check(dec.parse(docs[j], &mut d).is_ok() == good[j], 2);
    let e = Path::create_empty();
    // what the first document said must be gone unless the second one says it
    let k = pickz(4);
    let (path, said): (Path, bool) = match k {
        0 => (e.clone(), false),
        1 => (e.with_component(0).with_component(0), j == 0 || j == 1),
        2 => (e.with_component(0).with_component(1), j == 0),
        _ => (e.with_component(1).with_component(0), j == 2 || j == 7),
    };
    if k == 0 {
        if j == 4 || j == 5 || j == 6 { expect_panic(true); d.get_case_tag(&path); check(false, 3) }
        check(d.get_case_tag(&path) == [0, 0, 1, 2, 9, 9, 9, 1][j], 4);
    } else {
        expect_panic(!said);
        let v = if k == 2 { d.get_bool(&path) as u8 } else { d.get_u8(&path) };
        expect_panic(false);
        check(said, 5);
        check(v == if k == 3 { 7 } else { 1 }, 6);
    }
    cover(1);
}
/// C10: exactly the numbers in range are accepted, and mean what they say.
pub fn ranges() {
    let cfg = config();
    let p = [Primitive::U8, Primitive::I8, Primitive::U16, Primitive::I16, Primitive::U32, Primitive::I32, Primitive::U64, Primitive::I64, Primitive::U128, Primitive::I128][cfg % 10];
    let w = width(p);
    let signed = cfg % 2 == 1;
    let neg = bools();
    let mut b = Vec::new();
    if neg { b.push(b'-') }
    // all digits are arbitrary for the small types; for the others only the last two
    let max: u128 = if signed { (1u128 << (w - 1)) - 1 + neg as u128 } else if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    let mut v: u128 = 0;
    let mut over = false;
    let digits = if w <= 16 { 1 + size(if w == 8 { 4 } else { 6 }) } else {
        let s = format!("{}", max);
        let keep = s.len() - 2;
        for c in s.as_bytes()[..keep].iter() { b.push(*c); v = v * 10 + (*c - b'0') as u128 }
        2 + size(2)
    };
    let mut lead = b.len() == neg as usize;
    for i in 0..digits {
        let d = below(10) as u8;
        if lead && i + 1 < digits { assume(d != 0) }
        lead = false;
        b.push(b'0' + d);
        match v.checked_mul(10).and_then(|x| x.checked_add(d as u128)) { Some(x) => v = x, None => over = true }
    }
    if neg && !signed { assume(v != 0) }    // minus zero
    let typ = prim(p);
    let mut d = IntermediateDataSource::new();
    let ok = JsonDecoder::new(&typ).parse(text(&b), &mut d).is_ok();
    let fits = !over && v <= max && (!neg || signed);
    check(ok == fits, 1);
    observe(ok as u64);
    if !ok { cover(1); return }
    let raw = if neg { 0u128.wrapping_sub(v) } else { v };
    let mask = if w == 128 { u128::MAX } else { (1u128 << w) - 1 };
    check(read_prim(&d, &Path::create_empty(), p) == raw & mask, 2);
    cover(2);
}
/// C10: numbers for floats.
pub fn floats() {
    let docs: [(&str, f64); 12] = [("0", 0.0), ("1e999", f64::INFINITY), ("-1e999", f64::NEG_INFINITY), ("1.5", 1.5), ("-2e-1", -0.2), ("3.5e38", 3.5e38), ("1e-400", 0.0),
        ("123456789", 123456789.0), ("0.1", 0.1), ("1E2", 100.0), ("1.7976931348623157e308", f64::MAX), ("-0", 0.0)];
    let (s, v) = docs[pickz(docs.len())];
    let single = bools();
    let typ = prim(if single { Primitive::F32 } else { Primitive::F64 });
    let mut d = IntermediateDataSource::new();
    let ok = JsonDecoder::new(&typ).parse(s, &mut d).is_ok();
    let finite = if single { v.abs() <= f32::MAX as f64 } else { v.is_finite() };
    check(ok == finite, 1);
    if ok {
        let e = Path::create_empty();
        if single { check(d.get_f32(&e) == v as f32, 2) } else { check(d.get_f64(&e) == v, 3) }
        cover(1);
    }
}
/// C10: documents with many parts, of which one is not as it should be.
pub fn many() {
    let k = [2, 5, 9, 17, 33, 64, 65, 129, 256, 257][pickz(if thorough() { 10 } else { 6 })];
    let d = [0, 1, k / 2, k - 2, k - 1][pickz(5)];
    let e = Path::create_empty();
    let form = pickz(4);
    let mut ok = true;
    let mut spec = String::new();
    let mut parts: Vec<String> = Vec::new();
    let mut want: Vec<(Path, u8)> = Vec::new();
    let val = |i: usize| (i * 7 % 256) as u8;
    let (open, close, sep) = match form {
        0 => {
            // a struct, its fields in any of some orders
            spec.push_str(&format!("{{{}}}", (0..k).map(|i| format!("f{}:u8", i)).collect::<Vec<_>>().join(",")));
            let turn = [0, 1, k - 1][pickz(3)];
            let back = bools();
            let how = pickz(7);
            let mut labels: Vec<String> = (0..k).map(|i| format!("f{}", i)).collect();
            let mut vals: Vec<String> = (0..k).map(|i| val(i).to_string()).collect();
            match how {
                0 => (),
                1 => { labels.remove(d); vals.remove(d); ok = false }
                2 => { let o = (d + 1 + pickz(2) * (k / 2)) % k; if o != d { labels[d] = format!("f{}", o); ok = false } }
                3 => { labels.push(format!("f{}", d)); vals.push(val(d).to_string()); ok = false }
                4 => { labels[d] = [format!("f{}", k), String::from("f"), format!("F{}", d), format!("f{} ", d)][pickz(4)].clone(); ok = false }
                5 => { vals[d] = ["true", "\"x\"", "256", "null", "-1", "[7]", "7.0"][pickz(7)].to_string(); ok = false }
                _ => { vals[d].insert(0, ' '); vals[d].push('\t') }
            }
            let n = labels.len();
            for i in 0..n { let j = if back { n - 1 - (i + turn) % n } else { (i + turn) % n }; parts.push(format!("\"{}\":{}", labels[j], vals[j])) }
            for i in 0..k { want.push((e.with_component(i), val(i))) }
            ("{", "}", ",")
        }
        1 => {
            spec.push_str(&format!("({})", vec!["u8"; k].join(",")));
            for i in 0..k { parts.push(val(i).to_string()) }
            match pickz(5) {
                0 => (),
                1 => { parts.remove(d); ok = false }
                2 => { parts.insert(d, String::from("0")); ok = false }
                3 => { parts[d] = ["true", "\"x\"", "256", "null", "-1", "[7]", "1e1", ""][pickz(8)].to_string(); ok = false }
                _ => { parts[d] = format!("\n{} ", parts[d]) }
            }
            for i in 0..k { want.push((e.with_component(i), val(i))) }
            ("[", "]", ",")
        }
        2 => {
            // an enum of many cases of three kinds
            spec.push_str(&format!("<{}>", (0..k).map(|i| format!("c{}:{}", i, ["u8", "bool", "string"][i % 3])).collect::<Vec<_>>().join(",")));
            let label = [format!("c{}", d), format!("c{}", k), format!("C{}", d), String::from("c")][pickz(4)].clone();
            ok = label == format!("c{}", d);
            let j = pickz(3);
            ok &= j == d % 3;
            parts.push(format!("\"kind\":\"{}\"", label));
            parts.push(format!("\"value\":{}", ["7", "true", "\"x\""][j]));
            ("{", "}", ",")
        }
        _ => {
            // one inside the other
            let k = k.min(129);
            let s = bools();
            spec.push_str(&format!("{}u8{}", if s { "{a:" } else { "(" }.repeat(k), if s { "}" } else { ")" }.repeat(k)));
            let n = [k, k - 1, k + 1][pickz(3)];
            ok = n == k;
            let mut at = e.clone();
            for _ in 0..k { at = at.with_component(0) }
            want.push((at, 7));
            let more = pickz(3);
            parts.push(format!("{}7{}", if s { "{\"a\":" } else { "[" }.repeat(n), if s { "}" } else { "]" }.repeat(if more == 1 { n - 1 } else { n })));
            ok &= more != 1;
            if more == 2 { parts.push(String::from("")); ok = false }
            ("", "", ",")
        }
    };
    // an arbitrary character that is no part of a number behind one of the separators
    let mut text_ = open.as_bytes().to_vec();
    let n = parts.len();
    let place = if form == 3 { n } else { [0, n / 2, n - 1, n][pickz(4)] };
    for (i, q) in parts.iter().enumerate() {
        if i > 0 { text_.push(sep.as_bytes()[0]) }
        if i == place {
            let c = ascii();
            assume(!digit(c) & (c != b'-'));
            text_.push(c);
            let blank = (c == b' ') | (c == b'\t') | (c == b'\n') | (c == b'\r');
            ok &= blank;
        }
        text_.extend_from_slice(q.as_bytes());
    }
    text_.extend_from_slice(close.as_bytes());
    let typ = parse(&spec);
    let mut data = IntermediateDataSource::new();
    let got = JsonDecoder::new(&typ).parse(text(&text_), &mut data).is_ok();
    check(got == ok, 1);
    if !ok { cover(1); return }
    if form == 2 { check(data.get_case_tag(&e) == d, 2) }
    for (p, v) in want.iter() { check(data.get_u8(p) == *v, 3) }
    cover(2);
}
/// C07: many characters that need some treatment, and an arbitrary one among them.
pub fn texts() {
    let n = [1, 17, 64, 256, 1_024, 15, 16, 31, 32, 33, 127, 128, 255][pickz(if thorough() { 13 } else { 5 })];
    let units: [&[u32]; 8] = [&[0x22], &[0x5c], &[0x1f], &[0xe9], &[0x20ac], &[0x1f600], &[0x0a, 0x41], &[0x7f, 0x2028, 0x2f, 0xffff]];
    let unit = units[pickz(8)];
    let at = [0, n / 2, n][pickz(3)];
    let mut b = Vec::new();
    for i in 0..n + 1 {
        if i == at { push_char(&mut b, if n > 33 { among_char() } else { any_char() as u32 }) }
        if i < n { push_char(&mut b, unit[i % unit.len()]) }
    }
    let typ = parse("string");
    let e = Path::create_empty();
    let out = encode(&typ, &Source(vec![(e.clone(), Leaf::Str(b.clone()))]));
    let lit = string_at(&out, 0);
    check(lit.is_some(), 2);
    let (v, end) = lit.unwrap();
    check(end == out.len(), 3);
    check(same(&v, &b), 4);
    let mut d = IntermediateDataSource::new();
    check(JsonDecoder::new(&typ).parse(text(&out), &mut d).is_ok(), 5);
    check(same(d.get_bytes(&e), &b), 7);
    check(d.get_length(&e) == b.len(), 8);
    observe_bytes(&out);
    cover(1);
}
/// C09: long texts with an arbitrary character.
pub fn long() {
    let n = [1, 25, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257, 1_000, 4_096][pickz(if thorough() { 14 } else { 11 })];
    let at = [0, 1, n / 2, n - 1, n][pickz(5)];
    let mut b: Vec<u8> = Vec::new();
    let fill = |b: &mut Vec<u8>, s: &[u8], k: usize| for _ in 0..k { b.extend_from_slice(s) };
    match pickz(9) {
        0 => { b.push(b'['); fill(&mut b, b" ", at); b.push(ascii()); fill(&mut b, b"\n", n - at); b.push(b'7') }
        1 => { fill(&mut b, b"7", at); b.push(ascii()); fill(&mut b, b"0", n - at) }
        2 => { b.extend_from_slice(b"-0."); fill(&mut b, b"3", at); b.push(ascii()); fill(&mut b, b"8", n - at); b.extend_from_slice(b",") }
        3 => { b.extend_from_slice(b"1E+"); fill(&mut b, b"0", at); b.push(ascii()); fill(&mut b, b"1", n - at); b.extend_from_slice(b"}") }
        4 => { b.push(b'"'); fill(&mut b, b"\\n", at); b.push(b'\\'); b.push(ascii()); fill(&mut b, b"\\u00e9", n - at); b.push(b'"') }
        5 => { b.push(b'"'); fill(&mut b, "é€".as_bytes(), at); let c = any_char(); push_char(&mut b, c as u32); fill(&mut b, b"\\\"", n - at); b.push(b'"') }
        6 => { fill(&mut b, b"[", at); b.push(ascii()); fill(&mut b, b"}", n - at) }
        7 => { fill(&mut b, b"true,", at); b.push(ascii()); fill(&mut b, b"\"\":null ", n - at) }
        _ => { b.push(b'"'); fill(&mut b, b"\\ud83d\\ude00", at); b.extend_from_slice(b"\\u"); for _ in 0..4 { b.push(among(b"0dDc")) } fill(&mut b, b"\\uDe00", n - at); b.push(b'"') }
    }
    compare_tokens(&b);
}
/// C08: a destination that takes some bytes and then no more.
struct Full { out: Vec<u8>, room: usize, how: usize, interrupted: usize }
impl std::io::Write for Full {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.out.len() == self.interrupted { self.interrupted = usize::MAX; return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)) }
        let n = b.len().min(self.room - self.out.len());
        if n == 0 && b.len() > 0 { return if self.how == 0 { Ok(0) } else { Err(std::io::Error::from(std::io::ErrorKind::BrokenPipe)) } }
        self.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
pub fn refused() {
    let typ = parse("{a:string,b:<k:u8,l:bool,m:()>,c:char,d:(f64,(),i32,f32),e:(i8,u16,u64,i128)}");
    let e = Path::create_empty();
    let c = among_char();
    let mut str_ = b"x".to_vec();
    push_char(&mut str_, c);
    str_.push(b'y');
    let k = pickz(3);
    let mut v = vec![(e.with_component(0), Leaf::Str(str_)), (e.with_component(1), Leaf::Tag(k)), (e.with_component(2), Leaf::Prim(Primitive::Char, c as u128))];
    if k == 0 { v.push((e.with_component(1).with_component(0), Leaf::Prim(Primitive::U8, 217))) }
    if k == 1 { v.push((e.with_component(1).with_component(1), Leaf::Prim(Primitive::Bool, bools() as u128))) }
    let d = e.with_component(3);
    let f = pickz(3);
    v.push((d.with_component(0), Leaf::Prim(Primitive::F64, [1.5f64, f64::NAN, f64::NEG_INFINITY][f].to_bits() as u128)));
    v.push((d.with_component(2), Leaf::Prim(Primitive::I32, (-70_000i32) as u32 as u128)));
    v.push((d.with_component(3), Leaf::Prim(Primitive::F32, [f32::INFINITY, 1e20f32, f32::NAN][f].to_bits() as u128)));
    let d = e.with_component(4);
    v.push((d.with_component(0), Leaf::Prim(Primitive::I8, 128)));
    v.push((d.with_component(1), Leaf::Prim(Primitive::U16, 65_535)));
    v.push((d.with_component(2), Leaf::Prim(Primitive::U64, u64::MAX as u128)));
    v.push((d.with_component(3), Leaf::Prim(Primitive::I128, 1u128 << 127)));
    let s = Source(v);
    let whole = encode(&typ, &s);
    let room = size(whole.len() + 2);
    let interrupted = if thorough() { size(whole.len() + 1) } else { room / 2 };
    let mut w = Full { out: Vec::new(), room, how: pickz(2), interrupted };
    let r = JsonEncoder::new(&typ).encode(&mut w, &s);
    check(r.is_ok() == (room >= whole.len()), 1);
    check(same(&w.out, &whole[..room.min(whole.len())]), 2);
    either(r.is_ok());
}
