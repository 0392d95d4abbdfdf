//! C03 to C06: marshalled records.
use crate::rt::*;
use crate::typ::*;
use cathlamet::core::data_source::DataSource;
use cathlamet::core::marshaller::{Layout, Marshaller, MarshallerDataSource};
use cathlamet::core::types::{Kind, Path, Primitive, Type};
use std::sync::Arc;

pub const TYPES: [&str; 24] = [
    "(bool,char,u8,u16,u32,u64,u128,i8,i16,i32,i64,i128,f32,f64)",
    "string",
    "(string,u8,string)",
    "{a:u8,b:string,c:(u16,bool)}",
    "<a:(),b:u8,c:string>",
    "(<a:(),b:(),c:()>,<a:u8,b:()>,<a:(),b:(),c:(),d:(),e:u16>)",
    "<a:<p:u8,q:string>,b:(string,<p:(),q:u32>),c:()>",
    "(string,<a:string,b:u64>,string,<a:u16,b:u8>)",
    "(<2:()>,<2:()>,<2:()>,<2:()>,<2:()>,<2:()>,<2:()>,<2:()>,<2:()>)",
    "(<2:()>,<4:()>,<8:()>,<4:()>,<a:u8>,<a:()>,<a:string>)",
    "(<129:()>,u8)",
    "(<256:u8>,<2:u8>)",
    "(<257:()>,<3:()>,<128:()>)",
    "u64",
    "(u8,(),<a:()>)",
    "<a:<a:<a:u8,b:string>,b:u32>,b:(u16,<a:u64,b:()>,string)>",
    "{x:(u8,{y:<a:(string,string),b:u8>,z:string}),w:u16}",
    "(<a:u64,b:u8>,<a:u32,b:u16>,<a:u8,b:(u8,u8)>,u8)",
    "(<a:(u128,u8),b:string>,string,bool)",
    "((((u8,string),u8),string),u8)",
    "<a:string>",
    "(<65536:()>,u8)",
    "(<16:()>,<16:()>,<32:()>,<3:(string,<2:u8>)>)",
    "()",
];

fn subject() -> (Type, Marshaller) {
    let typ = parse(TYPES[config() % TYPES.len()]);
    let m = Marshaller::new(Arc::new(Layout::new(&typ)));
    (typ, m)
}
fn maxlen() -> usize { if thorough() { 3 } else { 2 } }

fn read_back(m: &Marshaller, s: &Source) {
    let sz = m.encoding_size(s);
    let pre = size(2);
    let mut buf = bytes(pre + sz + 2);
    let used = m.encode(s, &mut buf[pre..]);
    check(used == sz, 1);
    let slack = if bools() { 2 } else { 0 };
    let d = MarshallerDataSource::new(m, &buf[pre..pre + sz + slack]);
    agree(s, &d, 2);
    // a record can itself be the source of a record
    if thorough() || pre == 1 {
        check(m.encoding_size(&d) == sz, 6);
        let mut again = bytes(sz);
        check(m.encode(&d, &mut again) == sz, 7);
        agree(s, &MarshallerDataSource::new(m, &again), 8);
    }
    observe(sz as u64);
    cover(1);
}

/// C03
pub fn read() {
    let (typ, m) = subject();
    let s = Source::any(&typ, maxlen());
    read_back(&m, &s);
}

/// C03, C06: every small type.
pub fn any() {
    let leaves: &[&str] = if thorough() { &["()", "u8", "u32", "u128", "string"] } else { &["()", "u8", "u32", "string"] };
    let typ = any_type(2, 2, leaves);
    let m = Marshaller::new(Arc::new(Layout::new(&typ)));
    let s = Source::any(&typ, 1);
    read_back(&m, &s);
}

/// C04
pub fn bounds() {
    let (typ, m) = subject();
    let s = Source::any(&typ, maxlen());
    let sz = m.encoding_size(&s);
    let pre = 1;
    let mut buf = bytes(pre + sz + 20);
    let orig = buf.clone();
    // any room around the announced size
    let room = size(if thorough() { sz + 20 } else { sz.min(6) + 20 }) + if thorough() { 0 } else { sz - sz.min(6) };
    let fits = room >= sz;
    expect_panic(!fits);
    let used = m.encode(&s, &mut buf[pre..pre + room]);
    expect_panic(false);
    check(fits, 1);
    check(used == sz, 2);
    check(same(&buf[..pre], &orig[..pre]), 3);
    check(same(&buf[pre + sz..], &orig[pre + sz..]), 4);
    observe_bytes(&buf);
    cover(1);
}

/// The paths of all elements of a type, whatever the case tags, with what they are.
fn elements(typ: &Type, at: &Path, out: &mut Vec<(Path, Kind)>) {
    match &typ.kind {
        Kind::Unit => (),
        Kind::Primitive(_) | Kind::String => out.push((at.clone(), typ.kind.clone())),
        Kind::Tuple(v) => for (i, c) in v.iter().enumerate() { elements(c, &at.with_component(i), out) },
        Kind::Struct(v) => for (i, c) in v.iter().enumerate() { elements(&c.typ, &at.with_component(i), out) },
        Kind::Enum(v) => {
            out.push((at.clone(), Kind::Enum(Vec::new())));
            for (i, c) in v.iter().enumerate() {
                if v.len() > 8 && i != 0 && i != v.len() - 1 { continue }
                elements(&c.typ, &at.with_component(i), out)
            }
        }
    }
}

/// C05: arbitrary records.
pub fn corrupt() {
    let (typ, m) = subject();
    let mut el = Vec::new();
    elements(&typ, &Path::create_empty(), &mut el);
    if el.len() == 0 { cover(1); cover(2); return }
    // nothing shorter or longer than this makes a difference to what is bounded
    let n = if [10, 11, 12, 21].contains(&config()) { [0, 1, 2, 3, 4, 5, 24][pickz(7)] } else { size(if config() == 0 { 100 } else if thorough() { 41 } else { 25 }) };
    let data = bytes(n);
    let (p, k) = &el[pickz(el.len())];
    cover(2);
    // a panic is a refusal
    expect_panic(true);
    match k {
        Kind::Primitive(Primitive::Bool) => { let v = m.get_primitive::<bool>(&data, p); expect_panic(false); check(raw_bool(v) <= 1, 1) }
        Kind::Primitive(Primitive::Char) => { let v = m.get_primitive::<char>(&data, p); expect_panic(false); let c = raw_char(v); check(c < 0xd800 || (c >= 0xe000 && c < 0x110000), 2) }
        Kind::Primitive(q) => { let d = MarshallerDataSource::new(&m, &data); observe(read_prim(&d, p, *q) as u64) }
        Kind::String => {
            // each on its own: what one of them refuses must not hide what the other would do
            if bools() {
                let l = m.get_length(&data, p);
                expect_panic(false);
                observe(l as u64);
                cover(1);
                return
            }
            let b = m.get_bytes(&data, p);
            expect_panic(false);
            let (lo, at) = (data.as_ptr() as usize, b.as_ptr() as usize);
            check(at >= lo && at <= lo + n && b.len() <= lo + n - at, 3);
            check(b.len() == m.get_length(&data, p), 4);
            for i in 0..b.len().min(30) { observe(b[i] as u64) }
        }
        _ => { observe(m.get_case_tag(&data, p) as u64) }
    }
    expect_panic(false);
    cover(1);
}

fn starts(p: &Path, q: &Path) -> bool { q.path().len() >= p.path().len() && &q.path()[..p.path().len()] == p.path() }

/// C06: one element changes.
pub fn overlap() {
    let (typ, m) = subject();
    let s = Source::any(&typ, 1);
    // the same tags and lengths have the same size, and encoding is deterministic
    let o = s.reshuffled();
    let sz = m.encoding_size(&s);
    check(m.encoding_size(&o) == sz, 1);
    let mut buf = bytes(sz + 24);
    let mut copy = buf.clone();
    check(m.encode(&s, &mut buf) == sz, 2);
    check(m.encode(&s, &mut copy) == sz, 3);
    check(same(&buf, &copy), 4);
    // encode another value of the type over it which differs in one element (with all that is
    // below it)
    if s.0.len() == 0 { cover(1); return }
    let k = size(s.0.len());
    let (at, leaf) = s.0[k].clone();
    let mut v = Source(s.0.iter().filter(|e| !starts(&at, &e.0)).cloned().collect());
    let sub = typ.extract(&at);
    match leaf {
        Leaf::Prim(p, _) => v.0.push((at.clone(), Leaf::Prim(p, any_prim(p)))),
        _ => v.fill(sub, &at, &mut |_| bytes(size(2))),
    }
    let sz2 = m.encoding_size(&v);
    if sz2 > buf.len() { return }
    check(m.encode(&v, &mut buf) == sz2, 5);
    let d = MarshallerDataSource::new(&m, &buf[..sz2]);
    for (p, l) in s.0.iter() {
        if starts(&at, p) { continue }
        match l {
            Leaf::Prim(q, x) => check(read_prim(&d, p, *q) == *x, 6),
            Leaf::Str(b) => { check(d.get_length(p) == b.len(), 7); check(same(d.get_bytes(p), b), 8) }
            Leaf::Tag(x) => check(d.get_case_tag(p) == *x, 9),
        }
    }
    cover(1);
}

/// A string of n bytes with symbolic ones at both ends and where lengths get another byte.
fn long_string(n: usize) -> Vec<u8> {
    let mut v: Vec<u8> = (0..n).map(|i| (i * 7 + i / 256) as u8).collect();
    for i in [0, 254, 255, 256, 65_534, 65_535, 65_536, n.wrapping_sub(1)] { if i < n { v[i] = u8s() } }
    v
}
/// C03, C04: long strings.
pub fn long() {
    let typ = parse(["string", "(string,<a:string,b:u16>,string,u8)", "<a:(u64,string),b:<c:string,d:u8>>", "{x:string,y:(u16,string),z:<a:(),b:string>}"][config() % 4]);
    let lens = [127, 128, 255, 256, 257, 511, 512, 32_767, 32_768, 65_535, 65_536, 65_537, 70_000];
    let n = lens[pickz(lens.len())];
    let (which, mut k) = (pickz(3), 0);
    let m = Marshaller::new(Arc::new(Layout::new(&typ)));
    let mut s = Source(Vec::new());
    s.fill(&typ, &Path::create_empty(), &mut |_| { k += 1; if k == which + 1 { long_string(n) } else { bytes(k % 3) } });
    let sz = m.encoding_size(&s);
    let want: usize = s.0.iter().map(|e| if let Leaf::Str(b) = &e.1 { b.len() } else { 0 }).sum();
    check(sz >= want && sz <= want + 64, 9);
    let mut buf = vec![0x5a; sz + 3];
    check(m.encode(&s, &mut buf[1..sz + 1]) == sz, 1);
    check(buf[0] == 0x5a && buf[sz + 1] == 0x5a && buf[sz + 2] == 0x5a, 10);
    let d = MarshallerDataSource::new(&m, &buf[1..sz + 1]);
    agree(&s, &d, 2);
    check(m.encoding_size(&d) == sz, 6);
    let mut again = vec![0xa5; sz];
    check(m.encode(&d, &mut again) == sz, 7);
    agree(&s, &MarshallerDataSource::new(&m, &again), 8);
    cover(1);
}
/// C03, C04: many elements.
pub fn wide() {
    let n = [20, 130, 300][config() % 3];
    let parts = ["u8", "string", "<a:(),b:u8>", "i16", "()", "<5:string>", "u64", "(bool,string)", "<a:(),b:(),c:u32>"];
    let mut text = String::from(if n == 130 { "{" } else { "(" });
    for i in 0..n {
        if i > 0 { text.push(',') }
        if n == 130 { text.push_str(&format!("f{}:", i)) }
        text.push_str(parts[i % parts.len()]);
    }
    text.push(if n == 130 { '}' } else { ')' });
    let typ = parse(&text);
    let m = Marshaller::new(Arc::new(Layout::new(&typ)));
    // the case tags follow one another, from one of several first ones
    let (first, mut k) = (size(5), 0);
    let mut s = Source(Vec::new());
    fn fill(s: &mut Source, typ: &Type, at: &Path, tag: usize, k: &mut usize) {
        match &typ.kind {
            Kind::Tuple(v) => for (i, c) in v.iter().enumerate() { fill(s, c, &at.with_component(i), tag + i, k) },
            Kind::Struct(v) => for (i, c) in v.iter().enumerate() { fill(s, &c.typ, &at.with_component(i), tag + i, k) },
            Kind::Enum(v) => {
                let t = tag / 3 % v.len();
                s.0.push((at.clone(), Leaf::Tag(t)));
                fill(s, &v[t].typ, &at.with_component(t), tag + 1, k)
            }
            _ => s.fill(typ, at, &mut |_| { *k += 1; bytes(*k % 4) }),
        }
    }
    fill(&mut s, &typ, &Path::create_empty(), first * 3, &mut k);
    let sz = m.encoding_size(&s);
    let mut buf = vec![0x5a; sz + 3];
    check(m.encode(&s, &mut buf[1..sz + 1]) == sz, 1);
    check(buf[0] == 0x5a && buf[sz + 1] == 0x5a && buf[sz + 2] == 0x5a, 10);
    let d = MarshallerDataSource::new(&m, &buf[1..sz + 1]);
    check(m.encoding_size(&d) == sz, 6);
    agree(&s, &d, 2);
    cover(1);
}
/// C03, C06: enums of all kinds of sizes next to each other.
pub fn packed() {
    let sizes: &[usize] = if thorough() { &[1, 2, 3, 4, 9, 16, 17, 33, 65, 128, 129, 256, 257, 513] } else { &[1, 2, 3, 16, 17, 128, 256, 257] };
    let n: Vec<usize> = (0..3).map(|_| sizes[pickz(sizes.len())]).collect();
    let typ = parse(&format!("(<{}:()>,<{}:()>,u16,<{}:u8>)", n[0], n[1], n[2]));
    let m = Marshaller::new(Arc::new(Layout::new(&typ)));
    let mut s = Source(Vec::new());
    let tag = |i: usize| if bools() { n[i] - 1 } else { n[i] / 3 };
    let at = |v: &[usize]| { let mut p = Path::create_empty(); for i in v { p = p.with_component(*i) } p };
    let t = [tag(0), tag(1), tag(2)];
    s.0.push((at(&[0]), Leaf::Tag(t[0])));
    s.0.push((at(&[1]), Leaf::Tag(t[1])));
    s.0.push((at(&[2]), Leaf::Prim(Primitive::U16, any_prim(Primitive::U16))));
    s.0.push((at(&[3]), Leaf::Tag(t[2])));
    s.0.push((at(&[3, t[2]]), Leaf::Prim(Primitive::U8, any_prim(Primitive::U8))));
    let sz = m.encoding_size(&s);
    let mut buf = bytes(sz);
    check(m.encode(&s, &mut buf) == sz, 1);
    agree(&s, &MarshallerDataSource::new(&m, &buf), 2);
    cover(1);
}
