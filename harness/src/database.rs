//! C26: the catalogue of schemas and objects.
use crate::rt::*;
use cathlamet::sql::verif::schema::{Column, Database, RowSet, Schema, SchemaObject, Table, View};
use cathlamet::sql::verif::types::DataType;
use cathlamet::sql::verif::Name;

pub const TYPES: [DataType; 8] = [DataType::Generic, DataType::Varchar, DataType::Numeric, DataType::Logical, DataType::Date, DataType::Time, DataType::Timestamp, DataType::Geometry];
pub fn index(t: DataType) -> u8 {
    match t { DataType::Generic => 0, DataType::Varchar => 1, DataType::Numeric => 2, DataType::Logical => 3, DataType::Date => 4, DataType::Time => 5, DataType::Timestamp => 6, DataType::Geometry => 7 }
}
/// Any data type; its number, and itself.
pub fn any_type() -> (u8, DataType) { let i = below(8) as u8; (i, TYPES[i as usize]) }

fn up(s: &str) -> Vec<u8> { s.bytes().map(|b| if b >= b'a' && b <= b'z' { b - 32 } else { b }).collect() }
fn name(n: usize) -> String {
    let mut s = String::new();
    for _ in 0..n { let c = u8s(); assume(c < 0x80); s.push(c as char) }
    s
}
/// Creating schemas of any names, in sequence.
pub fn create() {
    let mut db = Database::new();
    check(db.schemata.len() == 0, 1);
    let mut mine: Vec<(String, usize)> = Vec::new(); // spelling, objects
    for i in 0..if thorough() { 4 } else { 3 } {
        let n = name(pickz(if i < 2 { 3 } else { 2 }));
        let known = mine.iter().position(|e| up(&e.0) == up(&n));
        let r = db.create_schema(&Name::from(n.as_str()));
        check(r.is_ok() == known.is_none(), 2);
        match known {
            None => {
                cover(1);
                // give it something to lose
                match db.schemata.get_mut(&Name::from(n.as_str())) {
                    None => check(false, 3),
                    Some(s) => {
                        check(s.objects.len() == 0, 4);
                        s.objects.insert(Name::from("o"), SchemaObject::View(View { name: Name::from("o"), rows: RowSet::empty(), query: String::new() }));
                    }
                }
                mine.push((n, 1));
            }
            Some(_) => cover(2),
        }
        check(db.schemata.len() == mine.len(), 5);
        for (spelling, objects) in &mine {
            match db.schemata.get(&Name::from(spelling.as_str())) {
                None => check(false, 6),
                Some(s) => { check(same(s.name.as_str().as_bytes(), spelling.as_bytes()), 7); check(s.objects.len() == *objects, 8) }
            }
        }
    }
}
fn columns(tag: &str) -> (Vec<Column>, Vec<(String, bool, bool, u8)>) {
    let mut v = Vec::new();
    let mut w = Vec::new();
    for i in 0..pickz(3) {
        let (k, t) = any_type();
        let n = format!("{}{}", tag, i);
        let (a, b) = (bools(), bools());
        v.push(Column { name: Name::from(n.as_str()), not_null: a, primary_key: b, data_type: t });
        w.push((n, a, b, k));
    }
    (v, w)
}
/// Describing objects of any names in any schema.
pub fn describe() {
    let mut db = Database::new();
    let names = ["s", "t"];
    for n in names { if db.create_schema(&Name::from(n)).is_err() { check(false, 11) } }
    let objects = [("a", 0), ("b", 0), ("a", 1), ("s", 1)];
    let mut mine = Vec::new();
    for (o, (n, s)) in objects.iter().enumerate() {
        let (v, w) = columns(["c", "d", "e", "f"][o]);
        let rows = RowSet { columns: v };
        let obj = if pick(2) == 0 { SchemaObject::Table(Table { name: Name::from(*n), rows, primary_key: Vec::new() }) }
                  else { SchemaObject::View(View { name: Name::from(*n), rows, query: String::from("q") }) };
        let s: &mut Schema = db.schemata.get_mut(&Name::from(names[*s])).unwrap();
        s.objects.insert(Name::from(*n), obj);
        mine.push(w);
    }
    let (qs, qo) = (name(1), name(1));
    let want = objects.iter().position(|(n, s)| up(n) == up(&qo) && up(names[*s]) == up(&qs));
    match (db.describe(&Name::from(qs.as_str()), &Name::from(qo.as_str())), want) {
        (Err(_), None) => cover(1),
        (Ok(r), Some(o)) => {
            cover(2);
            let w = &mine[o];
            check(r.columns.len() == w.len(), 12);
            for (c, (n, a, b, k)) in r.columns.iter().zip(w) {
                check(same(c.name.as_str().as_bytes(), n.as_bytes()), 13);
                check(c.not_null == *a && c.primary_key == *b && index(c.data_type) == *k, 14);
            }
            observe(w.len() as u64);
        }
        (Ok(_), None) => check(false, 15),
        (Err(_), Some(_)) => check(false, 16),
    }
}

/// Sixty schemas with sixty objects of forty columns, and one more of any name; names that are long
/// and not ASCII.
pub fn many() {
    let mut db = Database::new();
    let n = [1, 20, 60][pickz(3)];
    let spell = |i: usize| match i % 4 { 0 => format!("n{}", i), 1 => format!("Schema of Straße {}", i), 2 => format!("{}{}", "x".repeat(64), i), _ => format!("é{}", i) };
    for i in 0..n { check(db.create_schema(&Name::from(spell(i))).is_ok(), 21) }
    // one that exists, by another spelling, or does not
    let at = [0, n / 2, n - 1][pickz(3)];
    let name = match pick(4) { 0 => spell(at).to_uppercase(), 1 => spell(at).to_lowercase(), 2 => format!("{}_", spell(at)), _ => { let mut s = spell(at); s.pop(); s.push(u8s() as char); s } };
    let up = |s: &str| -> Vec<u32> { s.chars().flat_map(|c| c.to_uppercase()).map(|c| c as u32).collect() };
    let known = (0..n).find(|i| up(&spell(*i)) == up(&name));
    check(db.create_schema(&Name::from(name.as_str())).is_ok() == known.is_none(), 22);
    check(db.schemata.len() == n + known.is_none() as usize, 23);
    for i in 0..n { match db.schemata.get(&Name::from(spell(i))) { None => check(false, 24), Some(s) => { let sp = spell(i); check(s.name.as_str() == sp, 25) } } }
    // wide objects
    let k = [3, 17, 40][pickz(3)];
    let (nn, pk, t) = (u64s(), u64s(), pickz(8));
    {
        let s: &mut Schema = db.schemata.get_mut(&Name::from(spell(at))).unwrap();
        for o in 0..4 {
            let columns = (0..k).map(|i| Column { name: Name::from(format!("c{}_{}", o, i)), not_null: nn >> i & 1 == 1, primary_key: pk >> i & 1 == 1, data_type: TYPES[(i + t + o) % 8] }).collect();
            s.objects.insert(Name::from(format!("o{}", o)), SchemaObject::Table(Table { name: Name::from(format!("o{}", o)), rows: RowSet { columns }, primary_key: Vec::new() }));
        }
    }
    let o = pickz(4);
    match db.describe(&Name::from(spell(at)), &Name::from(format!("O{}", o))) {
        Err(_) => check(false, 26),
        Ok(r) => {
            check(r.columns.len() == k, 27);
            for (i, c) in r.columns.iter().enumerate() {
                let w = format!("c{}_{}", o, i);
                check(c.name.as_str() == w, 28);
                check(c.not_null == (nn >> i & 1 == 1) && c.primary_key == (pk >> i & 1 == 1) && index(c.data_type) == index(TYPES[(i + t + o) % 8]), 29);
            }
        }
    }
    if known.is_some() { cover(1) } else { cover(2) }
}
