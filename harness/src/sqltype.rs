//! C21 to C24: types of SQL expressions, queries and statements.
use crate::database::{any_type, index, TYPES};
use crate::rt::*;
use cathlamet::sql::verif::ast::*;
use cathlamet::sql::verif::schema::{Column, Database, RowSet, SchemaObject, Table};
use cathlamet::sql::verif::typing::{columns, context, SetContext};
use cathlamet::sql::verif::Name;

pub const VARCHAR: u8 = 1;
pub const NUMERIC: u8 = 2;
pub const LOGICAL: u8 = 3;
fn ordered(t: u8) -> bool { (t == VARCHAR) | (t == NUMERIC) | ((t >= 4) & (t <= 6)) }

/// What a type is expected to be.
#[derive(Clone)]
pub enum Ty { S(u8, bool), T(Vec<Ty>) }
use Ty::*;
/// Equality of types; whether comparing can give NULL.
fn comparable(a: &Ty, b: &Ty) -> Option<bool> {
    match (a, b) {
        (S(t, n), S(u, m)) => if t == u { Some(*n | *m) } else { None },
        (T(v), T(w)) => {
            if v.len() != w.len() { return None }
            let mut null = false;
            for (x, y) in v.iter().zip(w) { null |= comparable(x, y)? }
            Some(null)
        }
        _ => None,
    }
}

pub fn n(s: &str) -> Name { Name::from(s) }
/// A column of a table: name, type, nullability.
pub type Col = (String, u8, bool);
pub fn table(name: &str, cols: &[Col]) -> SchemaObject {
    let c = cols.iter().map(|c| Column { name: n(&c.0), not_null: !c.2, primary_key: false, data_type: TYPES[c.1 as usize] }).collect();
    SchemaObject::Table(Table { name: n(name), rows: RowSet { columns: c }, primary_key: Vec::new() })
}
pub fn fresh(name: &str) -> Col { (String::from(name), any_type().0, bools()) }

// --- builders ---
pub type E = Box<Expression>;
pub fn ident(path: &[&str]) -> E { Box::new(Expression::QualifiedIdentifier(path.iter().map(|s| n(s)).collect())) }
pub fn query(columns: ResultColumns, from: Vec<Box<TableExpression>>, where_expr: Option<E>) -> Box<SetExpression> {
    Box::new(SetExpression::Query { mode: SelectMode::All, columns, from, where_expr, group_by: None })
}
pub fn select(expr: Box<SetExpression>) -> SelectStatement { SelectStatement { common: Vec::new(), expr, order_by: Vec::new(), limit: None } }
pub fn named(path: &[&str], alias: Option<&str>) -> Box<TableExpression> {
    Box::new(TableExpression::Named { name: path.iter().map(|s| n(s)).collect(), alias: alias.map(n) })
}
pub fn item(expr: E, rename: Option<&str>) -> Box<ResultColumn> { Box::new(ResultColumn::Expr { expr, rename: rename.map(n) }) }
pub fn one(e: E, from: Vec<Box<TableExpression>>) -> SelectStatement { select(query(ResultColumns::List(vec![item(e, None)]), from, None)) }
/// A value of any type: a nested SELECT of a column of table `v`, which `g` keeps.
pub struct Gen { pub cols: Vec<Col>, pub nest: u32 }
impl Gen {
    pub fn new() -> Gen { Gen { cols: Vec::new(), nest: if thorough() { 3 } else { 2 } } }
    pub fn column(&mut self) -> (String, Ty) {
        let c = fresh(&format!("c{}", self.cols.len()));
        let r = (c.0.clone(), S(c.1, c.2));
        self.cols.push(c);
        r
    }
    fn leaf(&mut self) -> (E, Option<Ty>) { let (c, t) = self.column(); (ident(&[&c]), Some(t)) }
    /// An expression of kind `k` (0 a column, up to KINDS) whose operands nest up to `depth`.
    fn kind(&mut self, k: u32, depth: u32, full: bool) -> (E, Option<Ty>) {
        match k {
            0 => self.leaf(),
            1 => {
                let s = || String::from("12");
                let (l, t, null) = match pick(9) {
                    0 => (Literal::StringLiteral(s()), VARCHAR, false),
                    1 => (Literal::NumericLiteral(s()), NUMERIC, false),
                    2 => (Literal::Null, 0, true),
                    3 => (Literal::CurrentTime, 5, false),
                    4 => (Literal::CurrentDate, 4, false),
                    5 => (Literal::CurrentTimestamp, 6, false),
                    6 => (Literal::DateLiteral(s()), 4, false),
                    7 => (Literal::TimeLiteral(s()), 5, false),
                    _ => (Literal::TimestampLiteral(s()), 6, false),
                };
                (Box::new(Expression::Literal(l)), Some(S(t, null)))
            }
            2 => {
                let mut v = Vec::new();
                let mut w = Some(Vec::new());
                for _ in 0..1 + pick(if full { 3 } else { 2 }) {
                    let (e, t) = self.sub(depth);
                    v.push(e);
                    w = match (w, t) { (Some(mut w), Some(t)) => { w.push(t); Some(w) } _ => None };
                }
                (Box::new(Expression::MakeTuple(v)), w.map(T))
            }
            3..=5 => {
                let (e, t) = self.sub(depth);
                let (op, r) = match k {
                    3 => (UnaryOperator::Negate, match t { Some(S(NUMERIC, x)) => Some(S(NUMERIC, x)), _ => None }),
                    4 => (UnaryOperator::Not, match t { Some(S(LOGICAL, x)) => Some(S(LOGICAL, x)), _ => None }),
                    _ => (UnaryOperator::IsNull, match t { Some(S(_, _)) => Some(S(LOGICAL, false)), _ => None }),
                };
                (Box::new(Expression::Unary { op, expr: e }), r)
            }
            6..=12 => {
                let ((l, x), (r, y)) = (self.sub(depth), self.sub(depth));
                let (op, t) = match k {
                    6 => (BinaryOperator::Multiply, NUMERIC), 7 => (BinaryOperator::Divide, NUMERIC), 8 => (BinaryOperator::Add, NUMERIC),
                    9 => (BinaryOperator::Subtract, NUMERIC), 10 => (BinaryOperator::Concat, VARCHAR),
                    11 => (BinaryOperator::And, LOGICAL), _ => (BinaryOperator::Or, LOGICAL),
                };
                let w = match (x, y) { (Some(S(a, p)), Some(S(b, q))) => if a == t && b == t { Some(S(t, p | q)) } else { None }, _ => None };
                (Box::new(Expression::Binary { op, left: l, right: r }), w)
            }
            13..=19 => {
                let ((l, x), (r, y)) = (self.sub(depth), self.sub(depth));
                let op = match k {
                    13 => ComparisonOperator::Equal, 14 => ComparisonOperator::NotEqual, 15 => ComparisonOperator::LessThan, 16 => ComparisonOperator::LessEqual,
                    17 => ComparisonOperator::GreaterThan, 18 => ComparisonOperator::GreaterEqual, _ => ComparisonOperator::Like,
                };
                let w = match (x, y) {
                    (Some(x), Some(y)) => match (comparable(&x, &y), &x) {
                        (Some(null), S(t, _)) => if k < 15 || (k < 19 && ordered(*t)) || *t == VARCHAR { Some(S(LOGICAL, null)) } else { None },
                        (Some(null), T(_)) => if k < 15 { Some(S(LOGICAL, null)) } else { None },
                        (None, _) => None,
                    },
                    _ => None,
                };
                (Box::new(Expression::Comparison { op, left: l, right: r }), w)
            }
            20 => {
                let ((e, x), (l, y), (u, z)) = (self.sub(depth), self.leaf(), self.sub(depth));
                let w = match (x, y, z) { (Some(S(a, p)), Some(S(b, q)), Some(S(c, r))) => if a == b && a == c && ordered(a) { Some(S(LOGICAL, p | q | r)) } else { None }, _ => None };
                (Box::new(Expression::Between { expr: e, lower: l, upper: u }), w)
            }
            21 => {
                let (e, x) = self.sub(depth);
                let mut list = Vec::new();
                let mut known: Option<Option<Ty>> = None; // type of the list so far
                for _ in 0..pick(if depth == 0 { 4 } else { 3 }) {
                    let (v, t) = self.sub(depth);
                    list.push(v);
                    known = Some(match (known, t) {
                        (None, t) => t,
                        (Some(Some(S(a, p))), Some(S(b, q))) => if a == b { Some(S(a, p | q)) } else { None },
                        _ => None,
                    });
                }
                let w = match (x, known) {
                    (Some(S(_, _)), None) => Some(S(LOGICAL, false)),
                    (Some(S(a, p)), Some(Some(S(b, q)))) => if a == b { Some(S(LOGICAL, p | q)) } else { None },
                    _ => None,
                };
                (Box::new(Expression::In { expr: e, set: SetSpecification::List(list) }), w)
            }
            22 => {
                let (e, x) = self.sub(depth);
                let (v, t) = self.sub(depth);
                let two = pick(2) == 1;
                let mut items = vec![item(v, None)];
                if two { let (v, _) = self.leaf(); items.push(item(v, None)) }
                let s = select(query(ResultColumns::List(items), vec![named(&["t"], None)], None));
                let w = match (x, t) { (Some(S(a, p)), Some(S(b, q))) => if a == b && !two { Some(S(LOGICAL, p | q)) } else { None }, _ => None };
                (Box::new(Expression::In { expr: e, set: SetSpecification::Select(s) }), w)
            }
            23 => {
                let (e, x) = self.sub(depth);
                let i = pickz(3);
                let w = match (x, i) { (Some(S(a, p)), 1) => { let u = &self.cols[0]; if a == u.1 { Some(S(LOGICAL, p | u.2)) } else { None } } _ => None };
                let name = if pick(2) == 0 { vec![n("u"), ] } else { vec![n("main"), n("u")] };
                let name = if i == 1 { name } else if i == 0 { vec![n("w")] } else { vec![n("nowhere")] };
                (Box::new(Expression::In { expr: e, set: SetSpecification::Name(name) }), w)
            }
            24 | 25 => {
                let mut ok = true;
                let head = if k == 25 { let (e, t) = self.sub(depth); ok &= t.is_some(); Some((e, t)) } else { None };
                let mut when_part = Vec::new();
                let mut result: Option<Ty> = None;
                for i in 0..1 + pick(if depth == 0 { 3 } else { 2 }) {
                    let (g, t) = if i == 0 { self.sub(depth) } else { self.leaf() };
                    let (b, u) = if i == 0 { self.sub(depth) } else { self.leaf() };
                    match (&head, t) {
                        (_, None) => ok = false,
                        (None, Some(t)) => if !matches!(t, S(LOGICAL, _)) { ok = false },
                        (Some((_, Some(h))), Some(t)) => if comparable(h, &t).is_none() { ok = false },
                        _ => ok = false,
                    }
                    result = match (result, u, i) {
                        (None, Some(S(a, p)), 0) => Some(S(a, p)),
                        (Some(S(a, p)), Some(S(b, q)), _) => if a == b { Some(S(a, p | q)) } else { ok = false; None },
                        _ => { ok = false; None }
                    };
                    when_part.push(WhenClause { guard: g, body: b });
                }
                let mut else_part = None;
                if pick(2) == 0 { if let Some(S(a, _)) = result { result = Some(S(a, true)) } }
                else {
                    let (e, t) = self.sub(depth);
                    result = match (result, t) { (Some(S(a, p)), Some(S(b, q))) => if a == b { Some(S(a, p | q)) } else { None }, _ => None };
                    else_part = Some(e);
                }
                (Box::new(Expression::Case { expr: head.map(|h| h.0), when_part, else_part }), if ok { result } else { None })
            }
            26 => {
                let (e, t) = self.sub(depth);
                let two = pick(2) == 1;
                let mut items = vec![item(e, None)];
                if two { let (v, _) = self.leaf(); items.push(item(v, None)) }
                let s = select(query(ResultColumns::List(items), vec![named(&["t"], None)], None));
                (Box::new(Expression::Select(s)), match t { Some(S(a, p)) if !two => Some(S(a, p)), _ => None })
            }
            27 => {
                // a name that is not there
                (ident(&[["nope", "u"][pickz(2)]]), None)
            }
            _ => {
                let (c, t) = self.column();
                match pick(3) {
                    0 => (ident(&["t", &c]), Some(t)),
                    1 => (ident(&["u", &c]), None),
                    _ => (ident(&["main", "t", &c]), None),
                }
            }
        }
    }
    fn sub(&mut self, depth: u32) -> (E, Option<Ty>) {
        if depth == 0 || self.nest == 0 { return self.leaf() }
        // one representative of every way types are computed
        const NEST: [u32; 12] = [0, 5, 2, 8, 10, 11, 13, 20, 21, 24, 26, 3];
        let k = NEST[pickz(12)];
        if k != 0 { self.nest -= 1 }
        self.kind(k, depth - 1, false)
    }
}
pub const KINDS: u32 = 29;

/// The database of these harnesses: t with the columns of `g`, u with the first of them, and w without columns.
fn database(g: &Gen) -> SetContext {
    let mut db = Database::new();
    if db.create_schema(&n("main")).is_err() { check(false, 90) }
    let s = db.schemata.get_mut(&n("main")).unwrap();
    s.objects.insert(n("t"), table("t", &g.cols));
    let mut u = g.cols[0].clone();
    u.0 = String::from("k");
    s.objects.insert(n("u"), table("u", &[u]));
    s.objects.insert(n("w"), table("w", &[]));
    context(&db, n("main"))
}
fn expression(k: u32, depth: u32) {
    let mut g = Gen::new();
    g.column();
    let (e, want) = g.kind(k, depth, true);
    let c = database(&g);
    let got = columns(&one(e, vec![named(&["t"], None)]), &c);
    match (got, want) {
        (Ok(v), Some(S(t, null))) => {
            check(v.len() == 1, 1);
            check(index(v[0].1) == t, 2);
            check(v[0].2 == null, 3);
            cover(1);
        }
        (Err(_), Some(T(_))) | (Err(_), None) => cover(2),
        (Ok(_), _) => check(false, 4),
        (Err(_), Some(S(_, _))) => check(false, 5),
    }
}
/// Every operator over columns of any type, and tuples and literals.
pub fn flat() { let k = pick(KINDS); expression(k, 0) }
/// Every operator over nested operands.
pub fn nested() { let k = config() as u32; expression(k, 1) }

// --- C22: names ---
fn same_name(a: &str, b: &str) -> bool {
    let (a, b) = (a.as_bytes(), b.as_bytes());
    if a.len() != b.len() { return false }
    let mut d = false;
    for i in 0..a.len() { d |= fold(a[i]) != fold(b[i]) }
    !d
}
fn fold(c: u8) -> u8 { if c >= b'a' && c <= b'z' { c - 32 } else { c } }
/// A name of one arbitrary ASCII character.
fn letter() -> String { let c = u8s(); assume(c < 0x80); String::from(c as char) }
/// A relation in scope: its name, if it has one, and its columns.
type Rel = (Option<String>, Vec<Col>);
struct World { schemas: Vec<(&'static str, Vec<(&'static str, Vec<Col>)>)> }
impl World {
    fn new() -> World {
        let f = |v: &[&str]| v.iter().map(|s| fresh(s)).collect::<Vec<Col>>();
        World { schemas: vec![
            ("main", vec![("a", f(&["x", "y"])), ("b", f(&["y", "z"])), ("x", f(&["x", "b"]))]),
            ("other", vec![("a", f(&["w", "x"])), ("e", f(&["e"]))]),
        ] }
    }
    fn context(&self) -> SetContext {
        let mut db = Database::new();
        for (s, tables) in &self.schemas {
            if db.create_schema(&n(s)).is_err() { check(false, 90) }
            let s = db.schemata.get_mut(&n(s)).unwrap();
            for (t, cols) in tables { s.objects.insert(n(t), table(t, cols)); }
        }
        context(&db, n("main"))
    }
    fn find(&self, path: &[&str]) -> Option<&Vec<Col>> {
        let (s, t) = match path.len() { 1 => ("main", path[0]), 2 => (path[0], path[1]), _ => return None };
        let s = self.schemas.iter().find(|x| same_name(x.0, s))?;
        s.1.iter().find(|x| same_name(x.0, t)).map(|x| &x.1)
    }
}
/// An item of a FROM clause and what it brings into scope; None if it is not valid.
fn source(w: &World, optional: bool) -> (Box<TableExpression>, Option<Rel>) {
    let null = |v: &Vec<Col>| v.iter().map(|c| (c.0.clone(), c.1, c.2 | optional)).collect::<Vec<Col>>();
    let alias = [None, Some("p"), Some("x"), Some("A")];
    let k = pickz(if thorough() { 10 } else { 7 });
    if k < 2 {
        // (SELECT a.y AS z, a.x AS b FROM a) with or without a name
        let al = [None, Some("p")][k];
        let items = vec![item(ident(&["a", "y"]), Some("z")), item(ident(&["x"]), Some("q"))];
        let s = select(query(ResultColumns::List(items), vec![named(&["a"], None)], None));
        let a = w.find(&["a"]).unwrap();
        let cols = vec![(String::from("z"), a[1].1, a[1].2), (String::from("q"), a[0].1, a[0].2)];
        return (Box::new(TableExpression::Select { select: s, alias: al.map(n) }), Some((al.map(String::from), null(&cols))));
    }
    const PATHS: [&[&str]; 8] = [&["a"], &["b"], &["x"], &["other", "a"], &["nope"], &["MAIN", "B"], &["other", "b"], &["main", "a", "x"]];
    let path = PATHS[k - 2];
    let al = if k == 6 { None } else { alias[pickz(4)] };
    let name = al.unwrap_or(path[path.len() - 1]);
    (named(path, al), w.find(path).map(|c| (Some(String::from(name)), null(c))))
}
fn yes() -> E { Box::new(Expression::Comparison { op: ComparisonOperator::Equal, left: num(), right: num() }) }
fn num() -> E { Box::new(Expression::Literal(Literal::NumericLiteral(String::from("1")))) }
fn joined(l: Box<TableExpression>, r: Box<TableExpression>, op: JoinOperator) -> Box<TableExpression> {
    Box::new(TableExpression::Join { left: l, right: r, op, constraint: JoinConstraint::Expr(yes()) })
}
/// Up to `most` tables, listed or joined.
fn scope(w: &World, most: u32) -> (Vec<Box<TableExpression>>, Option<Vec<Rel>>) {
    let count = pick(most + 1);
    let mut from: Vec<Box<TableExpression>> = Vec::new();
    let mut rels = Some(Vec::new());
    let add = |r: Option<Rel>, rels: &mut Option<Vec<Rel>>| match (r, rels.as_mut()) {
        (Some(r), Some(v)) => {
            let double = match &r.0 { Some(x) => v.iter().any(|o: &Rel| match &o.0 { Some(y) => same_name(x, y), None => false }), None => false };
            if double { *rels = None } else { v.push(r) }
        }
        _ => *rels = None,
    };
    let mut i = 0;
    while i < count {
        let join = if i + 1 < count { pick(5) } else { 0 };
        if join == 0 { let (t, r) = source(w, false); from.push(t); add(r, &mut rels); i += 1; continue }
        let (op, lo, ro) = match join {
            1 => (JoinOperator::Join(JoinType::Inner), false, false),
            2 => (JoinOperator::Join(JoinType::Left), false, true),
            3 => (JoinOperator::Join(JoinType::Right), true, false),
            _ => (if pick(2) == 0 { JoinOperator::Join(JoinType::Full) } else { JoinOperator::Natural(JoinType::Full) }, true, true),
        };
        let (l, a) = source(w, lo);
        let (r, b) = source(w, ro);
        from.push(joined(l, r, op));
        add(a, &mut rels);
        add(b, &mut rels);
        i += 2;
    }
    (from, rels)
}
fn lookup(rels: &[Rel], path: &[String]) -> Option<Col> {
    match path.len() {
        1 => {
            let mut found = None;
            for r in rels { for c in &r.1 { if same_name(&c.0, &path[0]) { if found.is_some() { return None } found = Some(c.clone()) } } }
            found
        }
        2 => {
            let r = rels.iter().find(|r| match &r.0 { Some(x) => same_name(x, &path[0]), None => false })?;
            r.1.iter().find(|c| same_name(&c.0, &path[1])).cloned()
        }
        _ => None,
    }
}
fn reference() -> (E, Vec<String>) {
    let p: Vec<String> = (0..1 + pick(3)).map(|_| letter()).collect();
    (Box::new(Expression::QualifiedIdentifier(p.iter().map(|s| n(s)).collect())), p)
}
/// A reference in a selection list over any tables in scope.
pub fn resolve() {
    let w = World::new();
    let (from, rels) = scope(&w, 2);
    let (e, p) = reference();
    let got = columns(&one(e, from), &w.context());
    match (got, rels.and_then(|r| lookup(&r, &p))) {
        (Ok(v), Some(c)) => {
            cover(if p.len() == 1 { 1 } else { 2 });
            check(v.len() == 1, 21);
            check(index(v[0].1) == c.1, 22);
            check(v[0].2 == c.2, 23);
        }
        (Err(_), None) => cover(3),
        (Ok(_), None) => check(false, 24),
        (Err(_), Some(_)) => check(false, 25),
    }
}
/// References in the other clauses of a query.
pub fn clauses() {
    let w = World::new();
    let (from, rels) = scope(&w, if thorough() { 2 } else { 1 });
    let (e, p) = reference();
    let isnull = |e: E| Box::new(Expression::Unary { op: UnaryOperator::IsNull, expr: e });
    let mut where_expr = None;
    let mut group_by = None;
    let mut order_by = Vec::new();
    let found = rels.as_ref().and_then(|r| lookup(r, &p));
    let mut ok = rels.is_some() && found.is_some();
    match pick(6) {
        0 => where_expr = Some(isnull(e)),
        1 => { where_expr = Some(e); ok = ok && found.as_ref().unwrap().1 == LOGICAL }
        2 => group_by = Some(GroupBy { groupings: vec![num(), e], having: None }),
        3 => group_by = Some(GroupBy { groupings: vec![num()], having: Some(isnull(e)) }),
        4 => { group_by = Some(GroupBy { groupings: vec![num()], having: Some(e) }); ok = ok && found.as_ref().unwrap().1 == LOGICAL }
        _ => {
            let direction = OrderingDirection::Ascending;
            // the result column of that name comes first
            if p.len() == 1 && same_name(&p[0], "y") { ok = rels.is_some() }
            if pick(2) == 0 { order_by.push(Ordering { expr: e, collation: None, direction }) }
            else {
                order_by.push(Ordering { expr: num(), collation: None, direction: OrderingDirection::Descending });
                if p.len() == 1 && same_name(&p[0], "y") { ok = rels.is_some() } else { ok = ok && found.as_ref().unwrap().1 == NUMERIC }
                order_by.push(Ordering { expr: Box::new(Expression::Unary { op: UnaryOperator::Negate, expr: e }), collation: None, direction });
            }
        }
    }
    let expr = Box::new(SetExpression::Query { mode: SelectMode::Distinct, columns: ResultColumns::List(vec![item(num(), Some("y"))]), from, where_expr, group_by });
    let got = columns(&SelectStatement { common: Vec::new(), expr, order_by, limit: None }, &w.context());
    check(got.is_ok() == ok, 26);
    either(ok);
}
/// The constraints of joins.
pub fn joins() {
    let w = World::new();
    let (l, a) = source(&w, false);
    let (r, b) = source(&w, false);
    let mut rels = Vec::new();
    let mut ok = true;
    for x in [a, b] { match x { Some(x) => rels.push(x), None => ok = false } }
    if ok { if let (Some(x), Some(y)) = (&rels[0].0, &rels[1].0) { if same_name(x, y) { ok = false } } }
    let constraint = match pick(3) {
        0 => {
            let (e, p) = reference();
            ok = ok && matches!(lookup(&rels, &p), Some((_, t, _)) if t == LOGICAL);
            JoinConstraint::Expr(e)
        }
        1 => {
            let (e, p) = reference();
            ok = ok && lookup(&rels, &p).is_some();
            JoinConstraint::Expr(Box::new(Expression::Unary { op: UnaryOperator::IsNull, expr: e }))
        }
        _ => {
            let names: Vec<String> = (0..1 + pick(2)).map(|_| letter()).collect();
            for x in &names {
                let p = [x.clone()];
                ok = ok && match (lookup(&rels[..1], &p), lookup(&rels[1..], &p)) { (Some(c), Some(d)) => c.1 == d.1, _ => false };
            }
            JoinConstraint::Columns(names.iter().map(|s| n(s)).collect())
        }
    };
    let op = [JoinOperator::Cross, JoinOperator::Join(JoinType::Inner), JoinOperator::Natural(JoinType::Inner)].into_iter().nth(pickz(3)).unwrap();
    let got = columns(&one(num(), vec![Box::new(TableExpression::Join { left: l, right: r, op, constraint })]), &w.context());
    check(got.is_ok() == ok, 27);
    either(ok);
}
/// Common table expressions of any names.
pub fn common() {
    let w = World::new();
    let mut known: Vec<(String, Vec<Col>)> = Vec::new();
    let mut common = Vec::new();
    let mut ok = true;
    let visible = |known: &Vec<(String, Vec<Col>)>, f: &str| -> Option<Vec<Col>> {
        for (k, v) in known { if same_name(k, f) { return Some(v.clone()) } }
        w.find(&[f]).cloned()
    };
    for i in 0..1 + pick(if thorough() { 3 } else { 2 }) {
        // name (...) AS (SELECT * FROM f)
        let (name, f) = (letter(), if i == 0 { String::from("b") } else { letter() });
        let query = select(query(ResultColumns::All, vec![named(&[&f], None)], None));
        let mut cols = visible(&known, &f);
        let column_names = if pick(2) == 0 { None } else {
            let l = letter();
            cols = cols.and_then(|c| c.iter().find(|c| same_name(&c.0, &l)).map(|c| vec![(l.clone(), c.1, c.2)]));
            Some(vec![n(&l)])
        };
        common.push(CommonTableExpression { identifier: n(&name), column_names, query });
        if known.iter().any(|k| same_name(&k.0, &name)) { ok = false }
        match cols { Some(c) => known.push((name, c)), None => ok = false }
        if !ok { break }
    }
    let f = letter();
    let mut limit = None;
    let mut order_by = Vec::new();
    let kind = pick(6);
    if kind >= 2 {
        // the only column of f in an expression
        let e = || Box::new(Expression::Select(select(query(ResultColumns::All, vec![named(&[&f], None)], None))));
        let mut list = num();
        let mut where_expr = None;
        match kind {
            2 => list = e(),
            3 => where_expr = Some(Box::new(Expression::In { expr: num(), set: SetSpecification::Name(vec![n(&f)]) })),
            4 => limit = Some(Limit { number_rows: num(), offset_value: Some(e()) }),
            _ => order_by.push(Ordering { expr: e(), collation: None, direction: OrderingDirection::Ascending }),
        }
        let last = query(ResultColumns::List(vec![item(list, None)]), Vec::new(), where_expr);
        let want = match if ok { visible(&known, &f) } else { None } {
            Some(c) => c.len() == 1 && (kind == 2 || kind == 5 || c[0].1 == NUMERIC) && (kind != 4 || !c[0].2),
            None => false,
        };
        check(columns(&SelectStatement { common, expr: last, order_by, limit }, &w.context()).is_ok() == want, 30);
        return;
    }
    let last = match kind {
        0 => query(ResultColumns::All, vec![named(&[&f], Some("r"))], None),
        _ => {
            // in a nested SELECT with a common table expression of its own
            let g = letter();
            let inner = CommonTableExpression { identifier: n(&g), column_names: None, query: select(query(ResultColumns::All, vec![named(&["x"], None)], None)) };
            if ok { match visible(&known, "x") { Some(c) => { known.insert(0, (g, c)); }, None => ok = false } }
            let s = SelectStatement { common: vec![inner], expr: query(ResultColumns::All, vec![named(&[&f], None)], None), order_by: Vec::new(), limit: None };
            query(ResultColumns::List(vec![Box::new(ResultColumn::AllFrom(n("R")))]), vec![Box::new(TableExpression::Select { select: s, alias: Some(n("r")) })], None)
        }
    };
    let want = if ok { visible(&known, &f) } else { None };
    let got = columns(&SelectStatement { common, expr: last, order_by: Vec::new(), limit: None }, &w.context());
    match (got, want) {
        (Ok(v), Some(c)) => {
            cover(1);
            check(v.len() == c.len(), 31);
            for (x, y) in v.iter().zip(&c) {
                check(same_name(x.0.as_str(), &y.0), 32);
                check(index(x.1) == y.1 && x.2 == y.2, 33);
            }
        }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 34),
        (Err(_), Some(_)) => check(false, 35),
    }
}
/// Three or four tables in one FROM clause, listed and joined in every way, with a reference, all columns or those of one table.
pub fn crowd() {
    let w = World::new();
    const T: [&[&str]; 4] = [&["a"], &["b"], &["x"], &["other", "a"]];
    const P: [&str; 4] = ["p", "q", "r", "s"];
    let count = if config() < 3 { 3 } else { 4 };
    let which: Vec<usize> = if count == 4 { let k = pickz(4); (0..4).map(|i| (i + k) % 4).collect() } else { (0..3).map(|_| pickz(4)).collect() };
    // who is optional, by shape and kinds of joins
    let mut null = vec![false; count];
    let mut ops: Vec<JoinOperator> = Vec::new();
    let mut kinds = Vec::new();
    for _ in 0..2 {
        let k = if config() == 0 { 0 } else { pickz(4) };
        kinds.push(((k & 2) != 0, (k & 1) != 0));
        ops.push(match k { 0 => JoinOperator::Join(JoinType::Inner), 1 => JoinOperator::Join(JoinType::Left), 2 => JoinOperator::Natural(JoinType::Right), _ => JoinOperator::Join(JoinType::Full) });
    }
    let mut t: Vec<Box<TableExpression>> = (0..count).map(|i| named(T[which[i]], Some(P[i]))).collect();
    let (o2, o1) = (ops.pop().unwrap(), ops.pop().unwrap());
    let from = match config() {
        0 => t,
        1 => {
            // (p o1 q) o2 r
            let r = t.pop().unwrap(); let q = t.pop().unwrap(); let p = t.pop().unwrap();
            null[0] = kinds[0].0 | kinds[1].0; null[1] = kinds[0].1 | kinds[1].0; null[2] = kinds[1].1;
            vec![joined(joined(p, q, o1), r, o2)]
        }
        2 => {
            // p o2 (q o1 r)
            let r = t.pop().unwrap(); let q = t.pop().unwrap(); let p = t.pop().unwrap();
            null[0] = kinds[1].0; null[1] = kinds[1].1 | kinds[0].0; null[2] = kinds[1].1 | kinds[0].1;
            vec![joined(p, joined(q, r, o1), o2)]
        }
        3 => {
            // p o1 q, r o2 s
            let s = t.pop().unwrap(); let r = t.pop().unwrap(); let q = t.pop().unwrap(); let p = t.pop().unwrap();
            null[0] = kinds[0].0; null[1] = kinds[0].1; null[2] = kinds[1].0; null[3] = kinds[1].1;
            vec![joined(p, q, o1), joined(r, s, o2)]
        }
        _ => {
            // p, q o1 r, s
            let s = t.pop().unwrap(); let r = t.pop().unwrap(); let q = t.pop().unwrap(); let p = t.pop().unwrap();
            null[1] = kinds[0].0; null[2] = kinds[0].1;
            vec![p, joined(q, r, o1), s]
        }
    };
    let rels: Vec<Rel> = (0..count).map(|i| (Some(String::from(P[i])), w.find(T[which[i]]).unwrap().iter().map(|c| (c.0.clone(), c.1, c.2 | null[i])).collect())).collect();
    let (list, want) = match pick(4) {
        0 => (ResultColumns::All, Some(rels.iter().flat_map(|r| r.1.iter().map(|c| (Some(c.0.clone()), c.1, c.2))).collect::<Vec<_>>())),
        1 => {
            let l = letter();
            (ResultColumns::List(vec![Box::new(ResultColumn::AllFrom(n(&l)))]),
             rels.iter().find(|r| same_name(r.0.as_ref().unwrap(), &l)).map(|r| r.1.iter().map(|c| (Some(c.0.clone()), c.1, c.2)).collect()))
        }
        _ => {
            let (e, p) = reference();
            (ResultColumns::List(vec![item(e, None)]), lookup(&rels, &p).map(|c| vec![(None, c.1, c.2)]))
        }
    };
    match (columns(&select(query(list, from, None)), &w.context()), want) {
        (Ok(v), Some(w)) => { cover(1); matches(&v, &w, 81) }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 86),
        (Err(_), Some(_)) => check(false, 87),
    }
}
/// ORDER BY behind set operations and VALUES.
pub fn ordered_sets() {
    let k: Vec<Col> = ["a", "b", "c", "d"].iter().map(|c| fresh(c)).collect();
    let part = |x: &str, y: &str, as1: Option<&str>, as2: Option<&str>| query(ResultColumns::List(vec![item(ident(&[x]), as1), item(ident(&[y]), as2)]), vec![named(&["k"], None)], None);
    let (x, y) = (letter(), letter());
    let (left, right) = (part("a", "b", Some(&x), Some(&y)), part("c", "d", Some("l"), Some("m")));
    let (expr, ok) = match pick(3) {
        0 => (Box::new(SetExpression::Op { op: SetOperator::Union, left, right }), k[0].1 == k[2].1 && k[1].1 == k[3].1),
        1 => (Box::new(SetExpression::Op { op: SetOperator::Except, left, right }), k[0].1 == k[2].1 && k[1].1 == k[3].1),
        _ => (left, true),
    };
    let one_query = matches!(*expr, SetExpression::Query { .. });
    let l = letter();
    let both = same_name(&x, &y);
    let order_by = vec![Ordering { expr: ident(&[&l]), collation: None, direction: OrderingDirection::Ascending }];
    let s = SelectStatement { common: Vec::new(), expr, order_by, limit: None };
    let found = same_name(&l, &x) || (!both && same_name(&l, &y)) || (one_query && k.iter().any(|c| same_name(&l, &c.0)));
    // with two columns of one name the second has another name, which has more than one character
    let want = ok && found;
    check(columns(&s, &keep(&k)).is_ok() == want, 88);
    either(want);
}
/// A default schema that is not there.
pub fn nowhere() {
    let mut db = Database::new();
    let there = letter();
    let _ = db.create_schema(&n(&there));
    let s = db.schemata.get_mut(&n(&there)).unwrap();
    let cols = vec![fresh("c")];
    s.objects.insert(n("t"), table("t", &cols));
    let default = letter();
    let c = context(&db, n(&default));
    let qualified = pick(2) == 1;
    let q = letter();
    let from = if qualified { named(&[&q, "T"], None) } else { named(&["t"], None) };
    let want = same_name(&there, if qualified { &q } else { &default });
    let got = columns(&select(query(ResultColumns::All, vec![from], None)), &c);
    check(got.is_ok() == want, 36);
    either(want);
}

// --- C23: result columns ---
fn matches(v: &[(Name, cathlamet::sql::verif::types::DataType, bool)], want: &[(Option<String>, u8, bool)], id: u32) {
    check(v.len() == want.len(), id);
    for i in 0..v.len().min(want.len()) {
        check(index(v[i].1) == want[i].1, id + 1);
        check(v[i].2 == want[i].2, id + 2);
        let mine = v[i].0.as_str();
        let mut taken = false;
        for j in 0..i {
            check(!same_name(v[j].0.as_str(), mine), id + 3);
            if let Some(x) = &want[i].0 { taken |= same_name(v[j].0.as_str(), x) }
        }
        if let Some(x) = &want[i].0 { if !taken { check(same_name(mine, x), id + 4) } else { cover(3) } }
    }
}
/// Lists of items with and without names, and all columns of tables.
pub fn items() {
    let mk = |v: &[&str]| v.iter().map(|s| fresh(s)).collect::<Vec<Col>>();
    let (t, u) = (mk(&["x", "col", "a"]), mk(&["x1", "x"]));
    let mut db = Database::new();
    let _ = db.create_schema(&n("main"));
    let s = db.schemata.get_mut(&n("main")).unwrap();
    s.objects.insert(n("t"), table("t", &t));
    s.objects.insert(n("u"), table("u", &u));
    let mut want: Option<Vec<(Option<String>, u8, bool)>> = Some(Vec::new());
    let mut list = Vec::new();
    let all = pick(4) == 0;
    if all {
        let v = want.as_mut().unwrap();
        for c in t.iter().chain(&u) { v.push((Some(c.0.clone()), c.1, c.2)) }
    } else {
        for _ in 0..1 + pick(if thorough() { 4 } else { 3 }) {
            match pick(4) {
                0 => {
                    let l = letter();
                    list.push(Box::new(ResultColumn::AllFrom(n(&l))));
                    let c = if same_name(&l, "t") { Some(&t) } else if same_name(&l, "u") { Some(&u) } else { None };
                    match (c, want.as_mut()) { (Some(c), Some(v)) => for c in c { v.push((Some(c.0.clone()), c.1, c.2)) }, _ => want = None }
                }
                1 => {
                    list.push(item(ident(&["t", "a"]), None));
                    if let Some(v) = want.as_mut() { v.push((None, t[2].1, t[2].2)) }
                }
                2 => {
                    let mut l = String::from(["", "co", "col"][pickz(3)]);
                    l.push_str(&letter());
                    list.push(item(ident(&["u", "x"]), Some(&l)));
                    if let Some(v) = want.as_mut() { v.push((Some(l), u[1].1, u[1].2)) }
                }
                _ => {
                    list.push(item(Box::new(Expression::MakeTuple(vec![num()])), None));
                    want = None;
                }
            }
            if want.is_none() { break }
        }
    }
    let q = query(if all { ResultColumns::All } else { ResultColumns::List(list) }, vec![named(&["t"], None), named(&["u"], None)], None);
    match (columns(&select(q), &context(&db, n("main"))), want) {
        (Ok(v), Some(w)) => { cover(1); matches(&v, &w, 41) }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 46),
        (Err(_), Some(_)) => check(false, 47),
    }
}
/// A value of any type, without a table in scope.
fn value(k: &[Col], i: usize) -> E { Box::new(Expression::Select(one(ident(&[&k[i].0]), vec![named(&["k"], None)]))) }
fn keep(k: &[Col]) -> SetContext {
    let mut db = Database::new();
    let _ = db.create_schema(&n("main"));
    let s = db.schemata.get_mut(&n("main")).unwrap();
    s.objects.insert(n("k"), table("k", k));
    context(&db, n("main"))
}
fn merge(a: Vec<(u8, bool)>, b: Vec<(u8, bool)>) -> Option<Vec<(u8, bool)>> {
    if a.len() != b.len() { return None }
    let mut v = Vec::new();
    for (x, y) in a.iter().zip(&b) { if x.0 != y.0 { return None } v.push((x.0, x.1 | y.1)) }
    Some(v)
}
/// Rows of values.
pub fn values() {
    let m = if thorough() { 4 } else { 3 };
    let mut k: Vec<Col> = Vec::new();
    let mut rows = Vec::new();
    let mut want: Option<Vec<(u8, bool)>> = None;
    let mut ok = true;
    for i in 0..1 + pick(3) {
        let mut row = Vec::new();
        let mut types = Vec::new();
        for _ in 0..1 + pick(m) {
            let c = fresh(&format!("c{}", k.len()));
            types.push((c.1, c.2));
            k.push(c);
            row.push(value(&k, k.len() - 1));
        }
        rows.push(row);
        if i == 0 { want = Some(types) }
        else if let Some(w) = want.take() { want = merge(w, types) }
    }
    if pick(8) == 0 { let r = rows.last_mut().unwrap(); r.pop(); r.push(Box::new(Expression::MakeTuple(vec![num()]))); ok = false }
    let got = columns(&select(Box::new(SetExpression::Values(rows))), &keep(&k));
    match (got, if ok { want } else { None }) {
        (Ok(v), Some(w)) => { cover(1); matches(&v, &w.iter().map(|x| (None, x.0, x.1)).collect::<Vec<_>>(), 51) }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 56),
        (Err(_), Some(_)) => check(false, 57),
    }
}
/// Set operations on up to three queries.
pub fn operations() {
    let mut k: Vec<Col> = Vec::new();
    let mut part = |k: &mut Vec<Col>| {
        let mut items = Vec::new();
        let mut types = Vec::new();
        for i in 0..1 + pick(if thorough() { 3 } else { 2 }) {
            let c = fresh(&format!("c{}", k.len()));
            types.push((c.1, c.2));
            k.push(c);
            items.push(item(ident(&[&k[k.len() - 1].0]), Some(["p", "q", "r"][i as usize])));
        }
        (query(ResultColumns::List(items), vec![named(&["k"], None)], None), types)
    };
    let mut op = || match pick(4) { 0 => SetOperator::Union, 1 => SetOperator::UnionAll, 2 => SetOperator::Intersect, _ => SetOperator::Except };
    let (a, x) = part(&mut k);
    let (b, y) = part(&mut k);
    let (expr, want) = if pick(2) == 0 { (SetExpression::Op { op: op(), left: a, right: b }, merge(x, y)) }
    else {
        let (c, z) = part(&mut k);
        if pick(2) == 0 { (SetExpression::Op { op: op(), left: Box::new(SetExpression::Op { op: SetOperator::Union, left: a, right: b }), right: c }, merge(x, y).and_then(|w| merge(w, z))) }
        else { (SetExpression::Op { op: op(), left: a, right: Box::new(SetExpression::Op { op: SetOperator::Except, left: b, right: c }) }, merge(y, z).and_then(|w| merge(x, w))) }
    };
    match (columns(&select(Box::new(expr)), &keep(&k)), want) {
        (Ok(v), Some(w)) => { cover(1); matches(&v, &w.iter().enumerate().map(|(i, x)| (Some(String::from(["p", "q", "r"][i])), x.0, x.1)).collect::<Vec<_>>(), 61) }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 66),
        (Err(_), Some(_)) => check(false, 67),
    }
}
/// LIMIT and OFFSET.
pub fn limits() {
    let k = vec![fresh("c0"), fresh("c1")];
    let good = |c: &Col| c.1 == NUMERIC && !c.2;
    let mut ok = good(&k[0]);
    let offset_value = if pick(2) == 0 { None } else { ok &= good(&k[1]); Some(value(&k, 1)) };
    let mut s = one(num(), Vec::new());
    s.limit = Some(match pick(3) {
        0 => Limit { number_rows: value(&k, 0), offset_value },
        1 => { ok = false; Limit { number_rows: Box::new(Expression::MakeTuple(vec![num()])), offset_value } }
        _ => { ok = false; Limit { number_rows: ident(&["c0"]), offset_value } }
    });
    check(columns(&s, &keep(&k)).is_ok() == ok, 68);
    either(ok);
}

// --- C24: statements that change tables ---
const TARGETS: [&[&str]; 6] = [&["t"], &["main", "T"], &["nope"], &["other", "t"], &["k", "t"], &["main", "t", "a"]];
/// A target table; whether it exists.
fn target() -> (Vec<Name>, bool) {
    let i = if pick(3) < 2 { 0 } else { 1 + pickz(5) };
    (TARGETS[i].iter().map(|s| n(s)).collect(), i < 2)
}
fn stage(t: &[Col], k: &[Col]) -> SetContext {
    let mut db = Database::new();
    let _ = db.create_schema(&n("main"));
    let s = db.schemata.get_mut(&n("main")).unwrap();
    s.objects.insert(n("t"), table("t", t));
    s.objects.insert(n("k"), table("k", k));
    let _ = db.create_schema(&n("other"));
    context(&db, n("main"))
}
fn valid(s: Statement, c: &SetContext) -> bool {
    let s = if pick(2) == 0 { SqlStatement::Statement(s) } else { SqlStatement::ExplainQueryPlan(s) };
    s.validate_type(c).is_ok()
}
const COLS: [&str; 4] = ["a", "b", "c", "d"];
pub fn insert() {
    let m = if thorough() { 4 } else { 3 };
    let t: Vec<Col> = (0..pickz(m) + 1).map(|i| fresh(COLS[i])).collect();
    let given = 1 + pickz(m);
    let k: Vec<Col> = (0..given).map(|i| fresh(["p", "q", "r", "s"][i])).collect();
    let (table_name, mut ok) = target();
    let mut types: Vec<(u8, bool)> = k.iter().map(|c| (c.1, c.2)).collect();
    let source = match pick(3) {
        0 => query(ResultColumns::All, vec![named(&["k"], None)], None),
        1 => Box::new(SetExpression::Values(vec![(0..given).map(|i| value(&k, i)).collect()])),
        _ => {
            // the last row has a number in place of the first value
            let mut rows: Vec<Vec<E>> = (0..2).map(|_| (0..given).map(|i| value(&k, i)).collect()).collect();
            rows[1][0] = num();
            if types[0].0 != NUMERIC { ok = false }
            types[0].1 |= false;
            Box::new(SetExpression::Values(rows))
        }
    };
    let mut assigned = vec![false; t.len()];
    let columns = if pick(3) == 0 {
        if given > t.len() { ok = false }
        for i in 0..given.min(t.len()) { assigned[i] = true; if types[i].0 != t[i].1 || (types[i].1 && !t[i].2) { ok = false } }
        None
    } else {
        let count = match pick(3) { 0 => given.max(2) - 1, 1 => given, _ => if given < m { given } else { given - 1 } };
        let names: Vec<String> = (0..count).map(|_| letter()).collect();
        if count != given { ok = false }
        for (i, x) in names.iter().enumerate() {
            if !ok { break }
            match t.iter().position(|c| same_name(&c.0, x)) {
                None => ok = false,
                Some(j) => { if assigned[j] || types[i].0 != t[j].1 || (types[i].1 && !t[j].2) { ok = false } assigned[j] = true }
            }
        }
        Some(names.iter().map(|s| n(s)).collect())
    };
    for i in 0..t.len() { if !assigned[i] && !t[i].2 { ok = false } }
    let got = valid(Statement::Insert(InsertStatement { table_name, columns, source }), &stage(&t, &k));
    check(got == ok, 71);
    either(ok);
}
/// A condition; whether it is one over `t`.
fn condition(t: &[Col]) -> (Option<E>, bool) {
    match pick(4) {
        0 => (None, true),
        1 => { let l = letter(); (Some(ident(&[&l])), matches!(t.iter().find(|c| same_name(&c.0, &l)), Some(c) if c.1 == LOGICAL)) }
        2 => { let l = letter(); let ok = same_name(&l, "t"); (Some(Box::new(Expression::Unary { op: UnaryOperator::IsNull, expr: ident(&[&l, "a"]) })), ok) }
        _ => (Some(Box::new(Expression::MakeTuple(vec![yes()]))), false),
    }
}
pub fn update() {
    let m = if thorough() { 3 } else { 2 };
    let t: Vec<Col> = (0..m).map(|i| fresh(COLS[i])).collect();
    let k = vec![fresh("p"), fresh("q")];
    let (table_name, mut ok) = target();
    let mut assignments = Vec::new();
    let mut assigned = vec![false; t.len()];
    for i in 0..1 + pickz(2) {
        let names: Vec<String> = (0..1 + pick(2)).map(|_| letter()).collect();
        let (expr, typ): (E, Option<(u8, bool)>) = match pick(3) {
            0 => (value(&k, i), Some((k[i].1, k[i].2))),
            1 => { let l = letter(); (ident(&[&l]), t.iter().find(|c| same_name(&c.0, &l)).map(|c| (c.1, c.2))) }
            _ => (Box::new(Expression::MakeTuple(vec![num()])), None),
        };
        if ok {
            match typ {
                None => ok = false,
                Some((ty, null)) => for x in &names {
                    if !ok { break }
                    match t.iter().position(|c| same_name(&c.0, x)) {
                        None => ok = false,
                        Some(j) => { if assigned[j] || ty != t[j].1 || (null && !t[j].2) { ok = false } assigned[j] = true }
                    }
                },
            }
        }
        assignments.push(Assignment { columns: names.iter().map(|s| n(s)).collect(), expr });
        if !ok { break }
    }
    let (where_expr, good) = condition(&t);
    let want = ok && good;
    let got = valid(Statement::Update(UpdateStatement { table_name, assignments, where_expr }), &stage(&t, &k));
    check(got == want, 72);
    either(want);
}
pub fn delete() {
    let t = vec![fresh("a"), fresh("b")];
    let (table_name, ok) = target();
    let (where_expr, good) = condition(&t);
    let got = valid(Statement::Delete(DeleteStatement { table_name, where_expr }), &stage(&t, &[]));
    check(got == (ok && good), 73);
    either(ok && good);
}
/// DESCRIBE and SELECT as statements.
pub fn describe() {
    let t = vec![fresh("a")];
    let c = stage(&t, &[]);
    let (s, o) = (letter(), letter());
    let qualified = pick(2) == 1;
    let d = DescribeStatement::new(if qualified { Some(n(&s)) } else { None }, n(&o));
    let ok = !qualified && (same_name(&o, "t") || same_name(&o, "k"));
    check(SqlStatement::Describe(d).validate_type(&c).is_ok() == ok, 74);
    let l = letter();
    check(valid(Statement::Select(one(ident(&[&l]), vec![named(&["t"], None)])), &c) == same_name(&l, "a"), 75);
    either(ok);
}

// --- long lists ---
fn long() -> usize { [5, 9, 17, 33][pickz(if thorough() { 4 } else { 3 })] }
/// A place in a list of `k`.
fn place(k: usize) -> usize { [0, 1, k / 2, k - 2, k - 1][pickz(5)] }
fn spot(k: usize) -> usize { [0, k / 2, k - 1][pickz(3)] }
fn plain(name: &str, k: usize, t: u8) -> Vec<Col> { (0..k).map(|i| (format!("{}{}", name, i), t, false)).collect() }
/// Operators with many operands, all alike but one.
pub fn wide_expression() {
    let k = long();
    let d = place(k);
    let form = pick(8);
    let base = match form { 3 => LOGICAL, 5 => [NUMERIC, VARCHAR, LOGICAL][pickz(3)], _ => [NUMERIC, VARCHAR, LOGICAL, 4][pickz(4)] };
    let mut cols = plain("c", k, base);
    cols[d] = fresh(&cols[d].0.clone());
    let x = fresh("x");
    let (odd, null) = (cols[d].1, cols[d].2);
    let same = odd == base;
    let all: Vec<String> = cols.iter().map(|c| c.0.clone()).collect();
    cols.push(x.clone());
    cols.push((String::from("b"), base, false));
    cols.push((String::from("l"), LOGICAL, false));
    let id = |i: usize| ident(&[&all[i]]);
    let (e, want): (E, Option<(u8, bool)>) = match form {
        0 => {
            let set = SetSpecification::List((0..k).map(|i| id(i)).collect());
            (Box::new(Expression::In { expr: ident(&["x"]), set }), if same && x.1 == base { Some((LOGICAL, null | x.2)) } else { None })
        }
        1 => {
            // the results
            let els = pick(2) == 1;
            let when_part = (0..k).map(|i| WhenClause { guard: ident(&["l"]), body: id(i) }).collect();
            (Box::new(Expression::Case { expr: None, when_part, else_part: if els { Some(ident(&["x"])) } else { None } }),
             if same && (!els || x.1 == base) { Some((base, !els | null | x.2)) } else { None })
        }
        2 => {
            // what is compared with
            let when_part = (0..k).map(|i| WhenClause { guard: id(i), body: num() }).collect();
            (Box::new(Expression::Case { expr: Some(ident(&["b"])), when_part, else_part: Some(num()) }), if same { Some((NUMERIC, false)) } else { None })
        }
        3 => {
            let when_part = (0..k).map(|i| WhenClause { guard: id(i), body: num() }).collect();
            (Box::new(Expression::Case { expr: None, when_part, else_part: Some(num()) }), if same { Some((NUMERIC, false)) } else { None })
        }
        4 => {
            let flip = pick(2) == 1;
            let a = Box::new(Expression::MakeTuple((0..k).map(|i| id(i)).collect()));
            let b = Box::new(Expression::MakeTuple((0..k - if pick(4) == 0 { 1 } else { 0 }).map(|_| ident(&["b"])).collect()));
            let short = match &*b { Expression::MakeTuple(v) => v.len() < k, _ => false };
            let (left, right) = if flip { (b, a) } else { (a, b) };
            (Box::new(Expression::Comparison { op: [ComparisonOperator::Equal, ComparisonOperator::NotEqual].into_iter().nth(pickz(2)).unwrap(), left, right }),
             if same && !short { Some((LOGICAL, null)) } else { None })
        }
        5 | 6 => {
            // a chain, grouped to the left or to the right
            let op = || match base { NUMERIC => BinaryOperator::Add, VARCHAR => BinaryOperator::Concat, _ => BinaryOperator::And };
            let e = if pick(2) == 0 { let mut e = id(0); for i in 1..k { e = Box::new(Expression::Binary { op: op(), left: e, right: id(i) }) } e }
                    else { let mut e = id(k - 1); for i in (0..k - 1).rev() { e = Box::new(Expression::Binary { op: op(), left: id(i), right: e }) } e };
            (e, if same && base != 4 { Some((base, null)) } else { None })
        }
        _ => {
            // deep nesting of one operand
            let mut e = id(d);
            let mut t = Some((odd, null));
            for i in 0..k {
                match (i + d) % 3 {
                    0 => { e = Box::new(Expression::Unary { op: UnaryOperator::Not, expr: e }); t = match t { Some((LOGICAL, n)) => Some((LOGICAL, n)), _ => None } }
                    1 => { e = Box::new(Expression::Select(select(query(ResultColumns::List(vec![item(e, None)]), vec![named(&["t"], None)], None)))) }
                    _ => { e = Box::new(Expression::Binary { op: BinaryOperator::Or, left: e, right: ident(&["l"]) }); t = match t { Some((LOGICAL, n)) => Some((LOGICAL, n)), _ => None } }
                }
            }
            (e, t)
        }
    };
    let mut db = Database::new();
    let _ = db.create_schema(&n("main"));
    db.schemata.get_mut(&n("main")).unwrap().objects.insert(n("t"), table("t", &cols));
    match (columns(&one(e, vec![named(&["t"], None)]), &context(&db, n("main"))), want) {
        (Ok(v), Some((t, null))) => { cover(1); check(v.len() == 1 && index(v[0].1) == t, 101); check(v[0].2 == null, 102) }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 103),
        (Err(_), Some(_)) => check(false, 104),
    }
}
/// Many tables, common table expressions, groupings and orderings.
pub fn wide_scope() {
    let k = [6, 17, 33][pickz(if thorough() { 3 } else { 2 })];
    let d = spot(k);
    // table i has the columns x<i> and y<i>; table e has a column of one arbitrary letter, and one of any name of the others
    let j = spot(k);
    let odd = vec![fresh("o"), fresh(&format!("{}{}", ["x", "Y"][pickz(2)], j))];
    let mut db = Database::new();
    let _ = db.create_schema(&n("main"));
    let s = db.schemata.get_mut(&n("main")).unwrap();
    let mut rels: Vec<(String, Vec<Col>)> = Vec::new();
    for i in 0..k {
        let c = if i == d { odd.clone() } else { vec![(format!("x{}", i), 1 + (i % 3) as u8, i % 2 == 0), (format!("y{}", i), 2 + (i % 2) as u8, false)] };
        s.objects.insert(n(&format!("t{}", i)), table(&format!("t{}", i), &c));
        rels.push((format!("t{}", i), c));
    }
    let form = pick(3);
    // one of the tables may have an alias that is the name of another
    let al = if form != 1 && pick(3) == 0 { Some(spot(k)) } else { None };
    let mut ok = match al { Some(a) => a == d, None => true };
    if let Some(a) = al { rels[d].0 = format!("t{}", a) }
    let mut common = Vec::new();
    let from: Vec<Box<TableExpression>> = match form {
        0 => (0..k).map(|i| named(&[&format!("t{}", i)], if i == d { al.map(|a| format!("T{}", a)) } else { None }.as_deref())).collect(),
        1 => {
            // through common table expressions, each of the next table
            for i in 0..k {
                common.push(CommonTableExpression { identifier: n(&format!("u{}", i)), column_names: None, query: select(query(ResultColumns::All, vec![named(&[&format!("t{}", i)], None)], None)) });
                rels[i].0 = format!("u{}", i);
            }
            if pick(3) == 0 {
                // of the same name as another one
                let a = spot(k);
                ok &= a == d;
                common[d].identifier = n(&format!("U{}", a));
            }
            (0..k).map(|i| named(&[&format!("u{}", i)], None)).collect()
        }
        _ => {
            let mut t = named(&["t0"], if d == 0 { al.map(|a| format!("T{}", a)) } else { None }.as_deref());
            for i in 1..k { t = joined(t, named(&[&format!("t{}", i)], if i == d { al.map(|a| format!("T{}", a)) } else { None }.as_deref()), JoinOperator::Join(JoinType::Inner)) }
            vec![t]
        }
    };
    // a reference to a column of the odd table or of another, qualified or not
    let q = spot(k);
    let path: Vec<String> = match pick(4) {
        0 => vec![format!("X{}", q)],
        1 => vec![format!("y{}", q)],
        2 => vec![rels[q].0.clone(), format!("x{}", j)],
        _ => vec![rels[d].0.clone(), String::from("O")],
    };
    let scope: Vec<Rel> = rels.iter().map(|r| (Some(r.0.clone()), r.1.clone())).collect();
    let found = if ok { lookup(&scope, &path) } else { None };
    let e = || Box::new(Expression::QualifiedIdentifier(path.iter().map(|s| n(s)).collect()));
    let c = context(&db, n("main"));
    match pick(3) {
        0 => {
            let s = SelectStatement { common, expr: query(ResultColumns::List(vec![item(e(), None)]), from, None), order_by: Vec::new(), limit: None };
            match (columns(&s, &c), found) {
                (Ok(v), Some(f)) => { cover(1); check(v.len() == 1 && index(v[0].1) == f.1 && v[0].2 == f.2, 111) }
                (Err(_), None) => cover(2),
                (Ok(_), None) => check(false, 112),
                (Err(_), Some(_)) => check(false, 113),
            }
        }
        1 => {
            let groupings = (0..k).map(|i| if i == j { e() } else { num() }).collect();
            let expr = Box::new(SetExpression::Query { mode: SelectMode::All, columns: ResultColumns::List(vec![item(num(), None)]), from, where_expr: None, group_by: Some(GroupBy { groupings, having: None }) });
            check(columns(&SelectStatement { common, expr, order_by: Vec::new(), limit: None }, &c).is_ok() == found.is_some(), 114);
        }
        _ => {
            let order_by = (0..k).map(|i| Ordering { expr: if i == j { e() } else { num() }, collation: None, direction: OrderingDirection::Ascending }).collect();
            let s = SelectStatement { common, expr: query(ResultColumns::List(vec![item(num(), None)]), from, None), order_by, limit: None };
            check(columns(&s, &c).is_ok() == found.is_some(), 115);
        }
    }
}
/// Many result columns, rows and set operations.
pub fn wide_rows() {
    let k = long();
    let (d, j) = (place(k), place(k));
    let mut cols = plain("c", k, NUMERIC);
    cols[d] = fresh(&cols[d].0.clone());
    let (odd, null) = (cols[d].1, cols[d].2);
    let m = cols.clone();
    let form = pick(5);
    let (expr, want): (Box<SetExpression>, Option<Vec<(Option<String>, u8, bool)>>) = match form {
        0 => {
            // names given to all, to some or none of them, one of them twice
            let names: Vec<Option<String>> = (0..k).map(|i| if i == d { Some(format!("N{}", j)) } else { match i % 3 { 0 => None, 1 => Some(format!("n{}", i)), _ => Some(format!("col{}", i)) } }).collect();
            let list = (0..k).map(|i| item(ident(&[&m[i].0]), names[i].as_deref())).collect();
            (query(ResultColumns::List(list), vec![named(&["k"], None)], None), Some((0..k).map(|i| (names[i].clone(), m[i].1, m[i].2)).collect()))
        }
        1 => (query(ResultColumns::List(vec![Box::new(ResultColumn::AllFrom(n("K"))), Box::new(ResultColumn::AllFrom(n("k")))]), vec![named(&["k"], None)], None),
              Some(m.iter().chain(&m).map(|c| (Some(c.0.clone()), c.1, c.2)).collect())),
        2 => {
            // many rows of two values, one with another first value or of another length
            let short = pick(3) == 0;
            let rows = (0..k).map(|i| { let mut r = vec![value(&cols, if i == j { d } else if d == 0 { 1 } else { 0 }), num()]; if short && i == j { r.pop(); } r }).collect();
            (Box::new(SetExpression::Values(rows)), if !short && odd == NUMERIC { Some(vec![(None, NUMERIC, null), (None, NUMERIC, false)]) } else { None })
        }
        3 => {
            // one long row after another
            let rows = vec![(0..k).map(|_| num()).collect(), (0..k).map(|i| value(&cols, i)).collect()];
            (Box::new(SetExpression::Values(rows)), if odd == NUMERIC { Some(m.iter().map(|c| (None, NUMERIC, c.2)).collect()) } else { None })
        }
        _ => {
            let part = |i: usize| query(ResultColumns::List(vec![item(ident(&[&m[if i == j { d } else if d == 0 { 1 } else { 0 }].0]), Some("r"))]), vec![named(&["k"], None)], None);
            let op = |i: usize| match i % 4 { 0 => SetOperator::Union, 1 => SetOperator::UnionAll, 2 => SetOperator::Intersect, _ => SetOperator::Except };
            let e = if pick(2) == 0 { let mut e = part(0); for i in 1..k { e = Box::new(SetExpression::Op { op: op(i), left: e, right: part(i) }) } e }
                    else { let mut e = part(k - 1); for i in (0..k - 1).rev() { e = Box::new(SetExpression::Op { op: op(i), left: part(i), right: e }) } e };
            (e, if odd == NUMERIC { Some(vec![(Some(String::from("r")), NUMERIC, null)]) } else { None })
        }
    };
    match (columns(&select(expr), &keep(&cols)), want) {
        (Ok(v), Some(w)) => { cover(1); matches(&v, &w, 121) }
        (Err(_), None) => cover(2),
        (Ok(_), None) => check(false, 126),
        (Err(_), Some(_)) => check(false, 127),
    }
}
/// Statements on wide tables.
pub fn wide_table() {
    let k = [6, 17, 33][pickz(if thorough() { 3 } else { 2 })];
    let (d, j) = (spot(k), spot(k));
    let mut t: Vec<Col> = (0..k).map(|i| (format!("c{}", i), 1 + (i % 3) as u8, i % 4 == 3)).collect();
    t[d] = fresh(&t[d].0.clone());
    // the values are alike but for one
    let mut v: Vec<Col> = t.iter().map(|c| (format!("v{}", &c.0[1..]), c.1, false)).collect();
    v[j] = fresh(&v[j].0.clone());
    let fits = |i: usize, c: usize| v[i].1 == t[c].1 && (!v[i].2 || t[c].2);
    let mut ok = true;
    let statement = match pick(3) {
        0 => {
            // by position, one less or by an explicit list
            let given = k - pickz(2);
            for i in 0..k { ok &= if i < given { fits(i, i) } else { t[i].2 } }
            let source = query(ResultColumns::List((0..given).map(|i| item(ident(&[&v[i].0]), None)).collect()), vec![named(&["k"], None)], None);
            Statement::Insert(InsertStatement { table_name: vec![n("t")], columns: None, source })
        }
        1 => {
            // a list in another order, one left out, or one twice or unknown
            let turn = [0, 1, k / 2][pickz(3)];
            let how = pick(4);
            let mut order: Vec<usize> = (0..k).map(|i| (i + turn) % k).collect();
            let mut names: Vec<String> = order.iter().map(|c| t[*c].0.to_uppercase()).collect();
            let at = spot(k);
            match how {
                0 => (),
                1 => { let c = order.remove(at); names.remove(at); ok &= t[c].2 }
                2 => { let other = (at + 1 + spot(k - 1)) % k; if other != at { ok = false } names[at] = names[other].clone() }
                _ => { names[at] = String::from("c"); ok = false }
            }
            if ok { for c in &order { ok &= fits(*c, *c) } }
            let source = query(ResultColumns::List(order.iter().map(|c| item(ident(&[&v[*c].0]), None)).collect()), vec![named(&["k"], None)], None);
            Statement::Insert(InsertStatement { table_name: vec![n("t")], columns: Some(names.iter().map(|s| n(s)).collect()), source })
        }
        _ => {
            let how = pick(3);
            let at = spot(k);
            let mut names: Vec<Vec<String>> = t.iter().map(|c| vec![c.0.clone()]).collect();
            for i in 0..k { ok &= fits(i, i) }
            match how {
                0 => (),
                1 => { let other = names[(at + 1) % k][0].to_uppercase(); names[at].push(other); ok = false }
                _ => { names[at] = vec![String::from("c99")]; ok = false }
            }
            let assignments = (0..k).map(|i| Assignment { columns: names[i].iter().map(|s| n(s)).collect(), expr: value(&v, i) }).collect();
            Statement::Update(UpdateStatement { table_name: vec![n("t")], assignments, where_expr: Some(Box::new(Expression::Unary { op: UnaryOperator::IsNull, expr: ident(&[&t[at].0]) })) })
        }
    };
    let got = valid(statement, &stage(&t, &v));
    check(got == ok, 131);
    either(ok);
}
