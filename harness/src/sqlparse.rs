//! C25: the SQL grammar.
use crate::rt::*;
use cathlamet::sql::verif::ast::*;
use cathlamet::sql::verif::parser::SqlStatementParser;
use cathlamet::sql::verif::Name;

const WORDS: [&str; 65] = ["ALL", "AND", "AS", "ASC", "ATTACH", "BETWEEN", "BY", "CASE", "COLLATE", "CROSS", "CURRENT_DATE", "CURRENT_TIME", "CURRENT_TIMESTAMP",
    "DATE", "DELETE", "DESC", "DESCRIBE", "DISTINCT", "ELSE", "END", "EXPLAIN", "EXCEPT", "FILE", "FROM", "FULL", "GROUP", "HAVING", "IN", "INNER", "INSERT",
    "INTERSECT", "INTO", "IS", "ISNULL", "JOIN", "LEFT", "LIMIT", "LIKE", "NATURAL", "NOT", "NOTNULL", "NULL", "OFFSET", "ON", "OR", "ORDER", "OUTER", "PLAN",
    "QUERY", "RIGHT", "SELECT", "SET", "TABLE", "THEN", "TIME", "TIMESTAMP", "UPDATE", "UNION", "USING", "VALUES", "WHEN", "WHERE", "WITH", "", ""];

// --- the tree of the parser, written out ---
type Out = Vec<u8>;
fn put(o: &mut Out, s: &str) { o.extend_from_slice(s.as_bytes()) }
fn name(o: &mut Out, n: &Name) { o.push(b'$'); put(o, n.as_str()) }
fn names(o: &mut Out, v: &[Name]) { o.push(b'['); for n in v { name(o, n) } o.push(b']') }
fn opt_name(o: &mut Out, n: &Option<Name>) { match n { Some(n) => name(o, n), None => o.push(b'~') } }
fn opt_names(o: &mut Out, n: &Option<Vec<Name>>) { match n { Some(n) => names(o, n), None => o.push(b'~') } }
fn opt(o: &mut Out, e: &Option<Box<Expression>>) { match e { Some(e) => expr(o, e), None => o.push(b'~') } }
fn list(o: &mut Out, v: &[Box<Expression>]) { o.push(b'['); for e in v { expr(o, e) } o.push(b']') }
fn node2(o: &mut Out, op: &str, l: &Expression, r: &Expression) { o.push(b'('); put(o, op); expr(o, l); expr(o, r); o.push(b')') }
fn expr(o: &mut Out, e: &Expression) {
    match e {
        Expression::Literal(l) => match l {
            Literal::StringLiteral(s) => { put(o, "'"); put(o, s); put(o, "'") }
            Literal::NumericLiteral(s) => { put(o, "#"); put(o, s); put(o, "#") }
            Literal::Null => put(o, "null"),
            Literal::CurrentTime => put(o, "now-t"),
            Literal::CurrentDate => put(o, "now-d"),
            Literal::CurrentTimestamp => put(o, "now-ts"),
            Literal::DateLiteral(s) => { put(o, "d'"); put(o, s); put(o, "'") }
            Literal::TimeLiteral(s) => { put(o, "t'"); put(o, s); put(o, "'") }
            Literal::TimestampLiteral(s) => { put(o, "ts'"); put(o, s); put(o, "'") }
        },
        Expression::QualifiedIdentifier(v) => names(o, v),
        Expression::MakeTuple(v) => { put(o, "tuple"); list(o, v) }
        Expression::Select(s) => { put(o, "("); select(o, s); put(o, ")") }
        Expression::Unary { op, expr: e } => {
            put(o, match op { UnaryOperator::Negate => "(neg", UnaryOperator::Not => "(not", UnaryOperator::IsNull => "(isnull" });
            expr(o, e);
            put(o, ")")
        }
        Expression::Binary { op, left, right } => node2(o, match op {
            BinaryOperator::Multiply => "*", BinaryOperator::Divide => "/", BinaryOperator::Add => "+", BinaryOperator::Subtract => "-", BinaryOperator::Concat => "||",
            BinaryOperator::And => "and", BinaryOperator::Or => "or" }, left, right),
        Expression::Comparison { op, left, right } => node2(o, match op {
            ComparisonOperator::Equal => "=", ComparisonOperator::NotEqual => "!=", ComparisonOperator::LessThan => "<", ComparisonOperator::LessEqual => "<=",
            ComparisonOperator::GreaterThan => ">", ComparisonOperator::GreaterEqual => ">=", ComparisonOperator::Like => "like" }, left, right),
        Expression::In { expr: e, set } => {
            put(o, "(in");
            expr(o, e);
            match set { SetSpecification::Select(s) => select(o, s), SetSpecification::List(v) => list(o, v), SetSpecification::Name(v) => { put(o, "@"); names(o, v) } }
            put(o, ")")
        }
        Expression::Between { expr: e, lower, upper } => { put(o, "(between"); expr(o, e); expr(o, lower); expr(o, upper); put(o, ")") }
        Expression::Case { expr: e, when_part, else_part } => {
            put(o, "(case");
            opt(o, e);
            for w in when_part { put(o, "when"); expr(o, &w.guard); expr(o, &w.body) }
            put(o, "else");
            opt(o, else_part);
            put(o, ")")
        }
    }
}
fn select(o: &mut Out, s: &SelectStatement) {
    put(o, "{with");
    for c in &s.common { name(o, &c.identifier); opt_names(o, &c.column_names); select(o, &c.query) }
    put(o, ";");
    set(o, &s.expr);
    put(o, ";");
    for t in &s.order_by { expr(o, &t.expr); opt_name(o, &t.collation); put(o, match t.direction { OrderingDirection::Ascending => "up", OrderingDirection::Descending => "down" }) }
    put(o, ";");
    if let Some(l) = &s.limit { expr(o, &l.number_rows); opt(o, &l.offset_value) }
    put(o, "}")
}
fn set(o: &mut Out, s: &SetExpression) {
    match s {
        SetExpression::Values(rows) => { put(o, "values"); for r in rows { list(o, r) } put(o, ".") }
        SetExpression::Op { op, left, right } => {
            put(o, match op { SetOperator::Intersect => "<intersect", SetOperator::Except => "<except", SetOperator::Union => "<union", SetOperator::UnionAll => "<unionall" });
            set(o, left);
            set(o, right);
            put(o, ">")
        }
        SetExpression::Query { mode, columns, from, where_expr, group_by } => {
            put(o, match mode { SelectMode::All => "all", SelectMode::Distinct => "distinct" });
            match columns {
                ResultColumns::All => put(o, "*"),
                ResultColumns::List(v) => for c in v {
                    match &**c {
                        ResultColumn::AllFrom(n) => { name(o, n); put(o, ".*") }
                        ResultColumn::Expr { expr: e, rename } => { expr(o, e); opt_name(o, rename) }
                    }
                }
            }
            put(o, "from");
            for t in from { relation(o, t) }
            put(o, "where");
            opt(o, where_expr);
            put(o, "group");
            if let Some(g) = group_by { list(o, &g.groupings); opt(o, &g.having) }
        }
    }
}
fn relation(o: &mut Out, t: &TableExpression) {
    match t {
        TableExpression::Named { name, alias } => { put(o, "|"); names(o, name); opt_name(o, alias) }
        TableExpression::Select { select: s, alias } => { put(o, "|"); select(o, s); opt_name(o, alias) }
        TableExpression::Join { left, right, op, constraint } => {
            let t = |t: &JoinType| match t { JoinType::Inner => "i", JoinType::Left => "l", JoinType::Right => "r", JoinType::Full => "f" };
            put(o, "<join");
            match op { JoinOperator::Join(x) => put(o, t(x)), JoinOperator::Natural(x) => { put(o, "n"); put(o, t(x)) } JoinOperator::Cross => put(o, "c") }
            relation(o, left);
            relation(o, right);
            match constraint { JoinConstraint::Expr(e) => { put(o, "on"); expr(o, e) } JoinConstraint::Columns(v) => { put(o, "using"); names(o, v) } }
            put(o, ">")
        }
    }
}
fn statement(o: &mut Out, s: &Statement) {
    match s {
        Statement::Select(s) => select(o, s),
        Statement::Insert(s) => { put(o, "insert"); names(o, &s.table_name); opt_names(o, &s.columns); set(o, &s.source) }
        Statement::Delete(s) => { put(o, "delete"); names(o, &s.table_name); opt(o, &s.where_expr) }
        Statement::Update(s) => {
            put(o, "update");
            names(o, &s.table_name);
            for a in &s.assignments { names(o, &a.columns); expr(o, &a.expr) }
            put(o, "where");
            opt(o, &s.where_expr)
        }
    }
}
fn shown(s: &SqlStatement) -> Out {
    let mut o = Vec::new();
    match s {
        SqlStatement::Statement(s) => statement(&mut o, s),
        SqlStatement::ExplainQueryPlan(s) => { put(&mut o, "explain"); statement(&mut o, s) }
        SqlStatement::Attach(a) => { put(&mut o, "attach'"); put(&mut o, &a.path); put(&mut o, "'"); names(&mut o, &a.qualified_name) }
        SqlStatement::Describe(d) => { put(&mut o, "describe"); names(&mut o, &d.qualified_name) }
    }
    o
}

// --- the language, written down independently of the grammar ---
#[derive(Copy, Clone, PartialEq)]
enum Tok { Key(usize), Id, Num, Str, P(u8), Ne, Le, Ge, Cat, End }
struct Reader<'a> { text: &'a [u8], at: usize, start: usize, tok: Tok }
fn space(c: u8) -> bool { (c == b' ') | (c.wrapping_sub(9) <= 4) }
fn initial(c: u8) -> bool { ((c | 32).wrapping_sub(b'a') <= 25) | (c == b'_') }
fn digit(c: u8) -> bool { c >= b'0' && c <= b'9' }
fn hex(c: u8) -> bool { digit(c) | ((c | 32).wrapping_sub(b'a') <= 5) }
fn upper(c: u8) -> u8 { c & !((c.wrapping_sub(b'a') <= 25) as u8 * 32) }
/// The number of a keyword.
fn key(w: &[u8]) -> Option<usize> {
    for i in 0..WORDS.len() {
        let k = WORDS[i].as_bytes();
        if k.len() != w.len() { continue }
        let mut j = 0;
        while j < k.len() && upper(w[j]) == k[j] { j += 1 }
        if j == k.len() { return Some(i) }
    }
    None
}
const fn k(w: &str) -> Tok {
    let mut i = 0;
    while i < 63 {
        let (a, b) = (WORDS[i].as_bytes(), w.as_bytes());
        if a.len() == b.len() {
            let mut j = 0;
            while j < a.len() && a[j] == b[j] { j += 1 }
            if j == a.len() { return Tok::Key(i) }
        }
        i += 1;
    }
    panic!()
}
type R = Option<Out>;
fn cat(parts: &[&[u8]]) -> Out { let mut o = Vec::new(); for p in parts { o.extend_from_slice(p) } o }
impl<'a> Reader<'a> {
    fn peek(&self, i: usize) -> u8 { if self.at + i < self.text.len() { self.text[self.at + i] } else { 0 } }
    fn word(&self) -> &'a [u8] { &self.text[self.start..self.at] }
    fn digits(&mut self) -> usize { let s = self.at; while self.at < self.text.len() && digit(self.text[self.at]) { self.at += 1 } self.at - s }
    fn exponent(&mut self) {
        let s = self.at;
        if self.peek(0) != b'E' { return }
        self.at += 1;
        if self.peek(0) == b'+' || self.peek(0) == b'-' { self.at += 1 }
        if self.digits() == 0 { self.at = s }
    }
    /// The number of bytes of the white space here.
    fn white(&self) -> usize {
        let (a, b, c) = (self.peek(0), self.peek(1), self.peek(2));
        if a < 0x80 { return if self.at < self.text.len() && space(a) { 1 } else { 0 } }
        if a == 0xc2 { return if b == 0x85 || b == 0xa0 { 2 } else { 0 } }
        let u = (a as u32 & 15) << 12 | (b as u32 & 63) << 6 | c as u32 & 63;
        if a & 0xf0 == 0xe0 && (u == 0x1680 || (u >= 0x2000 && u <= 0x200a) || u == 0x2028 || u == 0x2029 || u == 0x202f || u == 0x205f || u == 0x3000) { 3 } else { 0 }
    }
    fn next(&mut self) -> Option<()> {
        loop { let n = self.white(); if n == 0 { break } self.at += n }
        self.start = self.at;
        if self.at == self.text.len() { self.tok = Tok::End; return Some(()) }
        let c = self.text[self.at];
        if initial(c) {
            self.at += 1;
            while self.at < self.text.len() && (initial(self.text[self.at]) || digit(self.text[self.at])) { self.at += 1 }
            self.tok = match key(self.word()) { Some(i) => Tok::Key(i), None => Tok::Id };
            return Some(())
        }
        if digit(c) {
            if c == b'0' && self.peek(1) == b'x' && hex(self.peek(2)) { self.at += 2; while self.at < self.text.len() && hex(self.text[self.at]) { self.at += 1 } }
            else {
                self.digits();
                if self.peek(0) == b'.' { self.at += 1; self.digits(); }
                self.exponent();
            }
            self.tok = Tok::Num;
            return Some(())
        }
        if c == b'.' && digit(self.peek(1)) { self.at += 1; self.digits(); self.exponent(); self.tok = Tok::Num; return Some(()) }
        if c == b'\'' {
            self.at += 1;
            while self.at < self.text.len() && self.text[self.at] >= 32 && self.text[self.at] != 127 && self.text[self.at] != b'\'' { self.at += 1 }
            if self.at == self.text.len() || self.text[self.at] != b'\'' { return None }
            self.at += 1;
            self.tok = Tok::Str;
            return Some(())
        }
        self.at += 1;
        let d = if self.at < self.text.len() { self.text[self.at] } else { 0 };
        self.tok = if d == b'=' && c == b'<' { self.at += 1; Tok::Le } else if d == b'=' && c == b'>' { self.at += 1; Tok::Ge }
            else if d == b'=' && c == b'!' { self.at += 1; Tok::Ne } else if c == b'|' && d == b'|' { self.at += 1; Tok::Cat }
            else {
                let mut t = None;
                for p in [b',', b'.', b'(', b')', b'*', b'/', b'+', b'-', b'=', b'<', b'>'] { if c == p { t = Some(p) } }
                Tok::P(t?)
            };
        Some(())
    }
    fn is(&self, t: Tok) -> bool { self.tok == t }
    fn eat(&mut self, t: Tok) -> Option<()> { if self.tok == t { self.next() } else { None } }
    /// Takes the token if it is there.
    fn may(&mut self, t: Tok) -> Option<bool> { if self.tok == t { self.next()?; Some(true) } else { Some(false) } }
    fn id(&mut self) -> R {
        if self.tok != Tok::Id { return None }
        let o = cat(&[b"$", self.word()]);
        self.next()?;
        Some(o)
    }
    fn ids(&mut self) -> R {
        let mut o = cat(&[b"["]);
        loop { o.extend(self.id()?); if !self.may(Tok::P(b','))? { break } }
        o.push(b']');
        Some(o)
    }
    /// Up to three identifiers; `first` is what was read of it.
    fn path(&mut self, first: Option<Out>) -> R {
        let mut o = cat(&[b"["]);
        o.extend(match first { Some(f) => f, None => self.id()? });
        let mut n = 1;
        while n < 3 && self.is(Tok::P(b'.')) { self.next()?; o.extend(self.id()?); n += 1 }
        o.push(b']');
        Some(o)
    }
    fn string(&mut self) -> R {
        if self.tok != Tok::Str { return None }
        let o = self.word().to_vec();
        self.next()?;
        Some(o)
    }
    fn query_ahead(&self) -> bool { self.is(k("SELECT")) || self.is(k("VALUES")) || self.is(k("WITH")) }
    fn exprs(&mut self) -> R {
        let mut o = cat(&[b"["]);
        loop { o.extend(self.expr()?); if !self.may(Tok::P(b','))? { break } }
        o.push(b']');
        Some(o)
    }
    fn primary(&mut self) -> R {
        let t = self.tok;
        if t == Tok::P(b'(') {
            self.next()?;
            if self.query_ahead() { let s = self.select()?; self.eat(Tok::P(b')'))?; return Some(cat(&[b"(", &s, b")"])) }
            let mut v = Vec::new();
            loop { v.push(self.expr()?); if !self.may(Tok::P(b','))? { break } }
            self.eat(Tok::P(b')'))?;
            if v.len() == 1 { return v.pop() }
            let mut o = cat(&[b"tuple["]);
            for e in v { o.extend(e) }
            o.push(b']');
            return Some(o)
        }
        if t == Tok::Id { return self.path(None) }
        if t == Tok::Num { let o = cat(&[b"#", self.word(), b"#"]); self.next()?; return Some(o) }
        if t == Tok::Str { return self.string() }
        for (w, s) in [(k("NULL"), "null"), (k("CURRENT_TIME"), "now-t"), (k("CURRENT_DATE"), "now-d"), (k("CURRENT_TIMESTAMP"), "now-ts")] {
            if t == w { self.next()?; return Some(s.as_bytes().to_vec()) }
        }
        for (w, s) in [(k("DATE"), "d"), (k("TIME"), "t"), (k("TIMESTAMP"), "ts")] {
            if t == w { self.next()?; let l = self.string()?; return Some(cat(&[s.as_bytes(), &l])) }
        }
        None
    }
    /// Precedence: 1 OR, 2 AND, 3 NOT, 4 comparison, 5 additive, 6 multiplicative, 7 sign.
    fn level(&mut self, l: u32) -> R {
        match l {
            3 => {
                if self.may(k("NOT"))? { let e = self.complex()?; return Some(cat(&[b"(not", &e, b")"])) }
                self.complex()
            }
            7 => {
                if self.may(Tok::P(b'+'))? { return self.level(7) }
                if self.may(Tok::P(b'-'))? { let e = self.level(7)?; return Some(cat(&[b"(neg", &e, b")"])) }
                self.primary()
            }
            _ => {
                let mut left = self.level(l + 1)?;
                loop {
                    let t = self.tok;
                    if l == 4 {
                        match self.test(&left)? { Some(e) => { left = e; continue } None => return Some(left) }
                    }
                    let op: &str = match l {
                        1 => if t == k("OR") { "or" } else { "" },
                        2 => if t == k("AND") { "and" } else { "" },
                        5 => match t { Tok::P(b'+') => "+", Tok::P(b'-') => "-", Tok::Cat => "||", _ => "" },
                        _ => match t { Tok::P(b'*') => "*", Tok::P(b'/') => "/", _ => "" },
                    };
                    if op.len() == 0 { return Some(left) }
                    self.next()?;
                    let right = self.level(l + 1)?;
                    left = cat(&[b"(", op.as_bytes(), &left, &right, b")"]);
                }
            }
        }
    }
    /// What can follow the left side of a comparison; Some(None) if nothing does.
    fn test(&mut self, left: &[u8]) -> Option<R> {
        for (t, s) in [(Tok::P(b'='), "="), (Tok::Ne, "!="), (Tok::P(b'<'), "<"), (Tok::P(b'>'), ">"), (Tok::Le, "<="), (Tok::Ge, ">="), (k("LIKE"), "like")] {
            if self.tok == t {
                self.next()?;
                let right = self.level(5)?;
                return Some(Some(cat(&[b"(", s.as_bytes(), left, &right, b")"])))
            }
        }
        let null = cat(&[b"(isnull", left, b")"]);
        let not = |e: Out| cat(&[b"(not", &e, b")"]);
        if self.may(k("ISNULL"))? { return Some(Some(null)) }
        if self.may(k("NOTNULL"))? { return Some(Some(not(null))) }
        if self.may(k("IS"))? {
            let n = self.may(k("NOT"))?;
            self.eat(k("NULL"))?;
            return Some(Some(if n { not(null) } else { null }))
        }
        let negated = self.may(k("NOT"))?;
        if negated && self.may(k("NULL"))? { return Some(Some(not(null))) }
        let e = if self.may(k("BETWEEN"))? {
            let l = self.level(5)?;
            self.eat(k("AND"))?;
            let u = self.level(5)?;
            cat(&[b"(between", left, &l, &u, b")"])
        } else if self.may(k("IN"))? {
            let s = if self.may(Tok::P(b'('))? {
                let s = if self.is(Tok::P(b')')) { b"[]".to_vec() } else if self.query_ahead() { self.select()? } else { self.exprs()? };
                self.eat(Tok::P(b')'))?;
                s
            } else { cat(&[b"@", &self.path(None)?]) };
            cat(&[b"(in", left, &s, b")"])
        } else if negated { return None } else { return Some(None) };
        Some(Some(if negated { not(e) } else { e }))
    }
    fn complex(&mut self) -> R {
        if !self.may(k("CASE"))? { return self.level(4) }
        let mut o = cat(&[b"(case"]);
        if self.is(k("WHEN")) { o.push(b'~') } else { o.extend(self.expr()?) }
        let mut n = 0;
        while self.may(k("WHEN"))? {
            let g = self.expr()?;
            self.eat(k("THEN"))?;
            let b = self.expr()?;
            o.extend(cat(&[b"when", &g, &b]));
            n += 1;
        }
        if n == 0 { return None }
        put(&mut o, "else");
        if self.may(k("ELSE"))? { o.extend(self.expr()?) } else { o.push(b'~') }
        self.eat(k("END"))?;
        o.push(b')');
        Some(o)
    }
    fn expr(&mut self) -> R { self.level(1) }
    fn with(&mut self) -> R {
        let mut o = Vec::new();
        if !self.may(k("WITH"))? { return Some(o) }
        loop {
            o.extend(self.id()?);
            if self.may(Tok::P(b'('))? { o.extend(self.ids()?); self.eat(Tok::P(b')'))? } else { o.push(b'~') }
            self.eat(k("AS"))?;
            self.eat(Tok::P(b'('))?;
            o.extend(self.select()?);
            self.eat(Tok::P(b')'))?;
            if !self.may(Tok::P(b','))? { return Some(o) }
        }
    }
    fn select(&mut self) -> R { let w = self.with()?; self.select_after(w) }
    fn select_after(&mut self, with: Out) -> R {
        let mut o = cat(&[b"{with", &with, b";"]);
        let mut left = self.core()?;
        loop {
            let op = if self.may(k("UNION"))? { if self.may(k("ALL"))? { "<unionall" } else { "<union" } }
                else if self.may(k("INTERSECT"))? { "<intersect" } else if self.may(k("EXCEPT"))? { "<except" } else { break };
            let right = self.core()?;
            left = cat(&[op.as_bytes(), &left, &right, b">"]);
        }
        o.extend(left);
        o.push(b';');
        if self.may(k("ORDER"))? {
            self.eat(k("BY"))?;
            loop {
                o.extend(self.expr()?);
                if self.may(k("COLLATE"))? { o.extend(self.id()?) } else { o.push(b'~') }
                if self.may(k("DESC"))? { put(&mut o, "down") } else { self.may(k("ASC"))?; put(&mut o, "up") }
                if !self.may(Tok::P(b','))? { break }
            }
        }
        o.push(b';');
        if self.may(k("LIMIT"))? {
            o.extend(self.expr()?);
            if self.may(Tok::P(b','))? || self.may(k("OFFSET"))? { o.extend(self.expr()?) } else { o.push(b'~') }
        }
        o.push(b'}');
        Some(o)
    }
    fn core(&mut self) -> R {
        if self.may(k("VALUES"))? {
            let mut o = cat(&[b"values"]);
            loop {
                self.eat(Tok::P(b'('))?;
                o.extend(self.exprs()?);
                self.eat(Tok::P(b')'))?;
                if !self.may(Tok::P(b','))? { break }
            }
            o.push(b'.');
            return Some(o)
        }
        self.eat(k("SELECT"))?;
        let mut o = cat(&[if self.may(k("DISTINCT"))? { b"distinct" } else { self.may(k("ALL"))?; b"all" as &[u8] }]);
        if self.may(Tok::P(b'*'))? { o.push(b'*') }
        else { loop { o.extend(self.item()?); if !self.may(Tok::P(b','))? { break } } }
        put(&mut o, "from");
        if self.may(k("FROM"))? { loop { o.extend(self.tables()?); if !self.may(Tok::P(b','))? { break } } }
        put(&mut o, "where");
        o.extend(self.condition()?);
        put(&mut o, "group");
        if self.may(k("GROUP"))? {
            self.eat(k("BY"))?;
            o.extend(self.exprs()?);
            if self.may(k("HAVING"))? { o.extend(self.expr()?) } else { o.push(b'~') }
        }
        Some(o)
    }
    fn condition(&mut self) -> R { if self.may(k("WHERE"))? { self.expr() } else { Some(b"~".to_vec()) } }
    fn item(&mut self) -> R {
        if self.is(Tok::Id) {
            // name . *
            let (at, start) = (self.at, self.start);
            let n = self.id()?;
            if self.is(Tok::P(b'.')) { self.next()?; if self.may(Tok::P(b'*'))? { return Some(cat(&[&n, b".*"])) } }
            self.at = at;
            self.start = start;
            self.tok = Tok::Id;
        }
        let e = self.expr()?;
        let a = self.alias()?;
        Some(cat(&[&e, &a]))
    }
    fn alias(&mut self) -> R {
        if self.may(k("AS"))? { return self.id() }
        if self.is(Tok::Id) { self.id() } else { Some(b"~".to_vec()) }
    }
    fn table(&mut self) -> R {
        if self.may(Tok::P(b'('))? {
            if self.query_ahead() {
                let s = self.select()?;
                self.eat(Tok::P(b')'))?;
                let a = self.alias()?;
                return Some(cat(&[b"|", &s, &a]))
            }
            let t = self.tables()?;
            self.eat(Tok::P(b')'))?;
            return Some(t)
        }
        let p = self.path(None)?;
        let a = self.alias()?;
        Some(cat(&[b"|", &p, &a]))
    }
    fn kind(&mut self) -> Option<Option<&'static str>> {
        for (w, s) in [(k("LEFT"), "l"), (k("RIGHT"), "r"), (k("FULL"), "f")] {
            if self.may(w)? { self.may(k("OUTER"))?; return Some(Some(s)) }
        }
        Some(if self.may(k("INNER"))? { Some("i") } else { None })
    }
    fn tables(&mut self) -> R {
        let mut left = self.table()?;
        loop {
            let op = if self.may(k("CROSS"))? { "c".to_string() }
                else if self.may(k("NATURAL"))? { format!("n{}", self.kind()?.unwrap_or("i")) }
                else { match self.kind()? { Some(s) => s.to_string(), None => if self.is(k("JOIN")) { "i".to_string() } else { return Some(left) } } };
            self.eat(k("JOIN"))?;
            let right = self.table()?;
            let c = if self.may(k("ON"))? { cat(&[b"on", &self.expr()?]) } else {
                self.eat(k("USING"))?;
                self.eat(Tok::P(b'('))?;
                let v = self.ids()?;
                self.eat(Tok::P(b')'))?;
                cat(&[b"using", &v])
            };
            left = cat(&[b"<join", op.as_bytes(), &left, &right, &c, b">"]);
        }
    }
    fn statement(&mut self) -> R {
        if self.may(k("ATTACH"))? {
            self.eat(k("FILE"))?;
            let s = self.string()?;
            self.eat(k("AS"))?;
            return Some(cat(&[b"attach", &s, &self.two()?]))
        }
        if self.may(k("DESCRIBE"))? { return Some(cat(&[b"describe", &self.two()?])) }
        let mut o = Vec::new();
        if self.may(k("EXPLAIN"))? { put(&mut o, "explain"); if self.may(k("QUERY"))? { self.eat(k("PLAN"))? } }
        let w = self.with()?;
        if self.may(k("INSERT"))? {
            self.eat(k("INTO"))?;
            put(&mut o, "insert");
            o.extend(self.path(None)?);
            if self.may(Tok::P(b'('))? { o.extend(self.ids()?); self.eat(Tok::P(b')'))? } else { o.push(b'~') }
            o.extend(self.core()?);
        } else if self.may(k("DELETE"))? {
            self.eat(k("FROM"))?;
            put(&mut o, "delete");
            o.extend(self.path(None)?);
            o.extend(self.condition()?);
        } else if self.may(k("UPDATE"))? {
            put(&mut o, "update");
            o.extend(self.path(None)?);
            self.eat(k("SET"))?;
            loop {
                o.extend(self.ids_open()?);
                self.eat(Tok::P(b'='))?;
                o.extend(self.expr()?);
                if !self.may(Tok::P(b','))? { break }
            }
            put(&mut o, "where");
            o.extend(self.condition()?);
        } else { o.extend(self.select_after(w)?) }
        Some(o)
    }
    fn ids_open(&mut self) -> R { self.ids() }
    fn two(&mut self) -> R {
        let a = self.id()?;
        let b = if self.may(Tok::P(b'.'))? { self.id()? } else { Vec::new() };
        Some(cat(&[b"[", &a, &b, b"]"]))
    }
}
fn spec(text: &[u8]) -> R {
    let mut r = Reader { text, at: 0, start: 0, tok: Tok::End };
    r.next()?;
    let x = r.statement()?;
    if r.tok == Tok::End { Some(x) } else { None }
}
fn judge(p: &SqlStatementParser, text: &[u8]) {
    let s = match std::str::from_utf8(text) { Ok(s) => s, Err(_) => return };
    let r = p.parse(s);
    match (spec(text), r) {
        (None, Err(_)) => cover(1),
        (Some(x), Ok(t)) => { check(same(&x, &shown(&t)), 1); cover(2) }
        (None, Ok(_)) => check(false, 2),
        (Some(_), Err(_)) => check(false, 3),
    }
}
/// Runs the parser on concrete texts first: its regular expressions build
/// their automata lazily, and what is built before needs no case distinction.
/// Every token is met with every class of characters behind every prefix of it
/// of up to `n` characters.
fn warm(n: usize) -> SqlStatementParser {
    let p = SqlStatementParser::new();
    let mut pre: Vec<&str> = Vec::new();
    for w in WORDS.iter().copied() {
        for i in 1..w.len() + 1 { if i <= n && !pre.contains(&&w[..i]) { pre.push(&w[..i]) } }
    }
    let mut word = String::from("SELECT a");
    for s in &pre {
        for c in "abcdefghijklmnopqrstuvwxyzEX_019".bytes() {
            let mut x = String::from(*s);
            x.push(c as char);
            if key(x.as_bytes()).is_none() { word.push(','); word.push_str(&x) }
        }
        if key(s.as_bytes()).is_none() {
            for c in ["+", "-", "*", "/", "=", "<", ">", "<=", ">=", "!=", "||", ",(", ")*", " + ", "\t/", "."] { word.push_str(s); word.push_str(c) }
            word.push_str(s);
        }
    }
    observe(p.parse(&word).is_ok() as u64);
    for s in &pre { for c in [b'!', b'|', b'\'', b';', b'"', 127, 0] { let mut x = b"SELECT ".to_vec(); x.extend_from_slice(s.as_bytes()); x.push(c); let _ = p.parse(std::str::from_utf8(&x).unwrap_or("")); } }
    for s in ["12.5E+1", "1E-2", ".5E+1", "0x1fF", "'a '", "0", "||", "!=", "<=", ">=", "+", "-", "*", "/", "(", ")", ",", ".", "="] {
        for i in 0..s.len() + 1 { for c in "abefxEX_+-*/=<>!|(),.'; \u{7f}019\"".chars() { let mut x = String::from("SELECT "); x.push_str(&s[..i]); x.push(c); let _ = p.parse(&x); } }
    }
    p
}
fn ascii() -> u8 { let c = u8s(); assume(c < 0x80); c }

// --- texts ---
/// A word, its letters in upper and lower case; other characters as they are.
fn kw(t: &mut Out, w: &str) {
    for c in w.bytes() { t.push(if initial(c) && t.len() % 2 == 0 { c | 32 } else { c }) }
}
fn ws(t: &mut Out) { let c = u8s(); assume(space(c)); t.push(c) }
/// An arbitrary name of a kind: a letter that starts no keyword, and a digit.
fn id(t: &mut Out) {
    let (c, d) = (u8s(), u8s());
    assume((c == b'z') | (c == b'Z'));
    assume(d >= b'1' && d <= b'9');
    t.push(c);
    t.push(d);
}
/// A text in which a word in capitals is that keyword in any case, `%` is an
/// arbitrary name and a blank is any white space.
fn fill(t: &mut Out, w: &str) {
    if w.len() == 0 { return }
    for (i, x) in w.split(' ').enumerate() {
        if i > 0 { ws(t) }
        if x.contains('%') { for c in x.bytes() { if c == b'%' { id(t) } else { t.push(c) } } } else { kw(t, x) }
    }
}
/// One out of several parts of a text, or none for an empty one.
fn part(t: &mut Out, ways: &[&str]) {
    let w = ways[pickz(ways.len())];
    if w.len() > 0 { ws(t); fill(t, w) }
}
const OPS: [&str; 30] = ["+ %", "- %", "* %", "/ %", "|| %", "= %", "!= %", "< %", "> %", "<= %", ">= %", "AND %", "OR %", "LIKE %", "IS NULL", "IS NOT NULL", "ISNULL", "NOTNULL",
    "NOT NULL", "BETWEEN % AND %", "NOT BETWEEN % AND %", "IN (%,%)", "NOT IN %.%", "IN ()", "IN ( SELECT % )", "NOT LIKE %", "* - %", "+ + %", "OR NOT %", "= NOT %"];
/// Every keyword.
const ALL: [&str; 12] = ["WITH z AS (SELECT z) SELECT DISTINCT z FROM z WHERE z GROUP BY z HAVING z ORDER BY z COLLATE z ASC LIMIT z OFFSET z", "SELECT ALL z UNION ALL VALUES (1) INTERSECT SELECT NULL EXCEPT SELECT z ORDER BY z DESC",
        "SELECT CASE WHEN z THEN z ELSE z END AND z OR NOT z BETWEEN z AND z", "SELECT z IS NULL AND z ISNULL AND z NOTNULL AND z IN (z) AND z LIKE z", "SELECT CURRENT_DATE, CURRENT_TIME, CURRENT_TIMESTAMP, DATE 'z', TIME 'z', TIMESTAMP 'z'",
        "SELECT * FROM z LEFT OUTER JOIN z ON z RIGHT JOIN z USING (z) FULL JOIN z ON z INNER JOIN z ON z NATURAL JOIN z ON z CROSS JOIN z ON z",
        "EXPLAIN QUERY PLAN INSERT INTO z VALUES (z)", "EXPLAIN DELETE FROM z WHERE z", "UPDATE z SET z = z", "ATTACH FILE 'z' AS z", "DESCRIBE z", "SELECT TABLE"];
fn learned(texts: &[&str]) -> SqlStatementParser {
    let p = warm(1);
    let common: Vec<String> = ALL.iter().map(|x| x.split(' ').map(|w| if w == "z" { "%" } else { w }).collect::<Vec<_>>().join(" ")).collect();
    let more = ["SELECT %.%.% , (%,%) , ( % , % ) , (%) , - % = - % || % != % , %.*,%.% FROM %.% , ( SELECT % )", "INSERT INTO %(%) SELECT %.%", "INSERT INTO % ( % ) SELECT (%+%)"];
    for w in common.iter().map(|x| x.as_str()).chain(more).chain(texts.iter().copied()) { for (i, b) in [" ", "\t", "\n", "\u{b}", "\u{c}", "\r"].iter().enumerate() {
        let x = w.replace('%', ["z1", "Z2", "z3", "z1", "Z8", "z9"][i]).replace(' ', b);
        let _ = p.parse(&x);
        let _ = p.parse(&x.to_lowercase());
    } }
    p
}
/// Every short text.
pub fn short() {
    let p = warm(if thorough() { 3 } else { 2 });
    let mut t = b"SELECT ".to_vec();
    for _ in 0..if thorough() { 3 } else { 2 } { t.push(ascii()) }
    judge(&p, &t);
}
/// One keyword of a statement with every letter in upper or lower case.
pub fn spelled() {
    let p = warm(1);
    for x in ALL { let _ = p.parse(x); let _ = p.parse(&x.to_lowercase()); }
    let text = ALL[pickz(ALL.len())];
    let parts: Vec<&str> = text.split(' ').collect();
    let which = pickz(parts.len());
    let mut t = Vec::new();
    let letters = parts[which].len();
    for (i, w) in parts.iter().enumerate() {
        if i > 0 { t.push(b' ') }
        for (j, c) in w.bytes().enumerate() {
            // long words: three letters at each end
            if i == which && initial(c) && c != b'_' && (j < 3 || j + 3 >= letters || thorough()) { let x = u8s(); assume((x == c) | (x == c ^ 32)); t.push(x) } else { t.push(c) }
        }
    }
    judge(&p, &t);
}
/// Texts of characters that numbers and strings consist of.
pub fn literals() {
    let p = warm(1);
    let mut t = b"SELECT ".to_vec();
    let n = size(if thorough() { 6 } else { 5 });
    for _ in 0..n {
        let c = u8s();
        let mut any = false;
        for x in b"05.Ex+a" { any |= c == *x }
        assume(any);
        t.push(c);
    }
    judge(&p, &t);
}
/// Chains of operators.
pub fn chains() {
    let p = learned(&["SELECT % + % - % * % / % || % = % != % < % > % <= % >= % AND % OR % LIKE % FROM z", "SELECT % IS NULL AND % IS NOT NULL OR % ISNULL AND % NOTNULL AND % NOT NULL AND NOT %",
        "SELECT % BETWEEN % AND % AND % NOT BETWEEN % AND % OR % IN (%,%) AND % NOT IN %.% OR % IN () AND % IN ( SELECT % )"]);
    let mut t = Vec::new();
    fill(&mut t, "SELECT");
    ws(&mut t);
    let group = pickz(3);
    if group == 1 { t.push(b'(') }
    let sign = ["%", "- %", "NOT %", "+ - %", "NOT NOT %"];
    fill(&mut t, sign[pickz(if thorough() { sign.len() } else { 3 })]);
    ws(&mut t);
    let (a, b) = (OPS[pickz(OPS.len())], OPS[pickz(OPS.len())]);
    if group == 2 {
        // the second operation in parentheses
        if !a.ends_with(" %") { return }
        fill(&mut t, &a[..a.len() - 1]);
        t.push(b'(');
        id(&mut t);
    } else { fill(&mut t, a) }
    if group == 1 { t.push(b')') }
    ws(&mut t);
    fill(&mut t, b);
    if group == 2 { t.push(b')') }
    if thorough() { ws(&mut t); fill(&mut t, OPS[pickz(OPS.len())]) }
    judge(&p, &t);
}
/// Every clause of a query.
pub fn queries() {
    let p = learned(&["WITH % AS ( SELECT % ), % (%,%) AS ( VALUES (%) ) SELECT DISTINCT % AS %, %.*, % % FROM %.% %, % AS % WHERE % GROUP BY %,% HAVING % ORDER BY % COLLATE % ASC, % DESC LIMIT % OFFSET %",
        "SELECT ALL * FROM ( SELECT % ) % ORDER BY % LIMIT %, %", "SELECT ALL % UNION ALL SELECT % UNION SELECT % INTERSECT SELECT % EXCEPT VALUES (%) , (%)"]);
    let mut t = Vec::new();
    fill(&mut t, ["SELECT", "WITH % AS ( SELECT % ) SELECT", "WITH % (%,%) AS ( SELECT % ) , % AS ( VALUES (%) ) SELECT"][pickz(if thorough() { 3 } else { 2 })]);
    part(&mut t, &["", "DISTINCT", "ALL"]);
    part(&mut t, &["*", "%.* , %.% %", "% AS % , %"]);
    part(&mut t, &["", "FROM %", "FROM %.% % , %.%.% AS %", "FROM ( SELECT % FROM % ) AS %"]);
    part(&mut t, &["", "WHERE %"]);
    part(&mut t, &["", "GROUP BY % , %", "GROUP BY % HAVING %"]);
    part(&mut t, &["", "ORDER BY %", "ORDER BY % DESC , % ASC", "ORDER BY % COLLATE % DESC , %"]);
    part(&mut t, &["", "LIMIT %", "LIMIT % OFFSET %", "LIMIT % , %"]);
    judge(&p, &t);
}
/// Set operations.
pub fn sets() {
    let p = learned(&["WITH % AS ( SELECT % ) SELECT ALL % UNION ALL SELECT % UNION SELECT % INTERSECT SELECT % EXCEPT VALUES (%) , (%) ORDER BY % LIMIT %", "DELETE FROM %"]);
    let mut t = Vec::new();
    fill(&mut t, "SELECT %");
    let q = ["SELECT %", "SELECT % FROM % WHERE %", "VALUES (%)", "VALUES (%,%) , (%,%)", "( SELECT % )"];
    for _ in 0..if thorough() { 3 } else { 2 } {
        part(&mut t, &["UNION", "UNION ALL", "INTERSECT", "EXCEPT", "INTERSECT ALL"]);
        part(&mut t, &q);
    }
    part(&mut t, &["", "ORDER BY % LIMIT %"]);
    judge(&p, &t);
}
/// Joins.
pub fn joins() {
    let p = learned(&["SELECT * FROM % LEFT OUTER JOIN % ON % RIGHT OUTER JOIN % ON % FULL OUTER JOIN % ON % INNER JOIN % ON % NATURAL JOIN % USING (%,%) CROSS JOIN ( SELECT % ) ON %"]);
    let mut t = Vec::new();
    fill(&mut t, "SELECT * FROM");
    let group = pickz(3);
    ws(&mut t);
    if group == 1 { t.push(b'(') }
    fill(&mut t, "%");
    let kinds = ["JOIN", "LEFT JOIN", "RIGHT OUTER JOIN", "FULL JOIN", "INNER JOIN", "NATURAL JOIN", "NATURAL LEFT OUTER JOIN", "NATURAL RIGHT JOIN", "NATURAL FULL OUTER JOIN", "NATURAL INNER JOIN", "CROSS JOIN", "INNER OUTER JOIN", ","];
    for i in 0..2 {
        part(&mut t, &kinds);
        ws(&mut t);
        if i == 0 && group == 2 { t.push(b'(') }
        let k = if thorough() { 3 } else { 2 };
        fill(&mut t, ["%", "( SELECT % ) AS %", "%.% %"][pickz(k)]);
        if i == 0 && group == 2 { continue }
        part(&mut t, &["ON %", "USING (%,%)", ""][..k]);
        if i == 0 && group == 1 { t.push(b')') }
        if i == 1 && group == 2 { fill(&mut t, ") ON %") }
    }
    judge(&p, &t);
}
/// Statements other than queries.
pub fn statements() {
    let p = learned(&["EXPLAIN QUERY PLAN WITH % AS ( SELECT % ) INSERT INTO %.% (%,%) VALUES (%) , (%)", "EXPLAIN DELETE FROM % WHERE %", "UPDATE % SET %,% = %, % = % WHERE %",
        "ATTACH FILE 'a b' AS %.%", "DESCRIBE %.%", "DESCRIBE TABLE", "SELECT % FROM %"]);
    let mut t = Vec::new();
    match pickz(3) {
        0 => {
            fill(&mut t, ["ATTACH FILE '0 .' AS", "DESCRIBE", "ATTACH FILE % AS", "DESCRIBE TABLE", "ATTACH FILE '' AS"][pickz(5)]);
            part(&mut t, &["%", "%.%", "%.%.%", ""]);
            part(&mut t, &["", "%", "WHERE %"]);
        }
        n => {
            fill(&mut t, ["", "EXPLAIN ", "EXPLAIN QUERY PLAN ", "EXPLAIN QUERY "][pickz(4)]);
            fill(&mut t, ["", "WITH % AS ( SELECT % ) ", "WITH % AS ( SELECT % ) , % (%,%) AS ( VALUES (%) ) "][pickz(3)]);
            if n == 1 {
                fill(&mut t, ["INSERT INTO", "DELETE FROM", "UPDATE", "INSERT %"][pickz(4)]);
                part(&mut t, &["%", "%.%", "%.%.%"]);
            }
            part(&mut t, &["", "(%,%)", "(%)", "SET % = %", "SET %,% = % , % = %"]);
            part(&mut t, &["", "VALUES (%)", "VALUES (%,%) , (%)", "SELECT * FROM %", "WHERE %", "SELECT % UNION SELECT %"]);
        }
    }
    judge(&p, &t);
}
/// CASE and calls of subqueries.
pub fn cases() {
    let p = learned(&["SELECT CASE % WHEN % THEN % ELSE % END + CASE WHEN % THEN % WHEN % THEN % END FROM % WHERE ( SELECT % )"]);
    let mut t = Vec::new();
    fill(&mut t, "SELECT");
    part(&mut t, &["", "NOT", "-", "("]);
    part(&mut t, &["CASE", "CASE %", "CASE ( SELECT % )"]);
    let e = ["WHEN % THEN %", "WHEN CASE % WHEN % THEN % END THEN CASE WHEN % THEN % ELSE % END", "WHEN % OR % THEN NOT %"];
    for _ in 0..2 { if bools() { part(&mut t, &e) } }
    part(&mut t, &["", "ELSE %", "ELSE CASE WHEN % THEN % END"]);
    part(&mut t, &["", "END", "END )"]);
    part(&mut t, &["", "+ %", "AND %", "AS %", "% FROM %"][..if thorough() { 5 } else { 2 }]);
    judge(&p, &t);
}
const EDIT: [&str; 12] = ["SELECT a.b, c AS d FROM e", "SELECT -1.5E+2 || 'x'", "SELECT a IS NOT NULL", "INSERT INTO a (b) VALUES (1)", "DELETE FROM a WHERE b <= c", "UPDATE a SET b = 0x1F",
    "SELECT * FROM a JOIN b ON c", "SELECT (a, b) IN (c)", "DESCRIBE a.b", "SELECT a ORDER BY b DESC LIMIT 1", "SELECT NOT a != b", "SELECT CASE WHEN a THEN b END"];
/// One arbitrary character put in, replaced, or at the end of a cut off text.
pub fn edited() {
    let w = EDIT[config()].as_bytes();
    let p = warm(1);
    // what an edited word can be an edge of is learned from the edits
    for at in 0..w.len() { for c in "az0E_ +.".bytes() { for skip in 0..2 {
        let x = cat(&[&w[..at], &[c], &w[at + skip..]]);
        let _ = p.parse(std::str::from_utf8(&x).unwrap_or(""));
    } } }
    let at = pickz(w.len() + 1);
    let skip = pickz(3);
    let mut t = w[..at].to_vec();
    t.push(ascii());
    if skip < 2 && at + skip <= w.len() { t.extend_from_slice(&w[at + skip..]) }
    judge(&p, &t);
}
/// Sequences of arbitrary tokens behind the beginning of a statement.
pub fn tokens() {
    let p = learned(&["SELECT % AS % FROM % WHERE % ORDER BY % DESC LIMIT % UNION ALL SELECT % GROUP BY % HAVING %", "SELECT % NOT IN (%) AND NULL OR % IS NULL", "SELECT CASE WHEN % THEN % ELSE % END",
        "INSERT INTO % VALUES (%)", "UPDATE % SET % = %", "DELETE FROM %", "SELECT * FROM % LEFT JOIN % ON %", "SELECT BETWEEN"]);
    let stems = ["SELECT", "SELECT %", "SELECT % FROM %", "SELECT % ORDER BY %", "UPDATE % SET %", "INSERT INTO %", "SELECT * FROM % JOIN", "SELECT ("];
    let all = ["%", "1", ",", ".", "(", ")", "*", "-", "=", "AND", "NOT", "IN", "NULL", "IS", "AS", "WHERE", "VALUES", "SELECT", "UNION", "DESC", "LIMIT", "BETWEEN", "LEFT", "ON", "CASE", "'a'"];
    let mut t = Vec::new();
    fill(&mut t, stems[pickz(stems.len())]);
    for _ in 0..if thorough() { 3 } else { 2 } { part(&mut t, &all) }
    judge(&p, &t);
}
/// A character that is not ASCII, in a string literal and elsewhere.
pub fn foreign() {
    let p = warm(1);
    let n = config();
    let mut t = b"SELECT 'a".to_vec();
    if n >= 3 { t.truncate(t.len() - 2) }
    let c = |lo: u8, hi: u8| { let c = u8s(); assume(c >= lo && c <= hi); c };
    match n % 3 {
        0 => { t.push(c(0xc2, 0xdf)); t.push(c(0x80, 0xbf)) }
        1 => { let a = c(0xe0, 0xef); t.push(a); let b = c(0x80, 0xbf); assume((a != 0xe0 || b >= 0xa0) && (a != 0xed || b < 0xa0)); t.push(b); t.push(c(0x80, 0xbf)) }
        _ => { let a = c(0xf0, 0xf4); t.push(a); let b = c(0x80, 0xbf); assume((a != 0xf0 || b >= 0x90) && (a != 0xf4 || b < 0x90)); t.push(b); t.push(c(0x80, 0xbf)); t.push(c(0x80, 0xbf)) }
    }
    if n < 3 { t.push(b'\'') } else { t.push(b'1') }
    judge(&p, &t);
}

/// Long names, literals, lists, chains and nestings.
pub fn large() {
    let k = [20, 70, 300][pickz(if thorough() { 3 } else { 2 })];
    let form = pickz(12);
    // the reader above nests these
    let k = if form == 9 { [10, 18, 20][pickz(3)] } else { k };
    let rep = |s: &str, sep: &str, n: usize| (0..n).map(|i| s.replace('#', &format!("z{}", i))).collect::<Vec<_>>().join(sep);
    let p = learned(&["SELECT % , % + % || % AND % FROM % , % AS % WHERE % IN (%,%)"]);
    // the text in two parts, with an arbitrary character or white space between them
    let at = [0, 1, k / 2, k - 1, k][pickz(5)];
    let (mut a, b, any) = match form {
        0 => (format!("SELECT z{}", rep("a", "", at)), rep("b", "", k - at), true),
        1 => (format!("SELECT '{}", rep("a", "", at)), format!("{}'", rep("b", "", k - at)), true),
        2 => (format!("SELECT 7{}", rep("1", "", at)), rep("2", "", k - at), true),
        3 => (format!("SELECT 0xf{}", rep("1", "", at)), rep("e", "", k - at), true),
        4 => (format!("SELECT z, {}", rep("# AS #,", " ", at)), rep("#.#", " , ", k - at + 1), false),
        5 => (format!("SELECT z FROM {}", rep("# #,", " ", at)), rep("#.#", " , ", k - at + 1), false),
        6 => (format!("SELECT z IN ( {}", rep("#,", " ", at)), format!("{})", rep("7", " , ", k - at + 1)), false),
        7 => (format!("SELECT z UNION VALUES (z) , {}", rep("(#),", " ", at)), rep("(#,1)", " , ", k - at + 1), false),
        8 => (format!("SELECT z {}", rep("+ #", " ", at)), rep("- #", " ", k - at), false),
        9 => (format!("SELECT {}z", rep("(", "", k)), rep(")", "", at), false),
        10 => (format!("SELECT z {}", rep("UNION SELECT #", " ", at)), rep("EXCEPT SELECT #", " ", k - at), false),
        _ => (format!("UPDATE z SET z = 1 {}", rep(", # = #", " ", at)), format!(", z.z = 1{}", rep(", #,# = #", " ", k - at)), false),
    };
    let c = if any { ascii() } else { let c = u8s(); assume(space(c)); c };
    let _ = p.parse(&format!("{} {}", a, b));
    for c in "a0E_ .'+-;!|é\u{1}".chars() { let _ = p.parse(&format!("{}{}{}", a, c, b)); }
    let mut t = std::mem::take(&mut a).into_bytes();
    t.push(c);
    t.extend_from_slice(b.as_bytes());
    judge(&p, &t);
}
