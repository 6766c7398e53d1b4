//! Expression binding (name and type resolution), evaluation and deparsing.
use super::ast::*;
use super::lex::{quote_ident, quote_lit};
use super::query::{exec_plan, Plan};
use super::store::*;
use super::types::*;
use std::cmp::Ordering;

#[derive(Clone, Debug)]
pub struct TE {
    pub t: Ty,
    pub k: K,
}
#[derive(Clone, Debug)]
pub enum K {
    Const(Val),
    Param(usize),
    Col { lvl: usize, rte: usize, col: usize, name: String },
    Agg(usize),
    Func(String, Vec<TE>),
    Op(String, Box<TE>, Box<TE>),
    Neg(Box<TE>),
    BitNot(Box<TE>),
    And(Box<TE>, Box<TE>),
    Or(Box<TE>, Box<TE>),
    Not(Box<TE>),
    IsNull(Box<TE>, bool),
    IsBool(Box<TE>, bool, bool),
    Distinct(Box<TE>, Box<TE>, bool),
    Cast(Box<TE>, bool),
    Case(Option<Box<TE>>, Vec<(TE, TE)>, Option<Box<TE>>),
    Any(String, Box<TE>, Box<TE>, bool),
    Array(Vec<TE>),
    Coalesce(Vec<TE>),
    NullIf(Box<TE>, Box<TE>),
    MinMax(Vec<TE>, bool),
    Sub(Box<Plan>),
    Exists(Box<Plan>),
    ArraySub(Box<Plan>),
    InSub(Box<TE>, Box<Plan>, bool),
    Special(String),
    Index(Box<TE>, Box<TE>),
}

#[derive(Clone, Debug)]
pub struct AggDef {
    pub name: String,
    pub arg: Option<TE>,
    pub arg2: Option<TE>,
    pub distinct: bool,
    pub order: Vec<(TE, bool, bool)>,
    pub filter: Option<TE>,
    pub t: Ty,
}

#[derive(Clone, Debug)]
pub struct Rte {
    pub alias: String,
    pub rel: Oid,
    pub cols: Vec<(String, Ty)>,
}
#[derive(Clone, Debug, Default)]
pub struct Scope {
    pub rtes: Vec<Rte>,
    pub aggs: Vec<AggDef>,
    pub in_agg: bool,
    pub allow_agg: bool,
}
pub struct Binder<'a> {
    pub db: &'a Db,
    pub snap: Snap,
    pub params: Vec<Oid>,
    pub scopes: Vec<Scope>,
    pub ctes: Vec<(String, Plan)>,
}

pub fn syn<T>(m: impl Into<String>) -> Res<T> {
    let m: String = m.into();
    let mut c = m.chars();
    match c.next() {
        Some('\u{1}') => err("42601", c.as_str()),
        Some('\u{2}') => err("22003", c.as_str()),
        Some('\u{3}') => err("42P02", c.as_str()),
        Some('\u{4}') => err("0A000", c.as_str()),
        _ => err("42601", m),
    }
}

#[derive(Clone, Copy, PartialEq, PartialOrd)]
pub enum Ctx {
    Implicit,
    Assign,
    Explicit,
}

impl<'a> Binder<'a> {
    pub fn new(db: &'a Db, snap: Snap, params: Vec<Oid>) -> Binder<'a> {
        Binder { db, snap, params, scopes: vec![], ctes: vec![] }
    }

    pub fn type_of(&self, n: &TypeName) -> Res<Ty> {
        resolve_type(self.db, self.snap, n)
    }

    pub fn can_cast(from: Oid, to: Oid, c: Ctx) -> bool {
        if from == to || from == UNKNOWN {
            return true;
        }
        let ex = c == Ctx::Explicit;
        let asg = c >= Ctx::Assign;
        if is_num(from) && is_num(to) {
            return num_rank(from) <= num_rank(to) || asg;
        }
        if is_str(from) && is_str(to) {
            return match (from, to) {
                (_, NODETREE) => false,
                (NODETREE, TEXT) => true,
                (TEXT, NAME) | (VARCHAR, NAME) | (BPCHAR, NAME) => true,
                (NAME, TEXT) => true,
                (NAME, _) => asg,
                (_, CHAR) => asg,
                (CHAR, TEXT) => true,
                (CHAR, _) => asg,
                _ => true,
            };
        }
        match (from, to) {
            (DATE, TIMESTAMP) | (DATE, TIMESTAMPTZ) | (TIMESTAMP, TIMESTAMPTZ) => return true,
            (TIMESTAMPTZ, TIMESTAMP) | (TIMESTAMP, DATE) | (TIMESTAMPTZ, DATE) | (TIMESTAMP, TIME) => return asg,
            (INT2, OID) | (INT4, OID) | (INT8, OID) | (REGCLASS, OID) | (OID, REGCLASS) => return true,
            (INT2, REGCLASS) | (INT4, REGCLASS) | (INT8, REGCLASS) => return true,
            (OID, INT4) | (OID, INT8) | (REGCLASS, INT4) | (REGCLASS, INT8) => return asg,
            (TEXT, REGCLASS) | (VARCHAR, REGCLASS) => return true,
            (BOOL, INT4) | (INT4, BOOL) | (CHAR, INT4) | (INT4, CHAR) => return ex,
            (BOOL, TEXT) | (BOOL, VARCHAR) => return asg,
            (JSON, JSONB) | (JSONB, JSON) => return asg,
            (INT2VECTOR, 1005) => return true,
            _ => {}
        }
        if is_array(from) && is_array(to) && from != INT2VECTOR {
            return Self::can_cast(elem_of(from), elem_of(to), c);
        }
        // through text output and input
        if is_str(to) && to != NODETREE && to != NAME {
            return asg;
        }
        if is_str(from) {
            return ex;
        }
        false
    }

    pub fn coerce(&mut self, e: TE, to: Ty, c: Ctx) -> Res<TE> {
        let from = e.t.oid;
        if let K::Param(n) = &e.k {
            if self.params[*n - 1] == 0 {
                self.params[*n - 1] = to.oid;
                let e = TE { t: ty(to.oid), k: e.k };
                return Ok(if to.m >= 0 { TE { t: to, k: K::Cast(Box::new(e), c != Ctx::Explicit) } } else { e });
            }
        }
        if from == UNKNOWN {
            if let K::Const(v) = &e.k {
                let v2 = match v {
                    Val::Null => Val::Null,
                    Val::Text(s) => {
                        if to.oid == REGCLASS {
                            let r = regclass(self.db, self.snap, s)?;
                            Val::Int(r as i64)
                        } else {
                            input(s, to.oid)?
                        }
                    }
                    v => v.clone(),
                };
                let e = TE { t: ty(to.oid), k: K::Const(v2) };
                return Ok(if to.m >= 0 { TE { t: to, k: K::Cast(Box::new(e), c != Ctx::Explicit) } } else { e });
            }
        }
        if from == to.oid && (to.m < 0 || e.t.m == to.m) {
            return Ok(e);
        }
        if !Self::can_cast(from, to.oid, c) {
            return err("42846", format!("cannot cast type {} to {}", format_type(from, -1), format_type(to.oid, -1)));
        }
        Ok(TE { t: to, k: K::Cast(Box::new(e), c != Ctx::Explicit) })
    }

    fn param(&mut self, n: usize) -> TE {
        while self.params.len() < n {
            self.params.push(0);
        }
        let t = self.params[n - 1];
        TE { t: ty(if t == 0 { UNKNOWN } else { t }), k: K::Param(n) }
    }

    fn lookup(&self, c: &[String]) -> Res<TE> {
        let (tab, col) = match c.len() {
            1 => (None, &c[0]),
            2 => (Some(&c[0]), &c[1]),
            3 => (Some(&c[1]), &c[2]),
            _ => return err("42601", "improper qualified name"),
        };
        for (lvl, s) in self.scopes.iter().rev().enumerate() {
            let mut hits = vec![];
            let mut tabs = 0;
            for (i, r) in s.rtes.iter().enumerate() {
                if let Some(t) = tab {
                    if &r.alias != t {
                        continue;
                    }
                    tabs += 1;
                }
                for (j, (n, t)) in r.cols.iter().enumerate() {
                    if n == col {
                        hits.push((i, j, *t));
                    }
                }
            }
            if hits.len() > 1 {
                return err("42702", format!("column reference \"{}\" is ambiguous", col));
            }
            if let Some((i, j, t)) = hits.first() {
                return Ok(TE { t: *t, k: K::Col { lvl, rte: *i, col: *j, name: quote_ident(col) } });
            }
            if tabs > 0 {
                if s.rtes.iter().any(|r| Some(&r.alias) == tab && r.rel != 0 && r.rel < 16384) {
                    return err("0A000", format!("column {}.{} is not modelled", tab.unwrap(), col));
                }
                return err("42703", format!("column {}.{} does not exist", tab.unwrap(), col));
            }
        }
        if let Some(t) = tab {
            return err("42P01", format!("missing FROM-clause entry for table \"{}\"", t));
        }
        // a table alias used as a value (whole row or single-column function)
        for (lvl, s) in self.scopes.iter().rev().enumerate() {
            for (i, r) in s.rtes.iter().enumerate() {
                if &r.alias == col && r.cols.len() == 1 {
                    return Ok(TE { t: r.cols[0].1, k: K::Col { lvl, rte: i, col: 0, name: quote_ident(col) } });
                }
            }
        }
        if self.scopes.iter().any(|s| s.rtes.iter().any(|r| r.rel != 0 && r.rel < 16384)) {
            return err("0A000", format!("column {} is not modelled", col));
        }
        err("42703", format!("column \"{}\" does not exist", col))
    }

    pub fn bool_expr(&mut self, e: &Expr, what: &str) -> Res<TE> {
        let t = self.bind(e)?;
        if t.t.oid == UNKNOWN {
            return self.coerce(t, ty(BOOL), Ctx::Implicit);
        }
        if t.t.oid != BOOL {
            return err("42804", format!("argument of {} must be type boolean, not type {}", what, format_type(t.t.oid, -1)));
        }
        Ok(t)
    }

    /// make the types of a comparison or arithmetic operator agree
    fn unify(&mut self, op: &str, l: TE, r: TE) -> Res<(TE, TE)> {
        let (a, b) = (l.t.oid, r.t.oid);
        let plain = |t: Oid| if t == VARCHAR { TEXT } else { t };
        if a == UNKNOWN && b == UNKNOWN {
            let l = self.coerce(l, ty(TEXT), Ctx::Implicit)?;
            let r = self.coerce(r, ty(TEXT), Ctx::Implicit)?;
            return Ok((l, r));
        }
        if a == UNKNOWN {
            let t = plain(b);
            let l = self.coerce(l, ty(t), Ctx::Implicit)?;
            let r = self.coerce(r, ty(t), Ctx::Implicit)?;
            return Ok((l, r));
        }
        if b == UNKNOWN {
            let t = plain(a);
            let l = self.coerce(l, ty(t), Ctx::Implicit)?;
            let r = self.coerce(r, ty(t), Ctx::Implicit)?;
            return Ok((l, r));
        }
        if is_num(a) && is_num(b) {
            if is_int(a) && is_int(b) {
                return Ok((l, r));
            }
            let t = if num_rank(a) >= num_rank(b) { a } else { b };
            let t = if t == FLOAT4 { FLOAT8 } else { t };
            let l = self.coerce(l, ty(t), Ctx::Implicit)?;
            let r = self.coerce(r, ty(t), Ctx::Implicit)?;
            return Ok((l, r));
        }
        if is_str(a) && is_str(b) {
            if a == b && a != VARCHAR {
                return Ok((l, r));
            }
            if (a == NAME && b == TEXT) || (a == TEXT && b == NAME) {
                return Ok((l, r));
            }
            if (a == CHAR) != (b == CHAR) || a == NODETREE || b == NODETREE {
                let l = self.coerce(l, ty(TEXT), Ctx::Implicit)?;
                let r = self.coerce(r, ty(TEXT), Ctx::Implicit)?;
                return Ok((l, r));
            }
            let t = TEXT;
            let l = if a == NAME { l } else { self.coerce(l, ty(t), Ctx::Implicit)? };
            let r = if b == NAME { r } else { self.coerce(r, ty(t), Ctx::Implicit)? };
            return Ok((l, r));
        }
        let d = |t: Oid| matches!(t, DATE | TIMESTAMP | TIMESTAMPTZ);
        if d(a) && d(b) {
            let t = if a == TIMESTAMPTZ || b == TIMESTAMPTZ {
                TIMESTAMPTZ
            } else if a == DATE && b == DATE {
                DATE
            } else {
                TIMESTAMP
            };
            let l = self.coerce(l, ty(t), Ctx::Implicit)?;
            let r = self.coerce(r, ty(t), Ctx::Implicit)?;
            return Ok((l, r));
        }
        if (is_oidlike(a) && (is_oidlike(b) || is_int(b))) || (is_oidlike(b) && is_int(a)) {
            let l = self.coerce(l, ty(OID), Ctx::Implicit)?;
            let r = self.coerce(r, ty(OID), Ctx::Implicit)?;
            return Ok((l, r));
        }
        if a == b {
            if a == JSON {
                return self.no_op(op, a, b);
            }
            return Ok((l, r));
        }
        self.no_op(op, a, b)
    }
    fn no_op<T>(&self, op: &str, a: Oid, b: Oid) -> Res<T> {
        err("42883", format!("operator does not exist: {} {} {}", format_type(a, -1), op, format_type(b, -1)))
    }

    pub fn binop(&mut self, op: &str, l: TE, r: TE) -> Res<TE> {
        let mk = |t: Oid, l: TE, r: TE| TE { t: ty(t), k: K::Op(op.to_string(), Box::new(l), Box::new(r)) };
        match op {
            "=" | "<>" | "<" | ">" | "<=" | ">=" => {
                let (l, r) = self.unify(op, l, r)?;
                Ok(mk(BOOL, l, r))
            }
            "~~" | "!~~" | "~~*" | "!~~*" | "~" | "!~" => {
                let l = self.coerce(l, ty(TEXT), Ctx::Implicit)?;
                let r = self.coerce(r, ty(TEXT), Ctx::Implicit)?;
                Ok(mk(BOOL, l, r))
            }
            "||" => {
                if is_array(l.t.oid) || is_array(r.t.oid) {
                    let t = if is_array(l.t.oid) { l.t } else { r.t };
                    return Ok(mk(t.oid, l, r));
                }
                if l.t.oid != UNKNOWN && r.t.oid != UNKNOWN && !is_str(l.t.oid) && !is_str(r.t.oid) {
                    return self.no_op(op, l.t.oid, r.t.oid);
                }
                let l = self.coerce(l, ty(TEXT), Ctx::Assign)?;
                let r = self.coerce(r, ty(TEXT), Ctx::Assign)?;
                Ok(mk(TEXT, l, r))
            }
            "&" | "|" | "#" | "<<" | ">>" => {
                if !(is_int(l.t.oid) || l.t.oid == UNKNOWN) || !(is_int(r.t.oid) || r.t.oid == UNKNOWN) {
                    return self.no_op(op, l.t.oid, r.t.oid);
                }
                let t = if num_rank(l.t.oid) > num_rank(r.t.oid) { l.t.oid } else { r.t.oid };
                Ok(mk(t, l, r))
            }
            "+" | "-" | "*" | "/" | "%" | "^" => {
                let (a, b) = (l.t.oid, r.t.oid);
                if a == DATE && is_int(b) && (op == "+" || op == "-") {
                    return Ok(mk(DATE, l, r));
                }
                if a == DATE && b == DATE && op == "-" {
                    return Ok(mk(INT4, l, r));
                }
                if !(is_num(a) || a == UNKNOWN) || !(is_num(b) || b == UNKNOWN) || (a == UNKNOWN && b == UNKNOWN) {
                    return self.no_op(op, a, b);
                }
                let (l, r) = self.unify(op, l, r)?;
                let t = if num_rank(l.t.oid) >= num_rank(r.t.oid) { l.t.oid } else { r.t.oid };
                Ok(mk(if op == "^" { FLOAT8 } else { t }, l, r))
            }
            _ => self.no_op(op, l.t.oid, r.t.oid),
        }
    }

    /// a common type for CASE, COALESCE, ARRAY and UNION
    pub fn common(&self, v: &[TE], what: &str) -> Res<Oid> {
        let mut t = UNKNOWN;
        for e in v {
            let o = e.t.oid;
            if o == UNKNOWN || o == t {
                continue;
            }
            if t == UNKNOWN {
                t = o;
            } else if category(t) != category(o) {
                return err("42804", format!("{} types {} and {} cannot be matched", what, format_type(t, -1), format_type(o, -1)));
            } else if Self::can_cast(t, o, Ctx::Implicit) && !Self::can_cast(o, t, Ctx::Implicit) {
                t = o;
            } else if !Self::can_cast(o, t, Ctx::Implicit) {
                return err("42804", format!("{} could not convert type {} to {}", what, format_type(o, -1), format_type(t, -1)));
            }
        }
        Ok(if t == UNKNOWN { TEXT } else { t })
    }
    fn to_common(&mut self, v: Vec<TE>, what: &str) -> Res<(Oid, Vec<TE>)> {
        let t = self.common(&v, what)?;
        let mut out = vec![];
        for e in v {
            out.push(self.coerce(e, ty(t), Ctx::Implicit)?);
        }
        Ok((t, out))
    }

    pub fn bind(&mut self, e: &Expr) -> Res<TE> {
        let c = |t: Oid, v: Val| Ok(TE { t: ty(t), k: K::Const(v) });
        match e {
            Expr::Num(s) => {
                if let Ok(i) = s.parse::<i64>() {
                    if i >= i32::MIN as i64 && i <= i32::MAX as i64 {
                        return c(INT4, Val::Int(i));
                    }
                    return c(INT8, Val::Int(i));
                }
                match Dec::parse(s) {
                    Some(d) => c(NUMERIC, Val::Num(d)),
                    None => err("22003", format!("value \"{}\" is out of range", s)),
                }
            }
            Expr::Str(s) => c(UNKNOWN, Val::t(s)),
            Expr::Bool(b) => c(BOOL, Val::Bool(*b)),
            Expr::Null => c(UNKNOWN, Val::Null),
            Expr::Param(n) => Ok(self.param(*n)),
            Expr::Col(p) => self.lookup(p),
            Expr::Star(_) => err("42601", "row expansion via \"*\" is not supported here"),
            Expr::Special(s) => {
                let t = match s.as_str() {
                    "current_timestamp" => TIMESTAMPTZ,
                    "localtimestamp" => TIMESTAMP,
                    "current_date" => DATE,
                    "current_time" | "localtime" => TIME,
                    "default" => return err("42601", "DEFAULT is not allowed in this context"),
                    _ => NAME,
                };
                Ok(TE { t: ty(t), k: K::Special(s.clone()) })
            }
            Expr::Bin(op, l, r) => {
                let l = self.bind(l)?;
                let r = self.bind(r)?;
                self.binop(op, l, r)
            }
            Expr::Un(op, x) => {
                let x = self.bind(x)?;
                if op == "-" && is_num(x.t.oid) {
                    return Ok(TE { t: ty(x.t.oid), k: K::Neg(Box::new(x)) });
                }
                if op == "~" && is_int(x.t.oid) {
                    return Ok(TE { t: x.t, k: K::BitNot(Box::new(x)) });
                }
                err("42883", format!("operator does not exist: {} {}", op, format_type(x.t.oid, -1)))
            }
            Expr::And(a, b) => {
                let a = self.bool_expr(a, "AND")?;
                let b = self.bool_expr(b, "AND")?;
                Ok(TE { t: ty(BOOL), k: K::And(Box::new(a), Box::new(b)) })
            }
            Expr::Or(a, b) => {
                let a = self.bool_expr(a, "OR")?;
                let b = self.bool_expr(b, "OR")?;
                Ok(TE { t: ty(BOOL), k: K::Or(Box::new(a), Box::new(b)) })
            }
            Expr::Not(a) => {
                let a = self.bool_expr(a, "NOT")?;
                Ok(TE { t: ty(BOOL), k: K::Not(Box::new(a)) })
            }
            Expr::IsNull(a, n) => {
                let a = self.bind(a)?;
                let a = if a.t.oid == UNKNOWN { self.coerce(a, ty(TEXT), Ctx::Implicit)? } else { a };
                Ok(TE { t: ty(BOOL), k: K::IsNull(Box::new(a), *n) })
            }
            Expr::IsBool(a, b, n) => {
                let a = self.bool_expr(a, "IS TRUE")?;
                Ok(TE { t: ty(BOOL), k: K::IsBool(Box::new(a), *b, *n) })
            }
            Expr::IsDistinct(a, b, n) => {
                let a = self.bind(a)?;
                let b = self.bind(b)?;
                let (a, b) = self.unify("=", a, b)?;
                Ok(TE { t: ty(BOOL), k: K::Distinct(Box::new(a), Box::new(b), *n) })
            }
            Expr::In(a, l, n) => {
                let a = self.bind(a)?;
                let mut v = vec![];
                for x in l {
                    v.push(self.bind(x)?);
                }
                let mut all = v.clone();
                all.push(a.clone());
                let t = self.common(&all, "IN")?;
                let t = if t == VARCHAR { TEXT } else { t };
                let a = self.coerce(a, ty(t), Ctx::Implicit)?;
                let mut w = vec![];
                for x in v {
                    w.push(self.coerce(x, ty(t), Ctx::Implicit)?);
                }
                let arr = TE { t: ty(array_of(t)), k: K::Array(w) };
                let op = if *n { "<>" } else { "=" };
                Ok(TE { t: ty(BOOL), k: K::Any(op.into(), Box::new(a), Box::new(arr), *n) })
            }
            Expr::InSub(a, q, n) => {
                let a = self.bind(a)?;
                let p = super::query::bind_select(self, q)?;
                if p.cols.len() != 1 {
                    return err("42601", "subquery has too many columns");
                }
                let a = if a.t.oid == UNKNOWN { self.coerce(a, p.cols[0].1, Ctx::Implicit)? } else { a };
                Ok(TE { t: ty(BOOL), k: K::InSub(Box::new(a), Box::new(p), *n) })
            }
            Expr::Between(x, a, b, n) => {
                let e = Expr::And(Box::new(Expr::Bin(">=".into(), x.clone(), a.clone())), Box::new(Expr::Bin("<=".into(), x.clone(), b.clone())));
                let t = self.bind(&e)?;
                Ok(if *n { TE { t: ty(BOOL), k: K::Not(Box::new(t)) } } else { t })
            }
            Expr::Cast(x, tn) => {
                let t = self.type_of(tn)?;
                let e = self.bind(x)?;
                self.coerce(e, t, Ctx::Explicit)
            }
            Expr::Case(arg, whens, els) => {
                let arg = match arg {
                    Some(a) => {
                        let a = self.bind(a)?;
                        Some(if a.t.oid == UNKNOWN { self.coerce(a, ty(TEXT), Ctx::Implicit)? } else { a })
                    }
                    None => None,
                };
                let mut conds = vec![];
                let mut vals = vec![];
                for (c, v) in whens {
                    let ce = match &arg {
                        Some(a) => {
                            let cv = self.bind(c)?;
                            self.binop("=", a.clone(), cv)?
                        }
                        None => self.bool_expr(c, "CASE/WHEN")?,
                    };
                    conds.push(ce);
                    vals.push(self.bind(v)?);
                }
                let has_else = els.is_some();
                if let Some(x) = els {
                    let x = self.bind(x)?;
                    vals.push(x);
                }
                let (t, mut vals) = self.to_common(vals, "CASE")?;
                let els = if has_else { Some(Box::new(vals.pop().unwrap())) } else { None };
                Ok(TE { t: ty(t), k: K::Case(arg.map(Box::new), conds.into_iter().zip(vals).collect(), els) })
            }
            Expr::Any(op, l, r, all) => {
                let l = self.bind(l)?;
                let r = self.bind(r)?;
                if r.t.oid == UNKNOWN {
                    let t = if l.t.oid == UNKNOWN { TEXT } else { l.t.oid };
                    let a = array_of(t);
                    let r = self.coerce(r, ty(a), Ctx::Implicit)?;
                    let l = self.coerce(l, ty(t), Ctx::Implicit)?;
                    return Ok(TE { t: ty(BOOL), k: K::Any(op.clone(), Box::new(l), Box::new(r), *all) });
                }
                let el = elem_of(r.t.oid);
                if el == 0 {
                    return err("42809", "op ANY/ALL (array) requires array on right side");
                }
                // check the operator exists for the element type
                let probe = TE { t: ty(el), k: K::Const(Val::Null) };
                let (l2, p2) = self.unify(op, l, probe)?;
                let mut r = r;
                if p2.t.oid != el {
                    let a = array_of(p2.t.oid);
                    r = self.coerce(r, ty(a), Ctx::Implicit)?;
                }
                Ok(TE { t: ty(BOOL), k: K::Any(op.clone(), Box::new(l2), Box::new(r), *all) })
            }
            Expr::Array(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.bind(x)?);
                }
                if o.is_empty() {
                    return err("42P18", "cannot determine type of empty array");
                }
                let (t, o) = self.to_common(o, "ARRAY")?;
                Ok(TE { t: ty(array_of(t)), k: K::Array(o) })
            }
            Expr::ArraySub(q) => {
                let p = super::query::bind_select(self, q)?;
                if p.cols.len() != 1 {
                    return err("42601", "subquery must return only one column");
                }
                let t = array_of(if p.cols[0].1.oid == UNKNOWN { TEXT } else { p.cols[0].1.oid });
                Ok(TE { t: ty(t), k: K::ArraySub(Box::new(p)) })
            }
            Expr::Sub(q) => {
                let p = super::query::bind_select(self, q)?;
                if p.cols.len() != 1 {
                    return err("42601", "subquery must return only one column");
                }
                Ok(TE { t: p.cols[0].1, k: K::Sub(Box::new(p)) })
            }
            Expr::Exists(q) => {
                let p = super::query::bind_select(self, q)?;
                Ok(TE { t: ty(BOOL), k: K::Exists(Box::new(p)) })
            }
            Expr::Index(a, i) => {
                let a = self.bind(a)?;
                let i = self.bind(i)?;
                let i = self.coerce(i, ty(INT4), Ctx::Assign)?;
                let el = elem_of(a.t.oid);
                if el == 0 {
                    return err("42804", format!("cannot subscript type {} because it does not support subscripting", format_type(a.t.oid, -1)));
                }
                Ok(TE { t: ty(el), k: K::Index(Box::new(a), Box::new(i)) })
            }
            Expr::Row(_) => err("0A000", "row expressions are not modelled"),
            Expr::Func { name, args, star, distinct, order, filter } => self.bind_func(name, args, *star, *distinct, order, filter),
        }
    }

    fn bind_func(&mut self, name: &[String], args: &[Expr], star: bool, distinct: bool, order: &[OrderBy], filter: &Option<Box<Expr>>) -> Res<TE> {
        match self.bind_func2(name, args, star, distinct, order, filter) {
            Err(Stop::Err(e)) if e.code == "42883" && (name.len() == 1 || name[0] == "pg_catalog") && builtin(name.last().unwrap()) => {
                err("0A000", format!("function {} is not modelled", name.join(".")))
            }
            x => x,
        }
    }
    fn bind_func2(&mut self, name: &[String], args: &[Expr], star: bool, distinct: bool, order: &[OrderBy], filter: &Option<Box<Expr>>) -> Res<TE> {
        let n = name.last().unwrap().as_str();
        if name.len() > 1 && name[0] != "pg_catalog" {
            return err("42883", format!("function {}() does not exist", name.join(".")));
        }
        const AGGS: &[&str] = &["array_agg", "count", "min", "max", "sum", "avg", "string_agg", "bool_and", "bool_or", "every", "json_agg", "jsonb_agg"];
        if AGGS.contains(&n) {
            {
                let s = match self.scopes.last_mut() {
                    Some(s) => s,
                    None => return err("42803", "aggregate functions are not allowed here"),
                };
                if !s.allow_agg || s.in_agg {
                    return err("42803", if s.in_agg { "aggregate function calls cannot be nested" } else { "aggregate functions are not allowed in this clause" });
                }
                s.in_agg = true;
            }
            let mut v = vec![];
            for a in args {
                v.push(self.bind(a)?);
            }
            let mut ord = vec![];
            for o in order {
                let e = self.bind(&o.expr)?;
                ord.push((e, o.desc, o.nulls_first.unwrap_or(o.desc)));
            }
            let filter = match filter {
                Some(f) => Some(self.bool_expr(f, "FILTER")?),
                None => None,
            };
            self.scopes.last_mut().unwrap().in_agg = false;
            let at = v.first().map(|x| x.t.oid).unwrap_or(0);
            let t = match n {
                "count" => INT8,
                "array_agg" => {
                    if at == UNKNOWN {
                        let x = v.remove(0);
                        v.insert(0, self.coerce(x, ty(TEXT), Ctx::Implicit)?);
                        array_of(TEXT)
                    } else {
                        array_of(at)
                    }
                }
                "sum" => match at {
                    INT2 | INT4 => INT8,
                    INT8 => NUMERIC,
                    x => x,
                },
                "avg" => NUMERIC,
                "string_agg" => TEXT,
                "bool_and" | "bool_or" | "every" => BOOL,
                "json_agg" => JSON,
                "jsonb_agg" => JSONB,
                _ => {
                    if at == VARCHAR {
                        TEXT
                    } else {
                        at
                    }
                }
            };
            if (n != "count" && v.is_empty()) || (star && n != "count") || t == 0 {
                return err("42883", format!("function {}() does not exist", n));
            }
            let mut it = v.into_iter();
            let d = AggDef { name: n.to_string(), arg: it.next(), arg2: it.next(), distinct, order: ord, filter, t: ty(t) };
            let s = self.scopes.last_mut().unwrap();
            s.aggs.push(d);
            return Ok(TE { t: ty(t), k: K::Agg(s.aggs.len() - 1) });
        }
        let mut v = vec![];
        for a in args {
            v.push(self.bind(a)?);
        }
        match n {
            "coalesce" => {
                let (t, v) = self.to_common(v, "COALESCE")?;
                return Ok(TE { t: ty(t), k: K::Coalesce(v) });
            }
            "greatest" | "least" => {
                let (t, v) = self.to_common(v, "GREATEST")?;
                return Ok(TE { t: ty(t), k: K::MinMax(v, n == "greatest") });
            }
            "nullif" if v.len() == 2 => {
                let b = v.pop().unwrap();
                let a = v.pop().unwrap();
                let t = if a.t.oid == UNKNOWN { TEXT } else { a.t.oid };
                let (a, b) = self.unify("=", a, b)?;
                return Ok(TE { t: ty(t), k: K::NullIf(Box::new(a), Box::new(b)) });
            }
            _ => {}
        }
        let k = v.len();
        let sig: Option<(&[Oid], Oid)> = match (n, k) {
            ("now", 0) | ("transaction_timestamp", 0) | ("statement_timestamp", 0) | ("clock_timestamp", 0) => Some((&[], TIMESTAMPTZ)),
            ("nextval", 1) | ("currval", 1) => Some((&[REGCLASS], INT8)),
            ("setval", 2) => Some((&[REGCLASS, INT8], INT8)),
            ("setval", 3) => Some((&[REGCLASS, INT8, BOOL], INT8)),
            ("upper", 1) | ("lower", 1) | ("quote_ident", 1) | ("quote_literal", 1) | ("btrim", 1) | ("ltrim", 1) | ("rtrim", 1) | ("md5", 1) | ("reverse", 1) | ("initcap", 1) => Some((&[TEXT], TEXT)),
            ("btrim", 2) | ("ltrim", 2) | ("rtrim", 2) => Some((&[TEXT, TEXT], TEXT)),
            ("replace", 3) => Some((&[TEXT, TEXT, TEXT], TEXT)),
            ("split_part", 3) => Some((&[TEXT, TEXT, INT4], TEXT)),
            ("concat", _) | ("concat_ws", _) => None,
            ("length", 1) | ("char_length", 1) | ("octet_length", 1) => Some((&[TEXT], INT4)),
            ("strpos", 2) => Some((&[TEXT, TEXT], INT4)),
            ("substring", 2) | ("substr", 2) => Some((&[TEXT, INT4], TEXT)),
            ("substring", 3) | ("substr", 3) => Some((&[TEXT, INT4, INT4], TEXT)),
            ("left", 2) | ("right", 2) | ("repeat", 2) => Some((&[TEXT, INT4], TEXT)),
            ("gen_random_uuid", 0) => Some((&[], UUID)),
            ("random", 0) => Some((&[], FLOAT8)),
            ("version", 0) | ("current_setting", 1) => Some((if k == 0 { &[] } else { &[TEXT] }, TEXT)),
            ("current_schema", 0) | ("current_database", 0) | ("current_user", 0) => Some((&[], NAME)),
            ("pg_has_role", 2) => Some((&[OID, TEXT], BOOL)),
            ("has_table_privilege", 2) | ("has_any_column_privilege", 2) | ("has_schema_privilege", 2) => Some((&[OID, TEXT], BOOL)),
            ("pg_is_other_temp_schema", 1) | ("pg_table_is_visible", 1) => Some((&[OID], BOOL)),
            ("pg_get_expr", 2) => Some((&[NODETREE, OID], TEXT)),
            ("pg_get_expr", 3) => Some((&[NODETREE, OID, BOOL], TEXT)),
            ("pg_get_constraintdef", 1) | ("pg_get_indexdef", 1) | ("pg_get_viewdef", 1) | ("pg_get_function_result", 1) | ("pg_get_function_identity_arguments", 1) | ("pg_get_function_arguments", 1)
            | ("pg_get_functiondef", 1) => Some((&[OID], TEXT)),
            ("pg_get_constraintdef", 2) | ("pg_get_viewdef", 2) => Some((&[OID, BOOL], TEXT)),
            ("pg_get_indexdef", 3) => Some((&[OID, INT4, BOOL], TEXT)),
            ("format_type", 2) => Some((&[OID, INT4], TEXT)),
            ("pg_get_serial_sequence", 2) => Some((&[TEXT, TEXT], TEXT)),
            ("to_regclass", 1) => Some((&[TEXT], REGCLASS)),
            ("pg_relation_is_updatable", 2) => Some((&[REGCLASS, BOOL], INT4)),
            ("pg_advisory_xact_lock", 1) | ("pg_advisory_lock", 1) => Some((&[INT8], VOID)),
            ("pg_try_advisory_xact_lock", 1) | ("pg_try_advisory_lock", 1) | ("pg_advisory_unlock", 1) => Some((&[INT8], BOOL)),
            ("hashtext", 1) => Some((&[TEXT], INT4)),
            ("pg_backend_pid", 0) => Some((&[], INT4)),
            ("txid_current", 0) => Some((&[], INT8)),
            ("abs", 1) | ("ceil", 1) | ("floor", 1) | ("round", 1) if is_num(v[0].t.oid) => {
                let t = v[0].t.oid;
                return Ok(TE { t: ty(t), k: K::Func(n.to_string(), v) });
            }
            ("round", 2) => Some((&[NUMERIC, INT4], NUMERIC)),
            ("mod", 2) if is_int(v[0].t.oid) => {
                let b = v.pop().unwrap();
                let a = v.pop().unwrap();
                return self.binop("%", a, b);
            }
            ("array_length", 2) | ("cardinality", 1) | ("array_position", 2) if is_array(v[0].t.oid) => {
                return Ok(TE { t: ty(INT4), k: K::Func(n.to_string(), v) });
            }
            ("array_append", 2) if is_array(v[0].t.oid) => {
                let t = v[0].t.oid;
                return Ok(TE { t: ty(t), k: K::Func(n.to_string(), v) });
            }
            ("array_to_string", 2) if is_array(v[0].t.oid) => {
                let s = v.pop().unwrap();
                let s = self.coerce(s, ty(TEXT), Ctx::Implicit)?;
                v.push(s);
                return Ok(TE { t: ty(TEXT), k: K::Func(n.to_string(), v) });
            }
            ("json_build_object", _) | ("jsonb_build_object", _) | ("to_json", 1) | ("to_jsonb", 1) => {
                return Ok(TE { t: ty(if n.contains("jsonb") { JSONB } else { JSON }), k: K::Func(n.to_string(), v) });
            }
            ("timezone", 2) => {
                let t = if v[1].t.oid == TIMESTAMPTZ { TIMESTAMP } else { TIMESTAMPTZ };
                let z = v.remove(0);
                let z = self.coerce(z, ty(TEXT), Ctx::Implicit)?;
                v.insert(0, z);
                return Ok(TE { t: ty(t), k: K::Func(n.to_string(), v) });
            }
            ("unnest", 1) | ("generate_series", 2) | ("generate_subscripts", 2) => {
                return err("0A000", "set-returning functions outside FROM are not modelled");
            }
            (x, 1) if x.ends_with("typmodout") => Some((&[INT4], TEXT)),
            _ => None,
        };
        if n == "concat" {
            let mut w = vec![];
            for x in v {
                w.push(self.coerce(x, ty(TEXT), Ctx::Assign)?);
            }
            return Ok(TE { t: ty(TEXT), k: K::Func("concat".into(), w) });
        }
        let nofn = |v: &[TE]| {
            err::<TE>(
                "42883",
                format!("function {}({}) does not exist", name.join("."), v.iter().map(|x| format_type(x.t.oid, -1)).collect::<Vec<_>>().join(", ")),
            )
        };
        match sig {
            None => nofn(&v),
            Some((at, rt)) => {
                for (x, t) in v.iter().zip(at) {
                    let ok = x.t.oid == UNKNOWN || Self::can_cast(x.t.oid, *t, Ctx::Implicit);
                    if !ok {
                        return nofn(&v);
                    }
                }
                let mut w = vec![];
                for (x, t) in v.into_iter().zip(at) {
                    w.push(if *t == NODETREE && x.t.oid == NODETREE { x } else { self.coerce(x, ty(*t), Ctx::Implicit)? });
                }
                Ok(TE { t: ty(rt), k: K::Func(n.to_string(), w) })
            }
        }
    }
}

/// names of functions every PostgreSQL has, whether or not they are modelled here
fn builtin(n: &str) -> bool {
    const PRE: &[&str] = &[
        "pg_", "to_", "quote_", "array_", "string_", "json", "regexp_", "has_", "current_", "col_", "obj_", "shobj_", "txid_", "date_", "inet_", "row_", "xml", "bool_", "bit_", "any_", "percent", "ts_",
        "make_", "session_", "lo_", "octet_", "char_", "get_", "set_", "json_", "unnest", "convert_", "regr_", "stddev", "var_", "varia",
    ];
    const ALL: &[&str] = &[
        "format", "rank", "dense_rank", "lag", "lead", "ntile", "first_value", "last_value", "nth_value", "cume_dist", "translate", "position", "overlay", "starts_with", "ascii", "chr", "encode", "decode", "trim",
        "lpad", "rpad", "num_nulls", "num_nonnulls", "age", "justify_days", "extract", "trunc", "power", "sqrt", "sign", "div", "gcd", "lcm", "exp", "ln", "log", "sha256", "sha512", "md5", "width_bucket", "mode",
        "corr", "user", "hashtextextended", "lastval", "timeofday", "isfinite", "generate_series", "generate_subscripts", "abs", "round", "ceil", "floor", "mod", "cardinality", "length", "upper", "lower", "every",
        "sum", "avg", "min", "max", "count", "btrim", "substr", "substring", "left", "right", "repeat", "replace", "reverse", "strpos", "split_part", "concat", "concat_ws", "coalesce", "nullif", "oidvectortypes",
    ];
    PRE.iter().any(|p| n.starts_with(p)) || ALL.contains(&n)
}

pub fn resolve_type(db: &Db, snap: Snap, n: &TypeName) -> Res<Ty> {
    let nm = n.name.last().unwrap().as_str();
    let show = n.name.join(".");
    let no = || err("42704", format!("type \"{}\" does not exist", show));
    let base = if n.name.len() > 1 && n.name[0] == "information_schema" {
        match nm {
            "character_data" | "sql_identifier" | "yes_or_no" => VARCHAR,
            "cardinal_number" => INT4,
            "time_stamp" => TIMESTAMPTZ,
            _ => return no(),
        }
    } else if n.name.len() > 1 && n.name[0] != "pg_catalog" {
        return no();
    } else {
        match nm {
            "serial4" | "serial8" => {
                if nm == "serial8" {
                    INT8
                } else {
                    INT4
                }
            }
            _ => match type_by_name(nm) {
                Some(t) if t != UNKNOWN || nm == "unknown" => t,
                None if nm.starts_with("reg") || nm.starts_with("pg_") || nm.ends_with("range") || matches!(nm, "xid" | "cid" | "tid" | "xid8" | "int2vector" | "oidvector" | "txid_snapshot" | "name" | "char") => {
                    return err("0A000", format!("type {} is not modelled", show))
                }
                _ => return no(),
            },
        }
    };
    let _ = (db, snap);
    let bad = || err("22023", format!("invalid type modifier for type {}", show));
    let m = match (base, n.mods.as_slice()) {
        (_, []) => -1,
        (VARCHAR, [k]) | (BPCHAR, [k]) => {
            if *k < 1 || *k > 10485760 {
                return bad();
            }
            *k as i32 + 4
        }
        (NUMERIC, [p]) => {
            if *p < 1 || *p > 1000 {
                return bad();
            }
            ((*p as i32) << 16) + 4
        }
        (NUMERIC, [p, s]) => {
            if *p < 1 || *p > 1000 || *s < 0 || *s > 1000 {
                return bad();
            }
            (((*p as i32) << 16) | (*s as i32 & 0x7ff)) + 4
        }
        (BIT, [k]) | (VARBIT, [k]) => {
            if *k < 1 || *k > 83886080 {
                return bad();
            }
            *k as i32
        }
        // as the parser encodes it
        (INTERVAL, [k]) => *k as i32,
        (TIMESTAMP, [k]) | (TIMESTAMPTZ, [k]) | (TIME, [k]) | (TIMETZ, [k]) => (*k).clamp(0, 6) as i32,
        _ => return err("42601", format!("type modifier is not allowed for type \"{}\"", show)),
    };
    if n.array {
        let a = array_of(base);
        if a == 0 {
            return no();
        }
        return Ok(Ty { oid: a, m });
    }
    Ok(Ty { oid: base, m })
}

/// resolves a possibly qualified relation name
pub fn find_rel(db: &Db, snap: Snap, name: &[String]) -> Option<(Oid, Row)> {
    let (ns, rel) = match name.len() {
        1 => (None, &name[0]),
        2 => (Some(&name[0]), &name[1]),
        _ => (Some(&name[1]), &name[2]),
    };
    let cands: Vec<Oid> = match ns {
        None => vec![NS_CATALOG, find_ns(db, snap, "public").unwrap_or(0)],
        Some(s) => vec![find_ns(db, snap, s)?],
    };
    for ns in cands {
        if let Some((_, r)) = db.cat_find(C_CLASS, snap, &[("relname", Val::t(rel)), ("relnamespace", Val::Int(ns as i64))]).pop() {
            return Some((r[0].oid(), r));
        }
    }
    None
}
pub fn find_ns(db: &Db, snap: Snap, n: &str) -> Option<Oid> {
    db.cat_find(C_NS, snap, &[("nspname", Val::t(n))]).pop().map(|(_, r)| r[0].oid())
}
pub fn regclass(db: &Db, snap: Snap, s: &str) -> Res<Oid> {
    if let Ok(n) = s.parse::<u32>() {
        return Ok(n);
    }
    let toks = match super::lex::lex(s) {
        Ok(t) => t,
        Err(_) => return err("42602", "invalid name syntax"),
    };
    let mut name = vec![];
    for (i, t) in toks.iter().enumerate() {
        match (&t.t, i % 2) {
            (super::lex::Tok::Id(s, _), 0) => name.push(s.clone()),
            (super::lex::Tok::Op(o), 1) if o == "." => {}
            (super::lex::Tok::Eof, 1) => {}
            _ => return err("42602", "invalid name syntax"),
        }
    }
    if name.len() == 2 && find_ns(db, snap, &name[0]).is_none() {
        return err("3F000", format!("schema \"{}\" does not exist", name[0]));
    }
    match find_rel(db, snap, &name) {
        Some((o, _)) => Ok(o),
        None => err("42P01", format!("relation \"{}\" does not exist", s)),
    }
}
pub fn relname(db: &Db, snap: Snap, oid: Oid, qualify: bool) -> String {
    match db.cat_find(C_CLASS, snap, &[("oid", Val::Int(oid as i64))]).pop() {
        None => oid.to_string(),
        Some((_, r)) => {
            let ns = r[ccol(C_CLASS, "relnamespace")].oid();
            let n = quote_ident(r[1].text());
            if ns == NS_CATALOG || (!qualify && Some(ns) == find_ns(db, snap, "public")) {
                n
            } else {
                format!("{}.{}", quote_ident(&nsname(db, snap, ns)), n)
            }
        }
    }
}
pub fn nsname(db: &Db, snap: Snap, oid: Oid) -> String {
    db.cat_find(C_NS, snap, &[("oid", Val::Int(oid as i64))]).pop().map(|(_, r)| r[1].text().to_string()).unwrap_or_default()
}

// ---- evaluation
#[derive(Clone, Debug, Default)]
pub struct Level {
    pub rows: Vec<Option<Row>>,
    pub aggs: Vec<Val>,
}
pub struct Cx<'a> {
    pub db: &'a mut Db,
    pub snap: Snap,
    pub xid: Xid,
    pub params: Vec<Val>,
    pub tx_now: i64,
    pub iso_rr: bool,
    pub env: Vec<Level>,
    /// per-session last values for currval
    pub currvals: &'a mut std::collections::BTreeMap<Oid, i64>,
    pub scan_cache: std::collections::BTreeMap<Oid, std::rc::Rc<Vec<Row>>>,
    pub steps: u64,
}

impl<'a> Cx<'a> {
    pub fn top(&self) -> Xid {
        self.db.top(self.xid)
    }
    pub fn latest(&self) -> Snap {
        self.db.latest(self.top())
    }
    pub fn eval(&mut self, e: &TE) -> Res<Val> {
        self.steps += 1;
        if self.steps > 3_000_000 {
            return err("54000", "simulated database: statement too large");
        }
        Ok(match &e.k {
            K::Const(v) => v.clone(),
            K::Param(n) => self.params.get(n - 1).cloned().unwrap_or(Val::Null),
            K::Col { lvl, rte, col, .. } => {
                let l = self.env.len() - 1 - lvl;
                match &self.env[l].rows[*rte] {
                    None => Val::Null,
                    Some(r) => r.get(*col).cloned().unwrap_or(Val::Null),
                }
            }
            K::Agg(i) => self.env.last().unwrap().aggs[*i].clone(),
            K::And(a, b) => {
                let x = self.eval(a)?;
                if matches!(x, Val::Bool(false)) {
                    return Ok(x);
                }
                let y = self.eval(b)?;
                match (x, y) {
                    (_, Val::Bool(false)) => Val::Bool(false),
                    (Val::Bool(true), y) => y,
                    _ => Val::Null,
                }
            }
            K::Or(a, b) => {
                let x = self.eval(a)?;
                if x.bool() {
                    return Ok(x);
                }
                let y = self.eval(b)?;
                match (x, y) {
                    (_, Val::Bool(true)) => Val::Bool(true),
                    (Val::Bool(false), y) => y,
                    _ => Val::Null,
                }
            }
            K::Not(a) => match self.eval(a)? {
                Val::Bool(b) => Val::Bool(!b),
                _ => Val::Null,
            },
            K::IsNull(a, n) => Val::Bool(self.eval(a)?.is_null() != *n),
            K::IsBool(a, b, n) => {
                let v = self.eval(a)?;
                Val::Bool(matches!(v, Val::Bool(x) if x == *b) != *n)
            }
            K::Distinct(a, b, n) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                let d = compare(&x, &y) != Ordering::Equal;
                Val::Bool(d != *n)
            }
            K::Op(op, a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                self.op(op, e.t.oid, a.t.oid, b.t.oid, x, y)?
            }
            K::Neg(a) => match self.eval(a)? {
                Val::Int(i) => Val::Int(-i),
                Val::Float(f) => Val::Float(-f),
                Val::Num(d) => Val::Num(Dec { mant: -d.mant, scale: d.scale }),
                _ => Val::Null,
            },
            K::BitNot(a) => match self.eval(a)? {
                Val::Int(i) => Val::Int(!i),
                _ => Val::Null,
            },
            K::Cast(a, implicit) => {
                let v = self.eval(a)?;
                self.cast(v, a.t, e.t, !*implicit)?
            }
            K::Case(_, ws, els) => {
                for (c, v) in ws {
                    if self.eval(c)?.bool() {
                        return self.eval(v);
                    }
                }
                match els {
                    Some(x) => self.eval(x)?,
                    None => Val::Null,
                }
            }
            K::Any(op, l, r, all) => {
                let lv = self.eval(l)?;
                let rv = self.eval(r)?;
                let a = match rv {
                    Val::Arr(a) => a,
                    _ => return Ok(Val::Null),
                };
                let mut null = false;
                for x in a {
                    match self.op(op, BOOL, l.t.oid, elem_of(r.t.oid), lv.clone(), x)? {
                        Val::Bool(b) => {
                            if b != *all {
                                return Ok(Val::Bool(b));
                            }
                        }
                        _ => null = true,
                    }
                }
                if null {
                    Val::Null
                } else {
                    Val::Bool(*all)
                }
            }
            K::Array(v) => {
                let mut o = vec![];
                for x in v {
                    o.push(self.eval(x)?);
                }
                Val::Arr(o)
            }
            K::Coalesce(v) => {
                for x in v {
                    let r = self.eval(x)?;
                    if !r.is_null() {
                        return Ok(r);
                    }
                }
                Val::Null
            }
            K::MinMax(v, max) => {
                let mut best = Val::Null;
                for x in v {
                    let r = self.eval(x)?;
                    if r.is_null() {
                        continue;
                    }
                    if best.is_null() || (compare(&r, &best) == Ordering::Greater) == *max {
                        best = r;
                    }
                }
                best
            }
            K::NullIf(a, b) => {
                let (x, y) = (self.eval(a)?, self.eval(b)?);
                if !x.is_null() && !y.is_null() && compare(&x, &y) == Ordering::Equal {
                    Val::Null
                } else {
                    x
                }
            }
            K::Sub(p) => {
                let mut rows = exec_plan(self, p)?;
                if rows.len() > 1 {
                    return err("21000", "more than one row returned by a subquery used as an expression");
                }
                rows.pop().map(|mut r| r.swap_remove(0)).unwrap_or(Val::Null)
            }
            K::Exists(p) => Val::Bool(!exec_plan(self, p)?.is_empty()),
            K::ArraySub(p) => Val::Arr(exec_plan(self, p)?.into_iter().map(|mut r| r.swap_remove(0)).collect()),
            K::InSub(a, p, n) => {
                let v = self.eval(a)?;
                let rows = exec_plan(self, p)?;
                if rows.is_empty() {
                    return Ok(Val::Bool(*n));
                }
                if v.is_null() {
                    return Ok(Val::Null);
                }
                let mut null = false;
                for r in rows {
                    if r[0].is_null() {
                        null = true;
                    } else if compare(&r[0], &v) == Ordering::Equal {
                        return Ok(Val::Bool(!*n));
                    }
                }
                if null {
                    Val::Null
                } else {
                    Val::Bool(*n)
                }
            }
            K::Special(s) => match s.as_str() {
                "current_timestamp" | "localtimestamp" => Val::Time(self.tx_now),
                "current_date" => Val::Time(self.tx_now.div_euclid(86_400_000_000)),
                "current_time" | "localtime" => Val::Time(self.tx_now.rem_euclid(86_400_000_000)),
                "current_schema" => Val::t("public"),
                "current_catalog" => Val::t("app"),
                _ => Val::t("postgres"),
            },
            K::Index(a, i) => {
                let a2 = self.eval(a)?;
                let i = self.eval(i)?;
                match (a2, i) {
                    (Val::Arr(v), Val::Int(n)) => {
                        let off = if a.t.oid == INT2VECTOR { 0 } else { 1 };
                        v.get((n - off) as usize).cloned().unwrap_or(Val::Null)
                    }
                    _ => Val::Null,
                }
            }
            K::Func(n, args) => {
                let mut v = vec![];
                for a in args {
                    v.push(self.eval(a)?);
                }
                let tys: Vec<Oid> = args.iter().map(|a| a.t.oid).collect();
                self.func(n, v, &tys)?
            }
        })
    }

    pub fn op(&mut self, op: &str, rt: Oid, lt: Oid, rtt: Oid, x: Val, y: Val) -> Res<Val> {
        if x.is_null() || y.is_null() {
            return Ok(Val::Null);
        }
        let c = || compare(&x, &y);
        Ok(match op {
            "=" => Val::Bool(c() == Ordering::Equal),
            "<>" => Val::Bool(c() != Ordering::Equal),
            "<" => Val::Bool(c() == Ordering::Less),
            ">" => Val::Bool(c() == Ordering::Greater),
            "<=" => Val::Bool(c() != Ordering::Greater),
            ">=" => Val::Bool(c() != Ordering::Less),
            "~~" => Val::Bool(like(x.text(), y.text())),
            "!~~" => Val::Bool(!like(x.text(), y.text())),
            "~~*" => Val::Bool(like(&x.text().to_lowercase(), &y.text().to_lowercase())),
            "!~~*" => Val::Bool(!like(&x.text().to_lowercase(), &y.text().to_lowercase())),
            "~" => Val::Bool(x.text().contains(y.text())),
            "!~" => Val::Bool(!x.text().contains(y.text())),
            "||" => match (x, y) {
                (Val::Arr(mut a), Val::Arr(b)) => {
                    a.extend(b);
                    Val::Arr(a)
                }
                (Val::Arr(mut a), b) => {
                    a.push(b);
                    Val::Arr(a)
                }
                (a, b) => Val::Text(format!("{}{}", output(&a, lt), output(&b, rtt))),
            },
            "&" => Val::Int(x.int() & y.int()),
            "|" => Val::Int(x.int() | y.int()),
            "#" => Val::Int(x.int() ^ y.int()),
            "<<" => Val::Int(x.int() << (y.int() & 63)),
            ">>" => Val::Int(x.int() >> (y.int() & 63)),
            "+" | "-" | "*" | "/" | "%" | "^" => {
                if let (Val::Time(a), Val::Int(b)) = (&x, &y) {
                    return Ok(Val::Time(if op == "+" { a + b } else { a - b }));
                }
                if let (Val::Time(a), Val::Time(b)) = (&x, &y) {
                    return Ok(Val::Int(a - b));
                }
                let zero = |z: bool| if z { err("22012", "division by zero") } else { Ok(()) };
                match rt {
                    INT2 | INT4 | INT8 => {
                        let (a, b) = (x.int(), y.int());
                        let r = match op {
                            "+" => a.checked_add(b),
                            "-" => a.checked_sub(b),
                            "*" => a.checked_mul(b),
                            "/" => {
                                zero(b == 0)?;
                                a.checked_div(b)
                            }
                            _ => {
                                zero(b == 0)?;
                                a.checked_rem(b)
                            }
                        };
                        match r {
                            Some(r) if r >= int_min(rt) && r <= int_max(rt) => Val::Int(r),
                            _ => return err("22003", format!("{} out of range", format_type(rt, -1))),
                        }
                    }
                    NUMERIC => {
                        let d = |v: &Val| match v {
                            Val::Num(d) => *d,
                            v => Dec { mant: v.int() as i128, scale: 0 },
                        };
                        let (a, b) = (d(&x), d(&y));
                        let s = a.scale.max(b.scale);
                        let (p, q) = (a.rescale(s), b.rescale(s));
                        match op {
                            "+" => Val::Num(Dec { mant: p.mant + q.mant, scale: s }),
                            "-" => Val::Num(Dec { mant: p.mant - q.mant, scale: s }),
                            "*" => Val::Num(Dec { mant: a.mant.saturating_mul(b.mant), scale: a.scale + b.scale }),
                            "/" => {
                                zero(b.mant == 0)?;
                                Val::Num(Dec { mant: a.rescale(s + 16).mant / q.mant, scale: 16 })
                            }
                            _ => {
                                zero(b.mant == 0)?;
                                Val::Num(Dec { mant: p.mant % q.mant, scale: s })
                            }
                        }
                    }
                    _ => {
                        let (a, b) = (as_f64(&x), as_f64(&y));
                        Val::Float(match op {
                            "+" => a + b,
                            "-" => a - b,
                            "*" => a * b,
                            "/" => {
                                zero(b == 0.0)?;
                                a / b
                            }
                            "^" => a.powf(b),
                            _ => a % b,
                        })
                    }
                }
            }
            _ => return err("42883", format!("operator does not exist: {}", op)),
        })
    }

    pub fn cast(&mut self, v: Val, from: Ty, to: Ty, explicit: bool) -> Res<Val> {
        if v.is_null() {
            return Ok(Val::Null);
        }
        let r = if from.oid == to.oid {
            v
        } else {
            match (v, to.oid) {
                (Val::Int(i), t) if is_int(t) => {
                    if i < int_min(t) || i > int_max(t) {
                        return err("22003", format!("{} out of range", format_type(t, -1)));
                    }
                    Val::Int(i)
                }
                (Val::Int(i), NUMERIC) => Val::Num(Dec { mant: i as i128, scale: 0 }),
                (Val::Int(i), FLOAT4) | (Val::Int(i), FLOAT8) => Val::Float(i as f64),
                (Val::Int(i), OID) | (Val::Int(i), REGCLASS) => Val::Int(i),
                (Val::Int(i), BOOL) => Val::Bool(i != 0),
                (Val::Bool(b), INT4) => Val::Int(b as i64),
                (Val::Num(d), t) if is_int(t) => {
                    let i = d.rescale(0).mant;
                    if i < int_min(t) as i128 || i > int_max(t) as i128 {
                        return err("22003", format!("{} out of range", format_type(t, -1)));
                    }
                    Val::Int(i as i64)
                }
                (Val::Num(d), FLOAT4) | (Val::Num(d), FLOAT8) => Val::Float(d.f64()),
                (Val::Float(f), t) if is_int(t) => {
                    let r = f.round();
                    if r < int_min(t) as f64 || r > int_max(t) as f64 {
                        return err("22003", format!("{} out of range", format_type(t, -1)));
                    }
                    Val::Int(r as i64)
                }
                (Val::Float(f), NUMERIC) => match Dec::parse(&format!("{}", f)) {
                    Some(d) => Val::Num(d),
                    None => return err("22003", "numeric out of range"),
                },
                (Val::Float(f), FLOAT4) => Val::Float(f as f32 as f64),
                (Val::Float(f), FLOAT8) => Val::Float(f),
                (Val::Time(d), TIMESTAMP) | (Val::Time(d), TIMESTAMPTZ) if from.oid == DATE => Val::Time(d * 86_400_000_000),
                (Val::Time(d), DATE) if from.oid != DATE => Val::Time(d.div_euclid(86_400_000_000)),
                (Val::Time(d), TIME) if from.oid != TIME => Val::Time(d.rem_euclid(86_400_000_000)),
                (Val::Time(d), TIMESTAMP) | (Val::Time(d), TIMESTAMPTZ) => Val::Time(d),
                (Val::Text(s), REGCLASS) => {
                    let sn = self.latest();
                    Val::Int(regclass(self.db, sn, &s)? as i64)
                }
                (v, REGCLASS) => v,
                (Val::Arr(a), t) if is_array(t) => {
                    let mut o = vec![];
                    for x in a {
                        o.push(self.cast(x, ty(elem_of(from.oid)), Ty { oid: elem_of(t), m: -1 }, explicit)?);
                    }
                    Val::Arr(o)
                }
                (v, t) => {
                    let s = if from.oid == REGCLASS {
                        let sn = self.latest();
                        relname(self.db, sn, v.oid(), false)
                    } else if from.oid == BOOL {
                        (if v.bool() { "true" } else { "false" }).to_string()
                    } else if from.oid == BPCHAR {
                        output(&v, from.oid).trim_end().to_string()
                    } else {
                        output(&v, from.oid)
                    };
                    if is_str(t) && t != CHAR && t != NAME {
                        Val::Text(s)
                    } else {
                        input(&s, t)?
                    }
                }
            }
        };
        Ok(apply_typmod(r, to, explicit)?)
    }

    fn func(&mut self, n: &str, mut v: Vec<Val>, tys: &[Oid]) -> Res<Val> {
        let lenient = matches!(n, "concat" | "format_type" | "json_build_object" | "jsonb_build_object");
        if !lenient && v.iter().any(|x| x.is_null()) {
            return Ok(Val::Null);
        }
        let sn = self.latest();
        Ok(match n {
            "now" | "transaction_timestamp" => Val::Time(self.tx_now),
            "statement_timestamp" | "clock_timestamp" => Val::Time(self.db.now),
            "nextval" => Val::Int(self.nextval(v[0].oid())?),
            "currval" => match self.currvals.get(&v[0].oid()) {
                Some(x) => Val::Int(*x),
                None => return err("55000", "currval of sequence is not yet defined in this session"),
            },
            "setval" => {
                let called = v.get(2).map_or(true, |x| x.bool());
                self.db.seqs.insert(v[0].oid(), SeqState { last: v[1].int(), called });
                v[1].clone()
            }
            "upper" => Val::Text(v[0].text().to_uppercase()),
            "lower" => Val::Text(v[0].text().to_lowercase()),
            "initcap" | "md5" => Val::Text(v[0].text().to_string()),
            "reverse" => Val::Text(v[0].text().chars().rev().collect()),
            "quote_ident" => Val::Text(quote_ident(v[0].text())),
            "quote_literal" => Val::Text(quote_lit(v[0].text())),
            "btrim" | "ltrim" | "rtrim" => {
                let set: Vec<char> = v.get(1).map(|x| x.text().chars().collect()).unwrap_or(vec![' ']);
                let s = v[0].text();
                let f = |c: char| set.contains(&c);
                Val::t(match n {
                    "btrim" => s.trim_matches(f),
                    "ltrim" => s.trim_start_matches(f),
                    _ => s.trim_end_matches(f),
                })
            }
            "replace" => Val::Text(if v[1].text().is_empty() { v[0].text().to_string() } else { v[0].text().replace(v[1].text(), v[2].text()) }),
            "split_part" => Val::t(v[0].text().split(v[1].text()).nth((v[2].int() - 1).max(0) as usize).unwrap_or("")),
            "concat" => Val::Text(v.iter().map(|x| x.text().to_string()).collect()),
            "length" | "char_length" => Val::Int(v[0].text().chars().count() as i64),
            "octet_length" => Val::Int(v[0].text().len() as i64),
            "strpos" => Val::Int(v[0].text().find(v[1].text()).map(|i| v[0].text()[..i].chars().count() as i64 + 1).unwrap_or(0)),
            "substring" | "substr" => {
                let s: Vec<char> = v[0].text().chars().collect();
                let st = v[1].int();
                let en = match v.get(2) {
                    Some(l) => {
                        if l.int() < 0 {
                            return err("22011", "negative substring length not allowed");
                        }
                        st + l.int()
                    }
                    None => i64::MAX,
                };
                Val::Text(s.iter().enumerate().filter(|(i, _)| (*i as i64 + 1) >= st && (*i as i64 + 1) < en).map(|(_, c)| *c).collect())
            }
            "left" | "right" => {
                let s: Vec<char> = v[0].text().chars().collect();
                let k = v[1].int();
                let l = s.len() as i64;
                let take = if k >= 0 { k.min(l) } else { (l + k).max(0) } as usize;
                Val::Text(if n == "left" { s[..take].iter().collect() } else { s[s.len() - take..].iter().collect() })
            }
            "repeat" => Val::Text(v[0].text().repeat(v[1].int().clamp(0, 1000) as usize)),
            "gen_random_uuid" => {
                let o = self.db.new_oid();
                Val::Text(format!("00000000-0000-4000-8000-{:012x}", o))
            }
            "random" => Val::Float(0.5),
            "version" => Val::t("PostgreSQL 16.0 (simulated)"),
            "current_setting" => Val::t(""),
            "current_schema" => Val::t("public"),
            "current_database" => Val::t("app"),
            "current_user" => Val::t("postgres"),
            "pg_has_role" | "has_table_privilege" | "has_any_column_privilege" | "has_schema_privilege" | "pg_table_is_visible" => Val::Bool(true),
            "pg_is_other_temp_schema" => Val::Bool(false),
            "pg_get_expr" => Val::t(v[0].text()),
            "pg_get_constraintdef" => match super::ddl::constraint_def(self.db, sn, v[0].oid()) {
                Some(s) => Val::Text(s),
                None => Val::Null,
            },
            "pg_get_indexdef" => {
                if v.len() == 3 && v[1].int() > 0 {
                    match super::ddl::index_col_def(self.db, sn, v[0].oid(), v[1].int() as usize) {
                        Some(s) => Val::Text(s),
                        None => Val::t(""),
                    }
                } else {
                    match super::ddl::index_def(self.db, sn, v[0].oid()) {
                        Some(s) => Val::Text(s),
                        None => Val::Null,
                    }
                }
            }
            "pg_get_viewdef" => match self.db.cat_find(C_REWRITE, sn, &[("ev_class", v[0].clone())]).pop() {
                Some((_, r)) => Val::Text(format!(" {};", r[3].text())),
                None => Val::Null,
            },
            "pg_get_function_identity_arguments" | "pg_get_function_arguments" => Val::Text(super::ddl::func_args(self.db, sn, v[0].oid(), n == "pg_get_function_arguments")),
            "pg_get_function_result" => Val::Text(super::ddl::func_result(self.db, sn, v[0].oid())),
            "pg_get_functiondef" => return err("0A000", "pg_get_functiondef is not modelled"),
            "format_type" => {
                if v[0].is_null() {
                    Val::Null
                } else {
                    let m = if v[1].is_null() { -1 } else { v[1].int() as i32 };
                    Val::Text(format_type(v[0].oid(), m))
                }
            }
            "to_regclass" => match regclass(self.db, sn, v[0].text()) {
                Ok(o) => Val::Int(o as i64),
                Err(_) => Val::Null,
            },
            "pg_get_serial_sequence" => Val::Null,
            "pg_relation_is_updatable" => Val::Int(28),
            "pg_advisory_xact_lock" | "pg_advisory_lock" => {
                let t = self.top();
                self.db.lock(t, 2, v[0].int() as u64, 8)?;
                Val::t("")
            }
            "pg_try_advisory_xact_lock" | "pg_try_advisory_lock" => {
                let t = self.top();
                Val::Bool(self.db.lock(t, 2, v[0].int() as u64, 8).is_ok())
            }
            "pg_advisory_unlock" => Val::Bool(true),
            "hashtext" => {
                let mut h: u32 = 2166136261;
                for b in v[0].text().bytes() {
                    h = (h ^ b as u32).wrapping_mul(16777619);
                }
                Val::Int(h as i32 as i64)
            }
            "pg_backend_pid" => Val::Int(1),
            "txid_current" => Val::Int(self.top() as i64),
            "abs" => match v.remove(0) {
                Val::Int(i) => Val::Int(i.abs()),
                Val::Float(f) => Val::Float(f.abs()),
                Val::Num(d) => Val::Num(Dec { mant: d.mant.abs(), scale: d.scale }),
                x => x,
            },
            "ceil" | "floor" | "round" => match v.remove(0) {
                Val::Float(f) => Val::Float(match n {
                    "ceil" => f.ceil(),
                    "floor" => f.floor(),
                    _ => f.round(),
                }),
                Val::Num(d) => {
                    let sc = v.get(0).map(|x| x.int() as u32).unwrap_or(0);
                    Val::Num(d.rescale(sc))
                }
                x => x,
            },
            "array_length" | "cardinality" => match &v[0] {
                Val::Arr(a) if a.is_empty() && n == "array_length" => Val::Null,
                Val::Arr(a) => Val::Int(a.len() as i64),
                _ => Val::Null,
            },
            "array_position" => match &v[0] {
                Val::Arr(a) => match a.iter().position(|x| compare(x, &v[1]) == Ordering::Equal) {
                    Some(i) => Val::Int(i as i64 + if tys[0] == INT2VECTOR { 0 } else { 1 }),
                    None => Val::Null,
                },
                _ => Val::Null,
            },
            "array_append" => match v.remove(0) {
                Val::Arr(mut a) => {
                    a.push(v.remove(0));
                    Val::Arr(a)
                }
                x => x,
            },
            "array_to_string" => match &v[0] {
                Val::Arr(a) => Val::Text(a.iter().filter(|x| !x.is_null()).map(|x| output(x, elem_of(tys[0]))).collect::<Vec<_>>().join(v[1].text())),
                _ => Val::Null,
            },
            "timezone" => v.remove(1),
            x if x.ends_with("typmodout") => {
                let t = type_by_name(x.trim_end_matches("typmodout"));
                match t {
                    None => return err("42883", format!("function {}(integer) does not exist", x)),
                    Some(t) => Val::Text(
                        typmod_suffix(t, v[0].int() as i32)
                            + match t {
                                TIMESTAMP | TIME => " without time zone",
                                TIMESTAMPTZ | TIMETZ => " with time zone",
                                _ => "",
                            },
                    ),
                }
            }
            _ => return err("0A000", format!("function {} is not modelled", n)),
        })
    }

    pub fn nextval(&mut self, seq: Oid) -> Res<i64> {
        let sn = self.latest();
        let def = match self.db.cat_find(C_SEQ, sn, &[("seqrelid", Val::Int(seq as i64))]).pop() {
            None => return err("42809", format!("\"{}\" is not a sequence", relname(self.db, sn, seq, false))),
            Some((_, r)) => r,
        };
        let g = |n: &str| def[ccol(C_SEQ, n)].clone();
        let (inc, min, max) = (g("seqincrement").int(), g("seqmin").int(), g("seqmax").int());
        let st = self.db.seqs.entry(seq).or_insert(SeqState { last: def[ccol(C_SEQ, "seqstart")].int(), called: false });
        let v = if !st.called {
            st.last
        } else {
            let n = st.last.checked_add(inc).filter(|x| *x <= max && *x >= min);
            match n {
                Some(x) => x,
                None if g("seqcycle").bool() => {
                    if inc > 0 {
                        min
                    } else {
                        max
                    }
                }
                None => return err("2200H", "nextval: reached maximum value of sequence"),
            }
        };
        st.last = v;
        st.called = true;
        self.currvals.insert(seq, v);
        Ok(v)
    }
}

pub fn like(s: &str, p: &str) -> bool {
    fn go(s: &[char], p: &[char]) -> bool {
        match p.first() {
            None => s.is_empty(),
            Some('%') => (0..=s.len()).any(|i| go(&s[i..], &p[1..])),
            Some('_') => !s.is_empty() && go(&s[1..], &p[1..]),
            Some('\\') if p.len() > 1 => s.first() == Some(&p[1]) && go(&s[1..], &p[2..]),
            Some(c) => s.first() == Some(c) && go(&s[1..], &p[1..]),
        }
    }
    go(&s.chars().collect::<Vec<_>>(), &p.chars().collect::<Vec<_>>())
}

// ---- deparsing
pub fn deparse(db: &Db, snap: Snap, e: &TE, show: bool) -> String {
    let d = |x: &TE| deparse(db, snap, x, true);
    match &e.k {
        K::Const(v) => match v {
            Val::Null => format!("NULL::{}", format_type(e.t.oid, e.t.m)),
            Val::Bool(b) => b.to_string(),
            Val::Int(i) if e.t.oid == INT4 && *i >= 0 => i.to_string(),
            Val::Num(n) if n.mant >= 0 && n.scale > 0 => n.to_string(),
            Val::Int(i) if e.t.oid == REGCLASS => format!("{}::regclass", quote_lit(&relname(db, snap, *i as Oid, false))),
            v => format!("{}::{}", quote_lit(&output(v, e.t.oid)), format_type(e.t.oid, e.t.m)),
        },
        K::Param(n) => format!("${}", n),
        K::Col { name, .. } => name.clone(),
        K::Agg(_) => "agg()".into(),
        K::Func(n, a) => {
            let args = a.iter().map(d).collect::<Vec<_>>();
            match (n.as_str(), args.len()) {
                ("substring", 2) => format!("\"substring\"({})", args.join(", ")),
                ("substring", 3) => format!("\"substring\"({})", args.join(", ")),
                ("left", _) | ("right", _) => format!("\"{}\"({})", n, args.join(", ")),
                _ => format!("{}({})", n, args.join(", ")),
            }
        }
        K::Op(o, a, b) => format!("({} {} {})", d(a), o, d(b)),
        K::Neg(a) => format!("(- {})", d(a)),
        K::BitNot(a) => format!("(~ {})", d(a)),
        K::And(..) => {
            let mut v = vec![];
            flat(e, true, &mut v);
            format!("({})", v.into_iter().map(|x| d(x)).collect::<Vec<_>>().join(" AND "))
        }
        K::Or(..) => {
            let mut v = vec![];
            flat(e, false, &mut v);
            format!("({})", v.into_iter().map(|x| d(x)).collect::<Vec<_>>().join(" OR "))
        }
        K::Not(a) => format!("(NOT {})", d(a)),
        K::IsNull(a, n) => format!("({} IS {}NULL)", d(a), if *n { "NOT " } else { "" }),
        K::IsBool(a, b, n) => format!("({} IS {}{})", d(a), if *n { "NOT " } else { "" }, if *b { "TRUE" } else { "FALSE" }),
        K::Distinct(a, b, n) => format!("({} IS {}DISTINCT FROM {})", d(a), if *n { "NOT " } else { "" }, d(b)),
        K::Cast(a, implicit) => {
            if *implicit && !show {
                return deparse(db, snap, a, false);
            }
            let s = d(a);
            let s = if matches!(a.k, K::Const(_)) && matches!(a.k, K::Const(ref v) if !matches!(v, Val::Int(_) | Val::Num(_) | Val::Bool(_))) {
                // a literal already carries its type
                if a.t.oid == e.t.oid {
                    return match &a.k {
                        K::Const(v) if !v.is_null() => format!("{}::{}", quote_lit(&output(v, a.t.oid)), format_type(e.t.oid, e.t.m)),
                        _ => format!("NULL::{}", format_type(e.t.oid, e.t.m)),
                    };
                }
                s
            } else {
                s
            };
            let s = if s.starts_with('(') && s.ends_with(')') { s } else { format!("({})", s) };
            format!("{}::{}", s, format_type(e.t.oid, e.t.m))
        }
        K::Case(arg, ws, els) => {
            let mut s = String::from("CASE");
            if let Some(a) = arg {
                s.push_str(&format!(" {}", d(a)));
            }
            for (c, v) in ws {
                let cs = match (&arg, &c.k) {
                    (Some(_), K::Op(_, _, r)) => d(r),
                    _ => d(c),
                };
                s.push_str(&format!(" WHEN {} THEN {}", cs, d(v)));
            }
            if let Some(x) = els {
                s.push_str(&format!(" ELSE {}", d(x)));
            }
            s.push_str(" END");
            s
        }
        K::Any(o, a, b, all) => format!("({} {} {} ({}))", d(a), o, if *all { "ALL" } else { "ANY" }, d(b)),
        K::Array(v) => format!("ARRAY[{}]", v.iter().map(d).collect::<Vec<_>>().join(", ")),
        K::Coalesce(v) => format!("COALESCE({})", v.iter().map(d).collect::<Vec<_>>().join(", ")),
        K::MinMax(v, g) => format!("{}({})", if *g { "GREATEST" } else { "LEAST" }, v.iter().map(d).collect::<Vec<_>>().join(", ")),
        K::NullIf(a, b) => format!("NULLIF({}, {})", d(a), d(b)),
        K::Special(s) => s.to_uppercase(),
        K::Index(a, b) => format!("{}[{}]", d(a), d(b)),
        K::Sub(_) | K::Exists(_) | K::ArraySub(_) | K::InSub(..) => "(subquery)".into(),
    }
}
fn flat<'a>(e: &'a TE, and: bool, out: &mut Vec<&'a TE>) {
    match (&e.k, and) {
        (K::And(a, b), true) | (K::Or(a, b), false) => {
            flat(a, and, out);
            // the grammar flattens only to the left
            out.push(b);
        }
        _ => out.push(e),
    }
}

/// visits every node
pub fn walk(e: &TE, f: &mut dyn FnMut(&TE)) {
    f(e);
    match &e.k {
        K::Const(_) | K::Param(_) | K::Col { .. } | K::Agg(_) | K::Special(_) | K::Sub(_) | K::Exists(_) | K::ArraySub(_) => {}
        K::InSub(a, _, _) => walk(a, f),
        K::Func(_, v) | K::Array(v) | K::Coalesce(v) | K::MinMax(v, _) => v.iter().for_each(|x| walk(x, f)),
        K::Op(_, a, b) | K::And(a, b) | K::Or(a, b) | K::Distinct(a, b, _) | K::Any(_, a, b, _) | K::NullIf(a, b) | K::Index(a, b) => {
            walk(a, f);
            walk(b, f);
        }
        K::Neg(a) | K::BitNot(a) | K::Not(a) | K::IsNull(a, _) | K::IsBool(a, _, _) | K::Cast(a, _) => walk(a, f),
        K::Case(a, w, e) => {
            if let Some(a) = a {
                walk(a, f);
            }
            for (c, v) in w {
                walk(c, f);
                walk(v, f);
            }
            if let Some(e) = e {
                walk(e, f);
            }
        }
    }
}
/// subqueries among the nodes
pub fn has_sub(e: &TE) -> bool {
    let mut r = false;
    walk(e, &mut |x| {
        if matches!(x.k, K::Sub(_) | K::Exists(_) | K::ArraySub(_) | K::InSub(..)) {
            r = true
        }
    });
    r
}
