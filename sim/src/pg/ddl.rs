//! Data definition over the catalogs.
use super::ast::*;
use super::expr::*;
use super::lex::quote_ident;
use super::query::*;
use super::store::*;
use super::types::*;
use std::cmp::Ordering;

fn i(o: Oid) -> Val {
    Val::Int(o as i64)
}
type Obj = (Oid, Oid, i64);

pub fn one(db: &Db, sn: Snap, c: Oid, k: &str, v: Val) -> Option<(usize, Row)> {
    db.cat_find(c, sn, &[(k, v)]).pop()
}
pub fn get(r: &Row, c: Oid, n: &str) -> Val {
    r[ccol(c, n)].clone()
}
pub fn arr(v: &Val) -> Vec<i64> {
    match v {
        Val::Arr(a) => a.iter().map(|x| x.int()).collect(),
        _ => vec![],
    }
}
fn ints(v: &[i64]) -> Val {
    Val::Arr(v.iter().map(|x| Val::Int(*x)).collect())
}
pub fn colname(db: &Db, sn: Snap, rel: Oid, n: i64) -> String {
    db.cat_find(C_ATTR, sn, &[("attrelid", i(rel)), ("attnum", Val::Int(n))]).pop().map(|(_, r)| r[1].text().to_string()).unwrap_or_default()
}
fn collist(db: &Db, sn: Snap, rel: Oid, ks: &[i64]) -> String {
    ks.iter().map(|k| quote_ident(&colname(db, sn, rel, *k))).collect::<Vec<_>>().join(", ")
}
pub fn constraint_def(db: &Db, sn: Snap, oid: Oid) -> Option<String> {
    let (_, r) = one(db, sn, C_CON, "oid", i(oid))?;
    let g = |n: &str| get(&r, C_CON, n);
    let rel = g("conrelid").oid();
    let keys = arr(&g("conkey"));
    let mut s = match g("contype").text() {
        "p" => format!("PRIMARY KEY ({})", collist(db, sn, rel, &keys)),
        "u" => format!("UNIQUE ({})", collist(db, sn, rel, &keys)),
        "c" => format!("CHECK ({})", g("conbin").text()),
        _ => {
            let f = g("confrelid").oid();
            let mut s = format!("FOREIGN KEY ({}) REFERENCES {}({})", collist(db, sn, rel, &keys), relname(db, sn, f, false), collist(db, sn, f, &arr(&g("confkey"))));
            if g("confmatchtype").text() == "f" {
                s.push_str(" MATCH FULL");
            }
            for (k, w) in [("confupdtype", "UPDATE"), ("confdeltype", "DELETE")] {
                match g(k).text() {
                    "r" => s.push_str(&format!(" ON {} RESTRICT", w)),
                    "c" => s.push_str(&format!(" ON {} CASCADE", w)),
                    "n" => s.push_str(&format!(" ON {} SET NULL", w)),
                    "d" => s.push_str(&format!(" ON {} SET DEFAULT", w)),
                    _ => {}
                }
            }
            s
        }
    };
    if g("condeferrable").bool() {
        s.push_str(" DEFERRABLE");
    }
    if g("condeferred").bool() {
        s.push_str(" INITIALLY DEFERRED");
    }
    if !g("convalidated").bool() {
        s.push_str(" NOT VALID");
    }
    Some(s)
}
pub fn index_exprs(text: &str) -> Vec<Expr> {
    match super::parse::parse_expr(&format!("f({})", text)) {
        Ok(Expr::Func { args, .. }) => args,
        _ => vec![],
    }
}
/// the expressions of an index, as written in its definition
pub fn index_cols(db: &Db, sn: Snap, r: &Row) -> Vec<(String, i64)> {
    let rel = get(r, C_INDEX, "indrelid").oid();
    let exprs = get(r, C_INDEX, "indexprs");
    let parts = if exprs.is_null() { vec![] } else { split_list(exprs.text()) };
    let mut k = 0;
    arr(&get(r, C_INDEX, "indkey"))
        .into_iter()
        .map(|n| {
            if n == 0 {
                k += 1;
                (parts.get(k - 1).cloned().unwrap_or_default(), 0)
            } else {
                (quote_ident(&colname(db, sn, rel, n)), n)
            }
        })
        .collect()
}
/// splits a comma-separated expression list at depth zero
pub fn split_list(s: &str) -> Vec<String> {
    let toks = match super::lex::lex(s) {
        Ok(t) => t,
        Err(_) => return vec![s.to_string()],
    };
    let (mut d, mut st, mut out) = (0, 0, vec![]);
    for t in &toks {
        if let super::lex::Tok::Op(o) = &t.t {
            match o.as_str() {
                "(" | "[" => d += 1,
                ")" | "]" => d -= 1,
                "," if d == 0 => {
                    out.push(s[st..t.pos].trim().to_string());
                    st = t.end;
                }
                _ => {}
            }
        }
    }
    out.push(s[st..].trim().to_string());
    out
}
pub fn index_col_def(db: &Db, sn: Snap, oid: Oid, n: usize) -> Option<String> {
    let (_, r) = one(db, sn, C_INDEX, "indexrelid", i(oid))?;
    index_cols(db, sn, &r).get(n - 1).map(|x| x.0.clone())
}
pub fn index_def(db: &Db, sn: Snap, oid: Oid) -> Option<String> {
    let (_, r) = one(db, sn, C_INDEX, "indexrelid", i(oid))?;
    let (_, c) = one(db, sn, C_CLASS, "oid", i(oid))?;
    let am = one(db, sn, C_AM, "oid", get(&c, C_CLASS, "relam"))?.1;
    let opts = arr(&get(&r, C_INDEX, "indoption"));
    let cols: Vec<String> = index_cols(db, sn, &r)
        .into_iter()
        .enumerate()
        .map(|(k, (t, n))| {
            let t = if n == 0 && !is_call(&t) { format!("({})", strip_parens(&t)) } else { t };
            let o = opts.get(k).copied().unwrap_or(0);
            let suf = match o {
                1 => " DESC NULLS LAST",
                2 => " NULLS FIRST",
                3 => " DESC",
                _ => "",
            };
            format!("{}{}", t, suf)
        })
        .collect();
    let pred = get(&r, C_INDEX, "indpred");
    Some(format!(
        "CREATE {}INDEX {} ON {} USING {} ({}){}",
        if get(&r, C_INDEX, "indisunique").bool() { "UNIQUE " } else { "" },
        quote_ident(c[1].text()),
        relname(db, sn, get(&r, C_INDEX, "indrelid").oid(), true),
        am[1].text(),
        cols.join(", "),
        if pred.is_null() { String::new() } else { format!(" WHERE {}", pred.text()) }
    ))
}
fn is_call(t: &str) -> bool {
    matches!(super::parse::parse_expr(t), Ok(Expr::Func { .. }))
}
fn strip_parens(t: &str) -> &str {
    t
}
pub fn func_args(db: &Db, sn: Snap, oid: Oid, defaults: bool) -> String {
    match one(db, sn, C_PROC, "oid", i(oid)) {
        None => String::new(),
        Some((_, r)) => {
            let names = match get(&r, C_PROC, "proargnames") {
                Val::Arr(a) => a,
                _ => vec![],
            };
            let types = arr(&get(&r, C_PROC, "proargtypes"));
            let defs = match get(&r, C_PROC, "proargdefaults") {
                Val::Arr(a) if defaults => a,
                _ => vec![],
            };
            let first = types.len() - defs.len();
            types
                .iter()
                .enumerate()
                .map(|(k, t)| {
                    let n = names.get(k).map(|x| x.text().to_string()).unwrap_or_default();
                    let d = if k >= first { format!(" DEFAULT {}", defs[k - first].text()) } else { String::new() };
                    format!("{}{}{}", if n.is_empty() { n } else { format!("{} ", quote_ident(&n)) }, format_type(*t as Oid, -1), d)
                })
                .collect::<Vec<_>>()
                .join(", ")
        }
    }
}
pub fn func_result(db: &Db, sn: Snap, oid: Oid) -> String {
    match one(db, sn, C_PROC, "oid", i(oid)) {
        None => String::new(),
        Some((_, r)) => format!("{}{}", if get(&r, C_PROC, "proretset").bool() { "SETOF " } else { "" }, format_type(get(&r, C_PROC, "prorettype").oid(), -1)),
    }
}

struct NewIndex {
    rel: Oid,
    name: String,
    ns: Oid,
    am: Oid,
    unique: bool,
    primary: bool,
    keys: Vec<i64>,
    opts: Vec<i64>,
    exprs: Option<String>,
    pred: Option<String>,
    con: Option<Oid>,
    expr_cols: Vec<i64>,
}

impl<'a> Cx<'a> {
    fn sn(&self) -> Snap {
        self.latest()
    }
    pub fn dirty(&mut self) {
        self.scan_cache.clear();
    }
    fn dep(&mut self, a: Obj, b: Obj, t: &str) {
        let x = self.xid;
        self.db.cat_put(
            x,
            C_DEP,
            vec![("classid", i(a.0)), ("objid", i(a.1)), ("objsubid", Val::Int(a.2)), ("refclassid", i(b.0)), ("refobjid", i(b.1)), ("refobjsubid", Val::Int(b.2)), ("deptype", Val::t(t))],
        );
    }
    fn ns_of(&mut self, name: &[String]) -> Res<(Oid, String)> {
        let sn = self.sn();
        let rel = name.last().unwrap().clone();
        let n = if name.len() >= 2 { name[name.len() - 2].clone() } else { "public".to_string() };
        match find_ns(self.db, sn, &n) {
            Some(o) => {
                if o == NS_CATALOG {
                    return err("42501", "permission denied to create in schema \"pg_catalog\"");
                }
                let t = self.top();
                self.db.lock(t, 1, o as u64, 1)?;
                Ok((o, rel))
            }
            None => {
                if name.len() >= 2 {
                    err("3F000", format!("schema \"{}\" does not exist", n))
                } else {
                    err("3F000", "no schema has been selected to create in")
                }
            }
        }
    }
    fn new_rel(&mut self, oid: Oid, name: &str, ns: Oid, kind: &str, am: Oid, natts: i64) -> Res<()> {
        let t = self.top();
        if self.db.cat_unique(C_CLASS, t, &[("relname", Val::t(name)), ("relnamespace", i(ns))])? {
            return err("42P07", format!("relation \"{}\" already exists", name));
        }
        let x = self.xid;
        self.db.cat_put(
            x,
            C_CLASS,
            vec![
                ("oid", i(oid)),
                ("relname", Val::t(name)),
                ("relnamespace", i(ns)),
                ("relowner", i(OWNER)),
                ("relam", i(am)),
                ("relkind", Val::t(kind)),
                ("relnatts", Val::Int(natts)),
                ("relpersistence", Val::t("p")),
            ],
        );
        if kind != "i" {
            self.dep((C_CLASS, oid, 0), (C_NS, ns, 0), "n");
        }
        self.db.lock_rel(t, oid, 8)?;
        Ok(())
    }
    pub fn rel(&mut self, name: &[String], kinds: &str, mode: u8) -> Res<(Oid, Row)> {
        let sn = self.sn();
        if name.len() >= 2 && find_ns(self.db, sn, &name[name.len() - 2]).is_none() {
            return err("3F000", format!("schema \"{}\" does not exist", name[name.len() - 2]));
        }
        match find_rel(self.db, sn, name) {
            None => err("42P01", format!("relation \"{}\" does not exist", name.last().unwrap())),
            Some((o, r)) => {
                let k = get(&r, C_CLASS, "relkind");
                if !kinds.contains(k.text()) {
                    let w = match kinds {
                        "r" => "table",
                        "S" => "sequence",
                        "i" => "index",
                        "v" => "view",
                        _ => "table",
                    };
                    return err("42809", format!("\"{}\" is not a {}", name.last().unwrap(), w));
                }
                if o < 16384 && mode > 1 {
                    return err("42501", format!("permission denied: \"{}\" is a system catalog", name.last().unwrap()));
                }
                let t = self.top();
                self.db.lock_rel(t, o, mode)?;
                Ok((o, r))
            }
        }
    }
    pub fn atts(&self, rel: Oid) -> Vec<(usize, Row)> {
        let mut v = self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", i(rel))]);
        v.sort_by_key(|x| get(&x.1, C_ATTR, "attnum").int());
        v
    }
    pub fn att(&self, rel: Oid, name: &str) -> Res<(usize, Row)> {
        match self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", i(rel)), ("attname", Val::t(name)), ("attisdropped", Val::Bool(false))]).pop() {
            Some(x) => Ok(x),
            None => err("42703", format!("column \"{}\" of relation \"{}\" does not exist", name, relname(self.db, self.sn(), rel, false))),
        }
    }
    fn scope(&self, rel: Oid) -> Scope {
        let cols = table_cols(self.db, self.sn(), rel).into_iter().map(|x| (if x.3 { format!("\u{0}{}", x.2) } else { x.0 }, x.1)).collect();
        let alias = one(self.db, self.sn(), C_CLASS, "oid", i(rel)).map(|(_, r)| r[1].text().to_string()).unwrap_or_default();
        Scope { rtes: vec![Rte { alias, rel, cols }], ..Default::default() }
    }
    /// binds an expression over the columns of one table (or none)
    pub fn bind_on(&self, rel: Option<Oid>, e: &Expr) -> Res<TE> {
        let mut b = Binder::new(self.db, self.sn(), vec![]);
        if let Some(r) = rel {
            b.scopes.push(self.scope(r));
        }
        let t = b.bind(e)?;
        if !b.params.is_empty() {
            return err("42P02", "there is no parameter $1");
        }
        Ok(t)
    }
    pub fn bind_to(&self, rel: Option<Oid>, e: &Expr, t: Ty, c: super::expr::Ctx, what: &str) -> Res<TE> {
        let mut b = Binder::new(self.db, self.sn(), vec![]);
        if let Some(r) = rel {
            b.scopes.push(self.scope(r));
        }
        let te = b.bind(e)?;
        let from = te.t.oid;
        match b.coerce(te, t, c) {
            Err(Stop::Err(PgErr { code: "42846", .. })) => err("42804", format!("{} is of type {} but expression is of type {}", what, format_type(t.oid, -1), format_type(from, -1))),
            x => x,
        }
    }
    fn expr_cols(&self, te: &TE) -> Vec<i64> {
        let mut v = vec![];
        walk(te, &mut |x| {
            if let K::Col { lvl: 0, col, .. } = &x.k {
                let n = *col as i64 + 1;
                if !v.contains(&n) {
                    v.push(n);
                }
            }
        });
        v
    }
    fn seq_refs(&self, te: &TE) -> Vec<Oid> {
        let mut v = vec![];
        walk(te, &mut |x| {
            if let (K::Const(Val::Int(o)), REGCLASS) = (&x.k, x.t.oid) {
                v.push(*o as Oid);
            }
        });
        v
    }

    // ---- schemas
    pub fn create_schema(&mut self, name: &str, ine: bool) -> Res<()> {
        if name.starts_with("pg_") {
            return err("42939", format!("unacceptable schema name \"{}\"", name));
        }
        let t = self.top();
        if self.db.cat_unique(C_NS, t, &[("nspname", Val::t(name))])? {
            if ine {
                return Ok(());
            }
            return err("42P06", format!("schema \"{}\" already exists", name));
        }
        let o = self.db.new_oid();
        let x = self.xid;
        self.db.cat_put(x, C_NS, vec![("oid", i(o)), ("nspname", Val::t(name)), ("nspowner", i(OWNER))]);
        Ok(())
    }
    pub fn drop_schema(&mut self, names: &[String], ie: bool, cascade: bool) -> Res<()> {
        let mut objs = vec![];
        for n in names {
            let sn = self.sn();
            match find_ns(self.db, sn, n) {
                Some(o) => {
                    if o == NS_CATALOG || o == NS_INFO {
                        return err("2BP01", format!("cannot drop schema {} because it is required by the database system", n));
                    }
                    let t = self.top();
                    self.db.lock(t, 1, o as u64, 8)?;
                    objs.push((C_NS, o, 0));
                }
                None if ie => {}
                None => return err("3F000", format!("schema \"{}\" does not exist", n)),
            }
        }
        self.drop_objects(objs, cascade)
    }
    pub fn rename_schema(&mut self, a: &str, b: &str) -> Res<()> {
        let t = self.top();
        let sn = self.sn();
        let (ix, _) = match one(self.db, sn, C_NS, "nspname", Val::t(a)) {
            Some(x) => x,
            None => return err("3F000", format!("schema \"{}\" does not exist", a)),
        };
        if self.db.cat_unique(C_NS, t, &[("nspname", Val::t(b))])? {
            return err("42P06", format!("schema \"{}\" already exists", b));
        }
        let x = self.xid;
        self.db.cat_upd(x, C_NS, ix, vec![("nspname", Val::t(b))])
    }

    // ---- dependencies
    fn describe(&self, o: Obj) -> String {
        let sn = self.sn();
        match o.0 {
            C_CLASS => {
                let k = one(self.db, sn, C_CLASS, "oid", i(o.1)).map(|(_, r)| get(&r, C_CLASS, "relkind").text().to_string()).unwrap_or_default();
                let w = match k.as_str() {
                    "i" => "index",
                    "S" => "sequence",
                    "v" => "view",
                    _ => "table",
                };
                if o.2 > 0 {
                    format!("column {} of table {}", colname(self.db, sn, o.1, o.2), relname(self.db, sn, o.1, false))
                } else {
                    format!("{} {}", w, relname(self.db, sn, o.1, false))
                }
            }
            C_CON => format!("constraint {}", one(self.db, sn, C_CON, "oid", i(o.1)).map(|(_, r)| r[1].text().to_string()).unwrap_or_default()),
            C_NS => format!("schema {}", nsname(self.db, sn, o.1)),
            C_PROC => "function".into(),
            C_DEF => "default value".into(),
            _ => "object".into(),
        }
    }
    pub fn drop_objects(&mut self, start: Vec<Obj>, cascade: bool) -> Res<()> {
        let mut set: Vec<Obj> = vec![];
        let mut blocked: Vec<(Obj, Obj)> = vec![];
        let mut todo = start.clone();
        let deps = self.db.cat_rows(C_DEP, self.sn());
        let covers = |a: Obj, b: Obj| a.0 == b.0 && a.1 == b.1 && (a.2 == 0 || a.2 == b.2);
        while let Some(o) = todo.pop() {
            if set.iter().any(|s| covers(*s, o)) {
                continue;
            }
            set.push(o);
            // parts of an object that internally belong to another cannot be dropped alone
            if start.contains(&o) {
                for (_, d) in &deps {
                    if d[0].oid() == o.0 && d[1].oid() == o.1 && d[6].text() == "i" && d[2].int() == 0 {
                        let owner = (d[3].oid(), d[4].oid(), d[5].int());
                        if !start.iter().any(|s| covers(*s, owner)) {
                            return err("2BP01", format!("cannot drop {} because {} requires it", self.describe(o), self.describe(owner)));
                        }
                    }
                }
            }
            for (_, d) in &deps {
                let refo = (d[3].oid(), d[4].oid(), d[5].int());
                if !covers(o, refo) {
                    continue;
                }
                let dep = (d[0].oid(), d[1].oid(), d[2].int());
                if set.iter().any(|s| covers(*s, dep)) {
                    continue;
                }
                match d[6].text() {
                    "a" | "i" => todo.push(dep),
                    _ => {
                        if cascade {
                            todo.push(dep);
                        } else {
                            blocked.push((dep, o));
                        }
                    }
                }
            }
        }
        // objects reached by another path are not obstacles; a rule goes with its view
        for (d, o) in blocked {
            if set.iter().any(|s| covers(*s, d)) {
                continue;
            }
            return err("2BP01", format!("cannot drop {} because other objects depend on it", self.describe(if start.contains(&o) { o } else { start[0] })));
        }
        if cascade {
            // dropping a rule drops its view
            let mut extra = vec![];
            for o in &set {
                if o.0 == C_REWRITE {
                    if let Some((_, r)) = one(self.db, self.sn(), C_REWRITE, "oid", i(o.1)) {
                        let v = (C_CLASS, r[2].oid(), 0);
                        if !set.contains(&v) {
                            extra.push(v);
                        }
                    }
                }
            }
            if !extra.is_empty() {
                let mut s = start.clone();
                s.extend(extra);
                return self.drop_objects(s, true);
            }
        }
        let t = self.top();
        for o in &set {
            if o.0 == C_CLASS && o.2 == 0 {
                self.db.lock_rel(t, o.1, 8)?;
            }
            if o.0 == C_CON {
                if let Some((_, r)) = one(self.db, self.sn(), C_CON, "oid", i(o.1)) {
                    for k in ["conrelid", "confrelid"] {
                        let rel = get(&r, C_CON, k).oid();
                        if rel != 0 {
                            self.db.lock_rel(t, rel, 8)?;
                        }
                    }
                }
            }
        }
        for o in set {
            self.remove(o)?;
        }
        self.dirty();
        Ok(())
    }
    fn del_where(&mut self, c: Oid, keys: &[(&str, Val)]) -> Res<()> {
        let x = self.xid;
        for (ix, _) in self.db.cat_find(c, self.sn(), keys) {
            self.db.cat_del(x, c, ix)?;
        }
        Ok(())
    }
    fn remove(&mut self, o: Obj) -> Res<()> {
        match o.0 {
            C_NS => self.del_where(C_NS, &[("oid", i(o.1))])?,
            C_CLASS if o.2 > 0 => {
                let x = self.xid;
                if let Some((ix, _)) = self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", i(o.1)), ("attnum", Val::Int(o.2))]).pop() {
                    self.db.cat_upd(x, C_ATTR, ix, vec![("attisdropped", Val::Bool(true)), ("attname", Val::Text(format!("........pg.dropped.{}........", o.2))), ("attnotnull", Val::Bool(false)), ("atttypid", i(0))])?;
                }
                self.del_where(C_DEF, &[("adrelid", i(o.1)), ("adnum", Val::Int(o.2))])?;
            }
            C_CLASS => {
                self.del_where(C_CLASS, &[("oid", i(o.1))])?;
                self.del_where(C_ATTR, &[("attrelid", i(o.1))])?;
                self.del_where(C_INDEX, &[("indexrelid", i(o.1))])?;
                self.del_where(C_SEQ, &[("seqrelid", i(o.1))])?;
            }
            C_CON => self.del_where(C_CON, &[("oid", i(o.1))])?,
            C_DEF => {
                if let Some((_, r)) = one(self.db, self.sn(), C_DEF, "oid", i(o.1)) {
                    let x = self.xid;
                    if let Some((ix, _)) = self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", r[1].clone()), ("attnum", r[2].clone())]).pop() {
                        self.db.cat_upd(x, C_ATTR, ix, vec![("atthasdef", Val::Bool(false))])?;
                    }
                }
                self.del_where(C_DEF, &[("oid", i(o.1))])?
            }
            C_PROC => self.del_where(C_PROC, &[("oid", i(o.1))])?,
            C_REWRITE => self.del_where(C_REWRITE, &[("oid", i(o.1))])?,
            _ => {}
        }
        let mut k = vec![("classid", i(o.0)), ("objid", i(o.1))];
        let mut k2 = vec![("refclassid", i(o.0)), ("refobjid", i(o.1))];
        if o.2 > 0 {
            k.push(("objsubid", Val::Int(o.2)));
            k2.push(("refobjsubid", Val::Int(o.2)));
        }
        self.del_where(C_DEP, &k)?;
        self.del_where(C_DEP, &k2)
    }

    // ---- sequences
    pub fn create_seq(&mut self, name: &[String], o: &SeqOpts, ine: bool, owned: Option<(Oid, i64)>) -> Res<Oid> {
        let (ns, n) = self.ns_of(name)?;
        if ine && find_rel(self.db, self.sn(), name).is_some() {
            return Ok(0);
        }
        let t = match &o.ty {
            Some(t) => resolve_type(self.db, self.sn(), t)?.oid,
            None => INT8,
        };
        if !is_int(t) {
            return err("22023", "sequence type must be smallint, integer, or bigint");
        }
        let inc = o.inc.unwrap_or(1);
        if inc == 0 {
            return err("22023", "INCREMENT must not be zero");
        }
        let max = match o.max {
            Some(Some(v)) => v,
            _ => {
                if inc > 0 {
                    int_max(t)
                } else {
                    -1
                }
            }
        };
        let min = match o.min {
            Some(Some(v)) => v,
            _ => {
                if inc > 0 {
                    1
                } else {
                    int_min(t)
                }
            }
        };
        if max > int_max(t) || max < int_min(t) {
            return err("22023", format!("MAXVALUE ({}) is out of range for sequence data type {}", max, format_type(t, -1)));
        }
        if min > int_max(t) || min < int_min(t) {
            return err("22023", format!("MINVALUE ({}) is out of range for sequence data type {}", min, format_type(t, -1)));
        }
        if min >= max {
            return err("22023", format!("MINVALUE ({}) must be less than MAXVALUE ({})", min, max));
        }
        let start = o.start.unwrap_or(if inc > 0 { min } else { max });
        if start < min {
            return err("22023", format!("START value ({}) cannot be less than MINVALUE ({})", start, min));
        }
        if start > max {
            return err("22023", format!("START value ({}) cannot be greater than MAXVALUE ({})", start, max));
        }
        let cache = o.cache.unwrap_or(1);
        if cache <= 0 {
            return err("22023", format!("CACHE ({}) must be greater than zero", cache));
        }
        let oid = self.db.new_oid();
        self.new_rel(oid, &n, ns, "S", 0, 3)?;
        let x = self.xid;
        self.db.cat_put(
            x,
            C_SEQ,
            vec![
                ("seqrelid", i(oid)),
                ("seqtypid", i(t)),
                ("seqstart", Val::Int(start)),
                ("seqincrement", Val::Int(inc)),
                ("seqmax", Val::Int(max)),
                ("seqmin", Val::Int(min)),
                ("seqcache", Val::Int(cache)),
                ("seqcycle", Val::Bool(o.cycle.unwrap_or(false))),
            ],
        );
        self.db.seqs.insert(oid, SeqState { last: start, called: false });
        if let Some((r, c)) = owned {
            self.dep((C_CLASS, oid, 0), (C_CLASS, r, c), "a");
        }
        self.own_seq(oid, &o.owned)?;
        self.dirty();
        Ok(oid)
    }
    fn own_seq(&mut self, oid: Oid, owned: &Option<Vec<String>>) -> Res<()> {
        if let Some(v) = owned {
            self.del_where(C_DEP, &[("classid", i(C_CLASS)), ("objid", i(oid)), ("refclassid", i(C_CLASS)), ("deptype", Val::t("a"))])?;
            if !v.is_empty() {
                if v.len() < 2 {
                    return err("42601", "invalid OWNED BY option");
                }
                let (r, row) = self.rel(&v[..v.len() - 1].to_vec(), "r", 4)?;
                let (_, s) = one(self.db, self.sn(), C_CLASS, "oid", i(oid)).unwrap();
                if get(&row, C_CLASS, "relnamespace").oid() != get(&s, C_CLASS, "relnamespace").oid() {
                    return err("55000", "sequence must be in same schema as table it is linked to");
                }
                let (_, a) = self.att(r, v.last().unwrap())?;
                let n = get(&a, C_ATTR, "attnum").int();
                self.dep((C_CLASS, oid, 0), (C_CLASS, r, n), "a");
            }
        }
        Ok(())
    }
    pub fn alter_seq(&mut self, name: &[String], o: &SeqOpts) -> Res<()> {
        let (oid, _) = self.rel(name, "S", 8)?;
        let (ix, r) = one(self.db, self.sn(), C_SEQ, "seqrelid", i(oid)).unwrap();
        let mut v: Vec<(&str, Val)> = vec![];
        let mut t = get(&r, C_SEQ, "seqtypid").oid();
        if let Some(tn) = &o.ty {
            let nt = resolve_type(self.db, self.sn(), tn)?.oid;
            if !is_int(nt) {
                return err("22023", "sequence type must be smallint, integer, or bigint");
            }
            if get(&r, C_SEQ, "seqmax").int() == int_max(t) {
                v.push(("seqmax", Val::Int(int_max(nt))));
            }
            if get(&r, C_SEQ, "seqmin").int() == int_min(t) {
                v.push(("seqmin", Val::Int(int_min(nt))));
            }
            t = nt;
            v.push(("seqtypid", i(t)));
        }
        if let Some(x) = o.inc {
            v.push(("seqincrement", Val::Int(x)));
        }
        if let Some(m) = o.max {
            v.push(("seqmax", Val::Int(m.unwrap_or(int_max(t)))));
        }
        if let Some(m) = o.min {
            v.push(("seqmin", Val::Int(m.unwrap_or(1))));
        }
        if let Some(x) = o.start {
            v.push(("seqstart", Val::Int(x)));
        }
        if let Some(x) = o.cache {
            v.push(("seqcache", Val::Int(x)));
        }
        if let Some(x) = o.cycle {
            v.push(("seqcycle", Val::Bool(x)));
        }
        let x = self.xid;
        self.db.cat_upd(x, C_SEQ, ix, v)?;
        if let Some(r) = o.restart {
            let last = r.unwrap_or(0);
            self.db.seqs.insert(oid, SeqState { last, called: false });
        }
        self.own_seq(oid, &o.owned)?;
        self.dirty();
        Ok(())
    }

    // ---- tables
    fn free_name(&self, base: &str, ns: Oid) -> String {
        let mut n = base.to_string();
        let mut k = 0;
        while !self.db.cat_find(C_CLASS, self.sn(), &[("relname", Val::t(&n)), ("relnamespace", i(ns))]).is_empty() {
            k += 1;
            n = format!("{}{}", base, k);
        }
        n
    }
    fn free_con(&self, base: &str, rel: Oid) -> String {
        let mut n = base.to_string();
        let mut k = 0;
        while !self.db.cat_find(C_CON, self.sn(), &[("conname", Val::t(&n)), ("conrelid", i(rel))]).is_empty() {
            k += 1;
            n = format!("{}{}", base, k);
        }
        n
    }
    fn add_att(&mut self, rel: Oid, c: &ColDef, num: i64) -> Res<()> {
        if self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", i(rel)), ("attname", Val::t(&c.name)), ("attisdropped", Val::Bool(false))]).len() > 0 {
            return err("42701", format!("column \"{}\" specified more than once", c.name));
        }
        if ["tableoid", "cmax", "xmax", "cmin", "xmin", "ctid"].contains(&c.name.as_str()) {
            return err("42701", format!("column name \"{}\" conflicts with a system column name", c.name));
        }
        let t = resolve_type(self.db, self.sn(), &c.ty)?;
        if [VOID, TRIGGER, RECORD, UNKNOWN].contains(&t.oid) || c.ty.setof {
            return err("42P16", format!("column \"{}\" has pseudo-type {}", c.name, format_type(t.oid, -1)));
        }
        let x = self.xid;
        let serial = c.ty.name[0].starts_with("serial");
        let nn = serial || c.cons.iter().any(|k| matches!(k.kind, ConKind::NotNull | ConKind::Primary(_) | ConKind::Identity(_)));
        if nn && c.cons.iter().any(|k| matches!(k.kind, ConKind::Null)) {
            return err("42601", format!("conflicting NULL/NOT NULL declarations for column \"{}\"", c.name));
        }
        self.db.cat_put(
            x,
            C_ATTR,
            vec![
                ("attrelid", i(rel)),
                ("attname", Val::t(&c.name)),
                ("atttypid", i(t.oid)),
                ("attnum", Val::Int(num)),
                ("atttypmod", Val::Int(t.m as i64)),
                ("attnotnull", Val::Bool(nn)),
                ("attndims", Val::Int(is_array(t.oid) as i64)),
            ],
        );
        Ok(())
    }
    fn set_default(&mut self, rel: Oid, col: &str, e: Option<&Expr>) -> Res<()> {
        let (_, a) = self.att(rel, col)?;
        let n = get(&a, C_ATTR, "attnum").int();
        let old = self.db.cat_find(C_DEF, self.sn(), &[("adrelid", i(rel)), ("adnum", Val::Int(n))]);
        for (_, r) in old {
            self.remove((C_DEF, r[0].oid(), 0))?;
        }
        let e = match e {
            None => return Ok(()),
            Some(e) => e,
        };
        let t = Ty { oid: a[2].oid(), m: get(&a, C_ATTR, "atttypmod").int() as i32 };
        let te = {
            let mut b = Binder::new(self.db, self.sn(), vec![]);
            match b.bind(e) {
                Err(Stop::Err(PgErr { code: "42703", .. })) => return err("0A000", "cannot use column reference in DEFAULT expression"),
                Err(x) => return Err(x),
                Ok(_) => self.bind_to(None, e, t, super::expr::Ctx::Assign, &format!("column \"{}\"", col))?,
            }
        };
        // a literal of the column's type is checked when it is declared
        if let K::Const(Val::Null) = te.k {
            return Ok(());
        }
        let te = TE { t: te.t, k: te.k };
        let text = deparse(self.db, self.sn(), &te, false);
        let oid = self.db.new_oid();
        let x = self.xid;
        self.db.cat_put(x, C_DEF, vec![("oid", i(oid)), ("adrelid", i(rel)), ("adnum", Val::Int(n)), ("adbin", Val::Text(text))]);
        let (ix, _) = self.att(rel, col)?;
        self.db.cat_upd(x, C_ATTR, ix, vec![("atthasdef", Val::Bool(true))])?;
        self.dep((C_DEF, oid, 0), (C_CLASS, rel, n), "a");
        for s in self.seq_refs(&te) {
            self.dep((C_DEF, oid, 0), (C_CLASS, s, 0), "n");
        }
        Ok(())
    }
    fn col_extras(&mut self, rel: Oid, rname: &str, ns: Oid, c: &ColDef, num: i64) -> Res<()> {
        let serial = c.ty.name[0].starts_with("serial");
        let ident = c.cons.iter().any(|k| matches!(k.kind, ConKind::Identity(_)));
        let mut ndef = 0;
        for k in &c.cons {
            if let ConKind::Default(e) = &k.kind {
                ndef += 1;
                if ndef > 1 || serial {
                    return err("42601", format!("multiple default values specified for column \"{}\" of table \"{}\"", c.name, rname));
                }
                self.set_default(rel, &c.name, Some(e))?;
            }
        }
        if serial || ident {
            let sname = self.free_name(&format!("{}_{}_seq", rname, c.name), ns);
            let q = vec![nsname(self.db, self.sn(), ns), sname.clone()];
            let t = if c.ty.name[0] == "serial8" { INT8 } else { self.att(rel, &c.name)?.1[2].oid() };
            let o = SeqOpts {
                ty: Some(TypeName { name: vec![typname(t)], mods: vec![], array: false, setof: false }),
                inc: None,
                min: None,
                max: None,
                start: None,
                restart: None,
                cache: None,
                cycle: None,
                owned: None,
            };
            self.create_seq(&q, &o, false, Some((rel, num)))?;
            let lit = format!("{}.{}", quote_ident(&q[0]), quote_ident(&q[1]));
            let e = Expr::Func {
                name: vec!["nextval".into()],
                args: vec![Expr::Cast(Box::new(Expr::Str(lit)), TypeName { name: vec!["regclass".into()], mods: vec![], array: false, setof: false })],
                star: false,
                distinct: false,
                order: vec![],
                filter: None,
            };
            self.set_default(rel, &c.name, Some(&e))?;
        }
        Ok(())
    }
    pub fn create_table(&mut self, name: &[String], cols: &[ColDef], cons: &[Con], ine: bool) -> Res<()> {
        let (ns, n) = self.ns_of(name)?;
        if ine && find_rel(self.db, self.sn(), name).is_some() {
            return Ok(());
        }
        let oid = self.db.new_oid();
        self.new_rel(oid, &n, ns, "r", AM_HEAP, cols.len() as i64)?;
        for (k, c) in cols.iter().enumerate() {
            self.add_att(oid, c, k as i64 + 1)?;
        }
        for (k, c) in cols.iter().enumerate() {
            self.col_extras(oid, &n, ns, c, k as i64 + 1)?;
        }
        // primary keys first, as the server does, then checks, unique constraints and references
        let mut all: Vec<&Con> = cols.iter().flat_map(|c| c.cons.iter()).chain(cons.iter()).collect();
        all.sort_by_key(|c| match c.kind {
            ConKind::Primary(_) => 0,
            ConKind::Unique(_) => 1,
            ConKind::Check(_) => 2,
            _ => 3,
        });
        for c in all {
            if matches!(c.kind, ConKind::Primary(_) | ConKind::Unique(_) | ConKind::Check(_) | ConKind::Fk(..)) {
                self.add_con(oid, c)?;
            }
        }
        self.dirty();
        Ok(())
    }
    fn make_index(&mut self, x: NewIndex) -> Res<Oid> {
        let oid = self.db.new_oid();
        self.new_rel(oid, &x.name, x.ns, "i", x.am, x.keys.len() as i64)?;
        let xid = self.xid;
        self.db.cat_put(
            xid,
            C_INDEX,
            vec![
                ("indexrelid", i(oid)),
                ("indrelid", i(x.rel)),
                ("indnatts", Val::Int(x.keys.len() as i64)),
                ("indnkeyatts", Val::Int(x.keys.len() as i64)),
                ("indisunique", Val::Bool(x.unique)),
                ("indisprimary", Val::Bool(x.primary)),
                ("indisvalid", Val::Bool(true)),
                ("indkey", ints(&x.keys)),
                ("indoption", ints(&x.opts)),
                ("indexprs", x.exprs.map(Val::Text).unwrap_or(Val::Null)),
                ("indpred", x.pred.map(Val::Text).unwrap_or(Val::Null)),
            ],
        );
        match x.con {
            Some(c) => self.dep((C_CLASS, oid, 0), (C_CON, c, 0), "i"),
            None => {
                let mut cols: Vec<i64> = x.keys.iter().copied().filter(|k| *k > 0).collect();
                cols.extend(x.expr_cols);
                cols.sort();
                cols.dedup();
                if cols.is_empty() {
                    self.dep((C_CLASS, oid, 0), (C_CLASS, x.rel, 0), "a");
                }
                for c in cols {
                    self.dep((C_CLASS, oid, 0), (C_CLASS, x.rel, c), "a");
                }
            }
        }
        if x.unique {
            self.verify_unique(x.rel, oid)?;
        }
        Ok(oid)
    }
    fn btree_ok(&self, t: Oid) -> bool {
        t != JSON && t != NODETREE && t != VOID
    }
    pub fn add_con(&mut self, rel: Oid, c: &Con) -> Res<()> {
        let sn = self.sn();
        let (_, cr) = one(self.db, sn, C_CLASS, "oid", i(rel)).unwrap();
        let rname = cr[1].text().to_string();
        let ns = get(&cr, C_CLASS, "relnamespace").oid();
        let deferrable = c.deferrable.unwrap_or(c.deferred == Some(true));
        let deferred = c.deferred.unwrap_or(false);
        if c.deferrable == Some(false) && c.deferred == Some(true) {
            return err("42601", "constraint declared INITIALLY DEFERRED must be DEFERRABLE");
        }
        let x = self.xid;
        let t = self.top();
        let oid = self.db.new_oid();
        let mut row: Vec<(&str, Val)> = vec![
            ("oid", i(oid)),
            ("connamespace", i(ns)),
            ("condeferrable", Val::Bool(deferrable)),
            ("condeferred", Val::Bool(deferred)),
            ("convalidated", Val::Bool(!c.not_valid)),
            ("conrelid", i(rel)),
            ("conislocal", Val::Bool(true)),
        ];
        let dup = |s: &Self, n: &str| -> Res<()> {
            if s.db.cat_unique(C_CON, t, &[("conrelid", i(rel)), ("conname", Val::t(n))])? {
                return err("42710", format!("constraint \"{}\" for relation \"{}\" already exists", n, rname));
            }
            Ok(())
        };
        match &c.kind {
            ConKind::Primary(cols) | ConKind::Unique(cols) => {
                let pk = matches!(c.kind, ConKind::Primary(_));
                let mut keys = vec![];
                for n in cols {
                    let (_, a) = match self.att(rel, n) {
                        Ok(a) => a,
                        Err(_) => return err("42703", format!("column \"{}\" named in key does not exist", n)),
                    };
                    let k = get(&a, C_ATTR, "attnum").int();
                    if keys.contains(&k) {
                        return err("42701", format!("column \"{}\" appears twice in {} constraint", n, if pk { "primary key" } else { "unique" }));
                    }
                    if !self.btree_ok(a[2].oid()) {
                        return err("42704", format!("data type {} has no default operator class for access method \"btree\"", format_type(a[2].oid(), -1)));
                    }
                    keys.push(k);
                }
                if pk && !self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("contype", Val::t("p"))]).is_empty() {
                    return err("42P16", format!("multiple primary keys for table \"{}\" are not allowed", rname));
                }
                let name = match &c.name {
                    Some(n) => n.clone(),
                    None => self.free_name(&if pk { format!("{}_pkey", rname) } else { format!("{}_{}_key", rname, cols.join("_")) }, ns),
                };
                if pk {
                    for n in cols {
                        self.set_not_null(rel, n, true)?;
                    }
                }
                dup(self, &name)?;
                row.push(("conname", Val::t(&name)));
                row.push(("contype", Val::t(if pk { "p" } else { "u" })));
                row.push(("conkey", ints(&keys)));
                let ind = self.make_index(NewIndex {
                    rel,
                    name: name.clone(),
                    ns,
                    am: AM_BTREE,
                    unique: true,
                    primary: pk,
                    opts: vec![0; keys.len()],
                    keys: keys.clone(),
                    exprs: None,
                    pred: None,
                    con: Some(oid),
                    expr_cols: vec![],
                })?;
                row.push(("conindid", i(ind)));
                self.db.cat_put(x, C_CON, row);
                for k in keys {
                    self.dep((C_CON, oid, 0), (C_CLASS, rel, k), "a");
                }
            }
            ConKind::Check(e) => {
                if c.deferrable == Some(true) || c.deferred == Some(true) {
                    return err("0A000", "CHECK constraints cannot be marked DEFERRABLE");
                }
                let te = self.bind_to(Some(rel), e, ty(BOOL), super::expr::Ctx::Implicit, "CHECK")?;
                if has_sub(&te) {
                    return err("0A000", "cannot use subquery in check constraint");
                }
                let cols = self.expr_cols(&te);
                let text = deparse(self.db, self.sn(), &te, false);
                let name = match &c.name {
                    Some(n) => n.clone(),
                    None => self.free_con(
                        &if cols.len() == 1 { format!("{}_{}_check", rname, colname(self.db, self.sn(), rel, cols[0])) } else { format!("{}_check", rname) },
                        rel,
                    ),
                };
                dup(self, &name)?;
                row.push(("conname", Val::t(&name)));
                row.push(("contype", Val::t("c")));
                row.push(("conkey", ints(&cols)));
                row.push(("conbin", Val::Text(text)));
                self.db.cat_put(x, C_CON, row);
                if cols.is_empty() {
                    self.dep((C_CON, oid, 0), (C_CLASS, rel, 0), "a");
                }
                for k in cols {
                    self.dep((C_CON, oid, 0), (C_CLASS, rel, k), "a");
                }
                if !c.not_valid {
                    self.verify_check(rel, &te, &name)?;
                }
            }
            ConKind::Fk(cols, f) => {
                let (frel, fr) = if find_rel(self.db, self.sn(), &f.table).map(|x| x.0) == Some(rel) { (rel, cr.clone()) } else { self.rel(&f.table, "r", 6)? };
                self.db.lock_rel(t, rel, 6)?;
                let mut keys = vec![];
                for n in cols {
                    match self.att(rel, n) {
                        Ok((_, a)) => keys.push(get(&a, C_ATTR, "attnum").int()),
                        Err(_) => return err("42703", format!("column \"{}\" referenced in foreign key constraint does not exist", n)),
                    }
                }
                let mut fkeys = vec![];
                if f.cols.is_empty() {
                    match self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(frel)), ("contype", Val::t("p"))]).pop() {
                        None => return err("42704", format!("there is no primary key for referenced table \"{}\"", fr[1].text())),
                        Some((_, r)) => fkeys = arr(&get(&r, C_CON, "conkey")),
                    }
                } else {
                    for n in &f.cols {
                        match self.att(frel, n) {
                            Ok((_, a)) => fkeys.push(get(&a, C_ATTR, "attnum").int()),
                            Err(_) => return err("42703", format!("column \"{}\" referenced in foreign key constraint does not exist", n)),
                        }
                    }
                }
                if keys.len() != fkeys.len() {
                    return err("42830", "number of referencing and referenced columns for foreign key disagree");
                }
                let mut set = fkeys.clone();
                set.sort();
                let mut ind = None;
                let mut deferr = false;
                for (_, r) in self.db.cat_find(C_INDEX, self.sn(), &[("indrelid", i(frel)), ("indisunique", Val::Bool(true))]) {
                    let mut k = arr(&get(&r, C_INDEX, "indkey"));
                    k.sort();
                    if k == set && get(&r, C_INDEX, "indpred").is_null() {
                        let d = self.db.cat_find(C_CON, self.sn(), &[("conindid", r[0].clone()), ("contype", Val::t("p"))]).pop().or(self.db.cat_find(C_CON, self.sn(), &[("conindid", r[0].clone()), ("contype", Val::t("u"))]).pop());
                        if d.map_or(false, |(_, c)| get(&c, C_CON, "condeferrable").bool()) {
                            deferr = true;
                            continue;
                        }
                        let primary = get(&r, C_INDEX, "indisprimary").bool();
                        if ind.is_none() || primary {
                            ind = Some(r[0].oid());
                        }
                    }
                }
                let ind = match ind {
                    Some(x) => x,
                    None if deferr => return err("55000", format!("cannot use a deferrable unique constraint for referenced table \"{}\"", fr[1].text())),
                    None => return err("42830", format!("there is no unique constraint matching given keys for referenced table \"{}\"", fr[1].text())),
                };
                for (a, b) in keys.iter().zip(&fkeys) {
                    let at = self.att(rel, &colname(self.db, self.sn(), rel, *a))?.1[2].oid();
                    let bt = self.att(frel, &colname(self.db, self.sn(), frel, *b))?.1[2].oid();
                    if at != bt && !(category(at) == category(bt) && category(at) != 'U' && (is_num(at) == is_num(bt))) {
                        return err("42804", format!("foreign key constraint cannot be implemented: key columns are of incompatible types: {} and {}", format_type(at, -1), format_type(bt, -1)));
                    }
                }
                let name = match &c.name {
                    Some(n) => n.clone(),
                    None => self.free_con(&format!("{}_{}_fkey", rname, cols.join("_")), rel),
                };
                dup(self, &name)?;
                row.push(("conname", Val::t(&name)));
                row.push(("contype", Val::t("f")));
                row.push(("conkey", ints(&keys)));
                row.push(("confkey", ints(&fkeys)));
                row.push(("confrelid", i(frel)));
                row.push(("conindid", i(ind)));
                row.push(("confupdtype", Val::Text(f.upd.to_string())));
                row.push(("confdeltype", Val::Text(f.del.to_string())));
                row.push(("confmatchtype", Val::Text(f.mtch.to_string())));
                self.db.cat_put(x, C_CON, row);
                for k in &keys {
                    self.dep((C_CON, oid, 0), (C_CLASS, rel, *k), "a");
                }
                for k in &fkeys {
                    self.dep((C_CON, oid, 0), (C_CLASS, frel, *k), "n");
                }
                self.dep((C_CON, oid, 0), (C_CLASS, ind, 0), "n");
                if !c.not_valid {
                    self.verify_fk(oid)?;
                }
            }
            _ => {}
        }
        self.dirty();
        Ok(())
    }
    fn set_not_null(&mut self, rel: Oid, col: &str, nn: bool) -> Res<()> {
        let (ix, a) = self.att(rel, col)?;
        if get(&a, C_ATTR, "attnotnull").bool() == nn {
            return Ok(());
        }
        let n = get(&a, C_ATTR, "attnum").int();
        if nn {
            for (_, r) in self.db.scan(rel, self.sn()) {
                if r.get(n as usize - 1).map_or(true, |v| v.is_null()) {
                    return err("23502", format!("column \"{}\" of relation \"{}\" contains null values", col, relname(self.db, self.sn(), rel, false)));
                }
            }
        } else {
            for (_, r) in self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("contype", Val::t("p"))]) {
                if arr(&get(&r, C_CON, "conkey")).contains(&n) {
                    return err("42P16", format!("column \"{}\" is in a primary key", col));
                }
            }
        }
        let x = self.xid;
        self.db.cat_upd(x, C_ATTR, ix, vec![("attnotnull", Val::Bool(nn))])
    }
    pub fn alter_table(&mut self, name: &[String], ie: bool, acts: &[Alter]) -> Res<()> {
        let (rel, row) = match self.rel(name, "rvi", 8) {
            Err(Stop::Err(e)) if ie && e.code == "42P01" => {
                let _ = e;
                return Ok(());
            }
            x => x?,
        };
        let kind = get(&row, C_CLASS, "relkind").text().to_string();
        if kind != "r" && !acts.iter().all(|a| matches!(a, Alter::RenameTo(_) | Alter::Owner | Alter::SetSchema(_))) {
            return err("42809", format!("\"{}\" is not a table", name.last().unwrap()));
        }
        let rname = row[1].text().to_string();
        let ns = get(&row, C_CLASS, "relnamespace").oid();
        let x = self.xid;
        for a in acts {
            match a {
                Alter::AddColumn(ine, c) => {
                    if *ine && self.att(rel, &c.name).is_ok() {
                        continue;
                    }
                    if self.att(rel, &c.name).is_ok() {
                        return err("42701", format!("column \"{}\" of relation \"{}\" already exists", c.name, rname));
                    }
                    let num = self.atts(rel).len() as i64 + 1;
                    self.add_att(rel, c, num)?;
                    self.col_extras(rel, &rname, ns, c, num)?;
                    // existing rows take the default
                    let def = self.db.cat_find(C_DEF, self.sn(), &[("adrelid", i(rel)), ("adnum", Val::Int(num))]).pop();
                    let nn = get(&self.att(rel, &c.name)?.1, C_ATTR, "attnotnull").bool();
                    let rows = self.db.scan(rel, self.sn());
                    if !rows.is_empty() {
                        let te = match def {
                            Some((_, d)) => {
                                let at = self.att(rel, &c.name)?.1;
                                let t = Ty { oid: at[2].oid(), m: get(&at, C_ATTR, "atttypmod").int() as i32 };
                                let e = super::parse::parse_expr(d[3].text()).or_else(syn)?;
                                Some(self.bind_to(None, &e, t, super::expr::Ctx::Assign, "column")?)
                            }
                            None => None,
                        };
                        for (ix, r) in rows {
                            let v = match &te {
                                Some(t) => self.eval(t)?,
                                None => Val::Null,
                            };
                            if nn && v.is_null() {
                                return err("23502", format!("column \"{}\" of relation \"{}\" contains null values", c.name, rname));
                            }
                            let mut nr = (*r).clone();
                            nr.resize(num as usize - 1, Val::Null);
                            nr.push(v);
                            self.db.cat_del(x, rel, ix)?;
                            self.db.insert(rel, x, nr);
                        }
                    }
                    for k in &c.cons {
                        if matches!(k.kind, ConKind::Primary(_) | ConKind::Unique(_) | ConKind::Check(_) | ConKind::Fk(..)) {
                            self.add_con(rel, k)?;
                        }
                    }
                }
                Alter::DropColumn { name, if_exists, cascade } => {
                    let (_, a) = match self.att(rel, name) {
                        Ok(a) => a,
                        Err(_) if *if_exists => continue,
                        Err(e) => return Err(e),
                    };
                    let n = get(&a, C_ATTR, "attnum").int();
                    self.drop_objects(vec![(C_CLASS, rel, n)], *cascade)?;
                }
                Alter::Type { name, ty: tn, using } => self.alter_type(rel, name, tn, using.as_ref())?,
                Alter::SetDefault(c, e) => self.set_default(rel, c, e.as_ref())?,
                Alter::SetNotNull(c, nn) => self.set_not_null(rel, c, *nn)?,
                Alter::AddCon(c) => self.add_con(rel, c)?,
                Alter::DropCon { name, if_exists, cascade } => match self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("conname", Val::t(name))]).pop() {
                    None if *if_exists => {}
                    None => return err("42704", format!("constraint \"{}\" of relation \"{}\" does not exist", name, rname)),
                    Some((_, r)) => self.drop_objects(vec![(C_CON, r[0].oid(), 0)], *cascade)?,
                },
                Alter::AlterCon { name, deferrable, deferred } => match self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("conname", Val::t(name))]).pop() {
                    None => return err("42704", format!("constraint \"{}\" of relation \"{}\" does not exist", name, rname)),
                    Some((ix, r)) => {
                        if get(&r, C_CON, "contype").text() != "f" {
                            return err("42809", format!("constraint \"{}\" of relation \"{}\" is not a foreign key constraint", name, rname));
                        }
                        if *deferrable == Some(false) && *deferred == Some(true) {
                            return err("42601", "constraint declared INITIALLY DEFERRED must be DEFERRABLE");
                        }
                        // what is not named takes its default: NOT DEFERRABLE INITIALLY IMMEDIATE
                        let d2 = deferred.unwrap_or(false);
                        let d1 = deferrable.unwrap_or(d2);
                        self.db.cat_upd(x, C_CON, ix, vec![("condeferrable", Val::Bool(d1)), ("condeferred", Val::Bool(d2))])?;
                    }
                },
                Alter::RenameCol(a, b) => {
                    if self.att(rel, b).is_ok() {
                        return err("42701", format!("column \"{}\" of relation \"{}\" already exists", b, rname));
                    }
                    let (ix, _) = self.att(rel, a)?;
                    self.db.cat_upd(x, C_ATTR, ix, vec![("attname", Val::t(b))])?;
                    for (ix, r) in self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("contype", Val::t("c"))]) {
                        let t = rename_col(get(&r, C_CON, "conbin").text(), a, b);
                        self.db.cat_upd(x, C_CON, ix, vec![("conbin", Val::Text(t))])?;
                    }
                    for (ix, r) in self.db.cat_find(C_INDEX, self.sn(), &[("indrelid", i(rel))]) {
                        let e = get(&r, C_INDEX, "indexprs");
                        if !e.is_null() {
                            let t = rename_col(e.text(), a, b);
                            self.db.cat_upd(x, C_INDEX, ix, vec![("indexprs", Val::Text(t))])?;
                        }
                    }
                }
                Alter::RenameTo(b) => {
                    let t = self.top();
                    if self.db.cat_unique(C_CLASS, t, &[("relname", Val::t(b)), ("relnamespace", i(ns))])? {
                        return err("42P07", format!("relation \"{}\" already exists", b));
                    }
                    let (ix, _) = one(self.db, self.sn(), C_CLASS, "oid", i(rel)).unwrap();
                    self.db.cat_upd(x, C_CLASS, ix, vec![("relname", Val::t(b))])?;
                }
                Alter::RenameCon(a, b) => match self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("conname", Val::t(a))]).pop() {
                    None => return err("42704", format!("constraint \"{}\" for table \"{}\" does not exist", a, rname)),
                    Some((ix, r)) => {
                        self.db.cat_upd(x, C_CON, ix, vec![("conname", Val::t(b))])?;
                        if get(&r, C_CON, "contype").text() != "f" {
                            let ind = get(&r, C_CON, "conindid");
                            if let Some((ix, _)) = one(self.db, self.sn(), C_CLASS, "oid", ind) {
                                self.db.cat_upd(x, C_CLASS, ix, vec![("relname", Val::t(b))])?;
                            }
                        }
                    }
                },
                Alter::SetSchema(s) => {
                    let o = match find_ns(self.db, self.sn(), s) {
                        Some(o) => o,
                        None => return err("3F000", format!("schema \"{}\" does not exist", s)),
                    };
                    let (ix, _) = one(self.db, self.sn(), C_CLASS, "oid", i(rel)).unwrap();
                    self.db.cat_upd(x, C_CLASS, ix, vec![("relnamespace", i(o))])?;
                }
                Alter::Validate(n) => match self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("conname", Val::t(n))]).pop() {
                    None => return err("42704", format!("constraint \"{}\" of relation \"{}\" does not exist", n, rname)),
                    Some((ix, r)) => {
                        if get(&r, C_CON, "contype").text() == "f" {
                            self.verify_fk(r[0].oid())?;
                        }
                        self.db.cat_upd(x, C_CON, ix, vec![("convalidated", Val::Bool(true))])?;
                    }
                },
                Alter::Owner => {}
            }
            self.dirty();
        }
        Ok(())
    }
    fn alter_type(&mut self, rel: Oid, col: &str, tn: &TypeName, using: Option<&Expr>) -> Res<()> {
        let (_, a) = self.att(rel, col)?;
        let n = get(&a, C_ATTR, "attnum").int();
        let old = Ty { oid: a[2].oid(), m: get(&a, C_ATTR, "atttypmod").int() as i32 };
        if tn.name[0].starts_with("serial") {
            return err("42704", format!("type \"{}\" does not exist", tn.name[0]));
        }
        let new = resolve_type(self.db, self.sn(), tn)?;
        for (_, d) in self.db.cat_find(C_DEP, self.sn(), &[("refclassid", i(C_CLASS)), ("refobjid", i(rel)), ("refobjsubid", Val::Int(n)), ("classid", i(C_REWRITE))]) {
            let _ = d;
            return err("0A000", "cannot alter type of a column used by a view or rule");
        }
        let conv = match using {
            Some(e) => self.bind_to(Some(rel), e, new, super::expr::Ctx::Assign, &format!("column \"{}\"", col))?,
            None => {
                if !Binder::can_cast(old.oid, new.oid, super::expr::Ctx::Assign) {
                    return err("42804", format!("column \"{}\" cannot be cast automatically to type {}", col, format_type(new.oid, new.m)));
                }
                self.bind_to(Some(rel), &Expr::Col(vec![col.to_string()]), new, super::expr::Ctx::Assign, "column")?
            }
        };
        // the default must convert too
        if let Some((ix, d)) = self.db.cat_find(C_DEF, self.sn(), &[("adrelid", i(rel)), ("adnum", Val::Int(n))]).pop() {
            let e = super::parse::parse_expr(d[3].text()).or_else(syn)?;
            let te = match self.bind_to(None, &e, old, super::expr::Ctx::Assign, "default").and_then(|te| {
                let mut b = Binder::new(self.db, self.sn(), vec![]);
                b.coerce(te, new, super::expr::Ctx::Assign)
            }) {
                Ok(t) => t,
                Err(_) => return err("42804", format!("default for column \"{}\" cannot be cast automatically to type {}", col, format_type(new.oid, new.m))),
            };
            // show only what the new column needs
            let text = match self.bind_to(None, &e, new, super::expr::Ctx::Assign, "default") {
                Ok(t2) => deparse(self.db, self.sn(), &t2, false),
                Err(_) => deparse(self.db, self.sn(), &te, true),
            };
            let x = self.xid;
            self.db.cat_upd(x, C_DEF, ix, vec![("adbin", Val::Text(text))])?;
        }
        let x = self.xid;
        for (ix, r) in self.db.scan(rel, self.sn()) {
            self.env.push(Level { rows: vec![Some(r.clone())], aggs: vec![] });
            let v = self.eval(&conv);
            self.env.pop();
            let v = v?;
            let mut nr = (*r).clone();
            nr.resize((n as usize).max(nr.len()), Val::Null);
            nr[n as usize - 1] = v;
            self.db.cat_del(x, rel, ix)?;
            self.db.insert(rel, x, nr);
        }
        let (ix, _) = self.att(rel, col)?;
        self.db.cat_upd(x, C_ATTR, ix, vec![("atttypid", i(new.oid)), ("atttypmod", Val::Int(new.m as i64))])?;
        self.dirty();
        // everything built on the column is rebuilt
        for (ix, r) in self.db.cat_find(C_CON, self.sn(), &[("conrelid", i(rel)), ("contype", Val::t("c"))]) {
            if arr(&get(&r, C_CON, "conkey")).contains(&n) {
                let e = super::parse::parse_expr(get(&r, C_CON, "conbin").text()).or_else(syn)?;
                let te = self.bind_to(Some(rel), &e, ty(BOOL), super::expr::Ctx::Implicit, "CHECK")?;
                let text = deparse(self.db, self.sn(), &te, false);
                self.verify_check(rel, &te, r[1].text())?;
                self.db.cat_upd(x, C_CON, ix, vec![("conbin", Val::Text(text))])?;
            }
        }
        for (_, r) in self.db.cat_find(C_INDEX, self.sn(), &[("indrelid", i(rel))]) {
            if get(&r, C_INDEX, "indisunique").bool() {
                self.verify_unique(rel, r[0].oid())?;
            }
            let e = get(&r, C_INDEX, "indexprs");
            if !e.is_null() {
                for p in index_exprs(e.text()) {
                    self.bind_on(Some(rel), &p)?;
                }
            }
        }
        for k in ["conrelid", "confrelid"] {
            for (_, r) in self.db.cat_find(C_CON, self.sn(), &[(k, i(rel)), ("contype", Val::t("f"))]) {
                let (a, b) = (get(&r, C_CON, "conrelid").oid(), get(&r, C_CON, "confrelid").oid());
                for (x, y) in arr(&get(&r, C_CON, "conkey")).iter().zip(arr(&get(&r, C_CON, "confkey"))) {
                    let at = self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", i(a)), ("attnum", Val::Int(*x))]).pop().unwrap().1[2].oid();
                    let bt = self.db.cat_find(C_ATTR, self.sn(), &[("attrelid", i(b)), ("attnum", Val::Int(y))]).pop().unwrap().1[2].oid();
                    if at != bt && category(at) != category(bt) {
                        return err("42804", "foreign key constraint cannot be implemented");
                    }
                }
                self.verify_fk(r[0].oid())?;
            }
        }
        Ok(())
    }
    pub fn drop_rel(&mut self, kind: char, names: &[Vec<String>], ie: bool, cascade: bool) -> Res<()> {
        let mut objs = vec![];
        for n in names {
            match self.rel(n, &kind.to_string(), 8) {
                Ok((o, _)) => objs.push((C_CLASS, o, 0)),
                Err(Stop::Err(e)) if ie && (e.code == "42P01" || e.code == "3F000") => {}
                Err(e) => {
                    if let Stop::Err(p) = &e {
                        if p.code == "42P01" {
                            let (code, w) = match kind {
                                'r' => ("42P01", "table"),
                                'S' => ("42P01", "sequence"),
                                'i' => ("42704", "index"),
                                _ => ("42P01", "view"),
                            };
                            return err(code, format!("{} \"{}\" does not exist", w, n.last().unwrap()));
                        }
                    }
                    return Err(e);
                }
            }
        }
        self.drop_objects(objs, cascade)
    }
    pub fn create_index(&mut self, name: &Option<String>, table: &[String], method: &Option<String>, unique: bool, elems: &[IndexElem], pred: Option<&Expr>, ine: bool) -> Res<()> {
        let (rel, row) = self.rel(table, "r", 5)?;
        let ns = get(&row, C_CLASS, "relnamespace").oid();
        let m = method.clone().unwrap_or("btree".into());
        let am = match self.db.cat_find(C_AM, self.sn(), &[("amname", Val::t(&m)), ("amtype", Val::t("i"))]).pop() {
            Some((_, r)) => r[0].oid(),
            None => return err("42704", format!("access method \"{}\" does not exist", m)),
        };
        if unique && am != AM_BTREE {
            return err("0A000", format!("access method \"{}\" does not support unique indexes", m));
        }
        if elems.len() > 1 && (am == AM_HASH || am == AM_SPGIST) {
            return err("0A000", format!("access method \"{}\" does not support multicolumn indexes", m));
        }
        let (mut keys, mut opts, mut exprs, mut ecols) = (vec![], vec![], vec![], vec![]);
        for e in elems {
            if am != AM_BTREE && (e.desc || e.nulls_first.is_some()) {
                return err("0A000", format!("access method \"{}\" does not support ASC/DESC options", m));
            }
            let te = self.bind_on(Some(rel), &e.expr)?;
            let t = te.t.oid;
            let ok = match am {
                AM_BTREE | AM_BRIN | AM_HASH => self.btree_ok(t) && t != UNKNOWN,
                AM_GIN => is_array(t) || t == JSONB,
                AM_SPGIST => is_str(t) && t != VARCHAR,
                _ => false,
            };
            if !ok {
                return err("42704", format!("data type {} has no default operator class for access method \"{}\"", format_type(t, -1), m));
            }
            if let Some(oc) = &e.opclass {
                return err("42704", format!("operator class \"{}\" does not exist for access method \"{}\"", oc, m));
            }
            let nf = e.nulls_first.unwrap_or(e.desc);
            opts.push(e.desc as i64 | if nf { 2 } else { 0 });
            match (&te.k, &e.expr) {
                (K::Col { col, .. }, Expr::Col(_)) => keys.push(*col as i64 + 1),
                _ => {
                    let mut bad = None;
                    walk(&te, &mut |x| match &x.k {
                        K::Func(n, _) if ["now", "nextval", "random", "gen_random_uuid"].contains(&n.as_str()) => bad = Some(()),
                        K::Special(_) => bad = Some(()),
                        _ => {}
                    });
                    if bad.is_some() {
                        return err("42P17", "functions in index expression must be marked IMMUTABLE");
                    }
                    keys.push(0);
                    ecols.extend(self.expr_cols(&te));
                    exprs.push(deparse(self.db, self.sn(), &te, false));
                }
            }
        }
        let pred = match pred {
            Some(e) => {
                let te = self.bind_to(Some(rel), e, ty(BOOL), super::expr::Ctx::Implicit, "WHERE")?;
                ecols.extend(self.expr_cols(&te));
                Some(deparse(self.db, self.sn(), &te, false))
            }
            None => None,
        };
        let name = match name {
            Some(n) => n.clone(),
            None => {
                let c: Vec<String> = keys.iter().map(|k| if *k == 0 { "expr".to_string() } else { colname(self.db, self.sn(), rel, *k) }).collect();
                self.free_name(&format!("{}_{}_idx", row[1].text(), c.join("_")), ns)
            }
        };
        if ine && !self.db.cat_find(C_CLASS, self.sn(), &[("relname", Val::t(&name)), ("relnamespace", i(ns))]).is_empty() {
            return Ok(());
        }
        self.make_index(NewIndex { rel, name, ns, am, unique, primary: false, keys, opts, exprs: if exprs.is_empty() { None } else { Some(exprs.join(", ")) }, pred, con: None, expr_cols: ecols })?;
        self.dirty();
        Ok(())
    }

    // ---- functions and views
    pub fn create_func(&mut self, name: &[String], args: &[FuncArg], ret: &Option<TypeName>, lang: &Option<String>, vol: Option<char>, body: &Option<String>, replace: bool, strict: bool) -> Res<()> {
        let (ns, n) = self.ns_of(name)?;
        let lang = match lang {
            Some(l) => l.clone(),
            None => return err("42P13", "no language specified"),
        };
        let lrow = match one(self.db, self.sn(), C_LANG, "lanname", Val::t(&lang)) {
            Some(x) => x.1,
            None => return err("42704", format!("language \"{}\" does not exist", lang)),
        };
        let body = match body {
            Some(b) => b.clone(),
            None => return err("42P13", "no function body specified"),
        };
        let mut at = vec![];
        let mut names = vec![];
        let mut defs = vec![];
        for a in args {
            if a.mode == "out" {
                continue;
            }
            let t = resolve_type(self.db, self.sn(), &a.ty)?.oid;
            match &a.default {
                Some(e) => {
                    let te = self.bind_to(None, e, ty(t), super::expr::Ctx::Assign, "argument")?;
                    defs.push(Val::Text(deparse(self.db, self.sn(), &te, false)));
                }
                None if !defs.is_empty() => return err("42P13", "input parameters after one with a default value must also have defaults"),
                None => {}
            }
            at.push(t as i64);
            names.push(Val::Text(a.name.clone().unwrap_or_default()));
        }
        let (rt, setof) = match ret {
            Some(t) => (resolve_type(self.db, self.sn(), t)?.oid, t.setof),
            None => (VOID, false),
        };
        if lang == "sql" {
            let stmts = super::parse::parse_many(&body).or_else(syn)?;
            if rt == TRIGGER {
                return err("42P13", "SQL functions cannot return type trigger");
            }
            let mut last = None;
            for (s, _) in &stmts {
                if let Stmt::Select(q) = s {
                    let mut b = Binder::new(self.db, self.sn(), at.iter().map(|x| *x as Oid).collect());
                    // arguments can be named
                    let mut sc = Scope::default();
                    let cols: Vec<(String, Ty)> = names.iter().zip(&at).map(|(n, t)| (n.text().to_string(), ty(*t as Oid))).collect();
                    sc.rtes.push(Rte { alias: n.clone(), rel: 0, cols });
                    b.scopes.push(sc);
                    let np = b.params.len();
                    let p = bind_select(&mut b, q)?;
                    if b.params.len() > np {
                        return err("42P02", format!("there is no parameter ${}", np + 1));
                    }
                    last = Some(p.cols);
                } else {
                    last = None;
                }
            }
            if rt != VOID {
                match last {
                    Some(c) if c.len() == 1 && Binder::can_cast(c[0].1.oid, rt, super::expr::Ctx::Assign) => {}
                    _ => return err("42P13", format!("return type mismatch in function declared to return {}", format_type(rt, -1))),
                }
            }
        } else if lang == "plpgsql" {
            let l = body.to_lowercase();
            if !(l.contains("begin") && l.contains("end")) {
                return err("42601", "syntax error at end of input");
            }
        } else {
            return err("42P13", "language not supported");
        }
        let x = self.xid;
        let t = self.top();
        let key = vec![("proname", Val::t(&n)), ("pronamespace", i(ns)), ("proargtypes", ints(&at))];
        if self.db.cat_unique(C_PROC, t, &key)? {
            if !replace {
                return err("42723", format!("function \"{}\" already exists with same argument types", n));
            }
            let (ix, r) = self.db.cat_find(C_PROC, self.sn(), &key).pop().unwrap();
            if get(&r, C_PROC, "prorettype").oid() != rt {
                return err("42P13", "cannot change return type of existing function");
            }
            return self.db.cat_upd(
                x,
                C_PROC,
                ix,
                vec![("pronargdefaults", Val::Int(defs.len() as i64)), ("proargdefaults", Val::Arr(defs)), ("prosrc", Val::Text(body)), ("prolang", lrow[0].clone()), ("provolatile", Val::Text(vol.unwrap_or('v').to_string())), ("proisstrict", Val::Bool(strict))],
            );
        }
        let oid = self.db.new_oid();
        let nargs = at.len() as i64;
        self.db.cat_put(
            x,
            C_PROC,
            vec![
                ("oid", i(oid)),
                ("proname", Val::t(&n)),
                ("pronamespace", i(ns)),
                ("proowner", i(OWNER)),
                ("prolang", lrow[0].clone()),
                ("prokind", Val::t("f")),
                ("proretset", Val::Bool(setof)),
                ("provolatile", Val::Text(vol.unwrap_or('v').to_string())),
                ("proisstrict", Val::Bool(strict)),
                ("pronargs", Val::Int(nargs)),
                ("prorettype", i(rt)),
                ("proargtypes", ints(&at)),
                ("proargnames", Val::Arr(names)),
                ("prosrc", Val::Text(body)),
                ("pronargdefaults", Val::Int(defs.len() as i64)),
                ("proargdefaults", Val::Arr(defs)),
            ],
        );
        self.dep((C_PROC, oid, 0), (C_NS, ns, 0), "n");
        self.dirty();
        Ok(())
    }
    pub fn drop_func(&mut self, name: &[String], args: &Option<Vec<FuncArg>>, ie: bool, cascade: bool) -> Res<()> {
        let n = name.last().unwrap();
        let nsn = if name.len() > 1 { name[name.len() - 2].clone() } else { "public".into() };
        let sn = self.sn();
        let ns = match find_ns(self.db, sn, &nsn) {
            Some(o) => o,
            None if ie => return Ok(()),
            None => return err("3F000", format!("schema \"{}\" does not exist", nsn)),
        };
        let mut c = self.db.cat_find(C_PROC, sn, &[("proname", Val::t(n)), ("pronamespace", i(ns))]);
        let mut sig = String::new();
        if let Some(a) = args {
            let mut at = vec![];
            for x in a {
                if x.mode != "out" {
                    at.push(resolve_type(self.db, sn, &x.ty)?.oid as i64);
                }
            }
            sig = format!("({})", at.iter().map(|t| format_type(*t as Oid, -1)).collect::<Vec<_>>().join(","));
            c.retain(|(_, r)| arr(&get(r, C_PROC, "proargtypes")) == at);
        }
        if c.len() > 1 {
            return err("42725", format!("function name \"{}\" is not unique", n));
        }
        match c.pop() {
            Some((_, r)) => self.drop_objects(vec![(C_PROC, r[0].oid(), 0)], cascade),
            None if ie => Ok(()),
            None => {
                if args.is_some() {
                    err("42883", format!("function {}{} does not exist", n, sig))
                } else {
                    err("42883", format!("could not find a function named \"{}\"", n))
                }
            }
        }
    }
    pub fn create_view(&mut self, name: &[String], cols: &[String], q: &Select, text: &str, replace: bool) -> Res<()> {
        let (ns, n) = self.ns_of(name)?;
        let p = {
            let mut b = Binder::new(self.db, self.sn(), vec![]);
            let p = bind_select(&mut b, q)?;
            if !b.params.is_empty() {
                return err("42P02", "there is no parameter $1");
            }
            p
        };
        if replace {
            if let Some((o, r)) = find_rel(self.db, self.sn(), &[nsname(self.db, self.sn(), ns), n.clone()]) {
                if get(&r, C_CLASS, "relkind").text() != "v" {
                    return err("42809", format!("\"{}\" is not a view", n));
                }
                self.drop_objects(vec![(C_CLASS, o, 0)], false)?;
            }
        }
        let mut rels = vec![];
        plan_rels(&p, &mut rels);
        let t = self.top();
        for r in &rels {
            if *r >= 16384 {
                self.db.lock_rel(t, *r, 1)?;
            }
        }
        let oid = self.db.new_oid();
        self.new_rel(oid, &n, ns, "v", 0, p.cols.len() as i64)?;
        let x = self.xid;
        let mut seen: Vec<String> = vec![];
        for (k, (cn, ct)) in p.cols.iter().enumerate() {
            let cn = cols.get(k).unwrap_or(cn);
            if seen.contains(cn) {
                return err("42701", format!("column \"{}\" specified more than once", cn));
            }
            seen.push(cn.clone());
            self.db.cat_put(
                x,
                C_ATTR,
                vec![("attrelid", i(oid)), ("attname", Val::t(cn)), ("atttypid", i(ct.oid)), ("attnum", Val::Int(k as i64 + 1)), ("atttypmod", Val::Int(ct.m as i64))],
            );
        }
        let rule = self.db.new_oid();
        self.db.cat_put(x, C_REWRITE, vec![("oid", i(rule)), ("rulename", Val::t("_RETURN")), ("ev_class", i(oid)), ("ev_action", Val::t(text))]);
        self.dep((C_REWRITE, rule, 0), (C_CLASS, oid, 0), "i");
        rels.sort();
        rels.dedup();
        for r in rels {
            if r >= 16384 {
                self.dep((C_REWRITE, rule, 0), (C_CLASS, r, 0), "n");
            }
        }
        // columns named by the query
        let mut cd: Vec<(Oid, i64)> = vec![];
        let base: Vec<(usize, Oid)> = {
            let mut v = vec![];
            fn fr(f: &PFrom, v: &mut Vec<(usize, Oid)>) {
                match f {
                    PFrom::Rel { rte, rel } => v.push((*rte, *rel)),
                    PFrom::Join { l, r, .. } => {
                        fr(l, v);
                        fr(r, v);
                    }
                    _ => {}
                }
            }
            for (f, _) in &p.from {
                fr(f, &mut v);
            }
            v
        };
        let mut note = |e: &TE| {
            walk(e, &mut |x| {
                if let K::Col { lvl: 0, rte, col, .. } = &x.k {
                    if let Some((_, r)) = base.iter().find(|b| b.0 == *rte) {
                        cd.push((*r, *col as i64 + 1));
                    }
                }
            })
        };
        p.targets.iter().for_each(&mut note);
        p.conds.iter().for_each(|c| note(&c.0));
        for a in &p.aggs {
            if let Some(e) = &a.arg {
                note(e);
            }
        }
        cd.sort();
        cd.dedup();
        for (r, c) in cd {
            self.dep((C_REWRITE, rule, 0), (C_CLASS, r, c), "n");
        }
        self.dirty();
        Ok(())
    }

    // ---- verification of existing rows
    pub fn index_key(&mut self, rel: Oid, ind: &Row, r: &Row) -> Res<Option<Vec<Val>>> {
        let pred = get(ind, C_INDEX, "indpred");
        if !pred.is_null() {
            let e = super::parse::parse_expr(pred.text()).or_else(syn)?;
            let te = self.bind_on(Some(rel), &e)?;
            if !self.eval_row(&te, r)?.bool() {
                return Ok(None);
            }
        }
        let ex = get(ind, C_INDEX, "indexprs");
        let mut ex = if ex.is_null() { vec![] } else { index_exprs(ex.text()) }.into_iter();
        let mut out = vec![];
        for k in arr(&get(ind, C_INDEX, "indkey")) {
            out.push(if k == 0 {
                match ex.next() {
                    Some(e) => {
                        let te = self.bind_on(Some(rel), &e)?;
                        self.eval_row(&te, r)?
                    }
                    None => Val::Null,
                }
            } else {
                r.get(k as usize - 1).cloned().unwrap_or(Val::Null)
            });
        }
        Ok(if out.iter().any(|v| v.is_null()) { None } else { Some(out) })
    }
    pub fn eval_row(&mut self, te: &TE, r: &Row) -> Res<Val> {
        self.env.push(Level { rows: vec![Some(r.clone())], aggs: vec![] });
        let v = self.eval(te);
        self.env.pop();
        v
    }
    fn verify_unique(&mut self, rel: Oid, ind: Oid) -> Res<()> {
        let (_, ir) = one(self.db, self.sn(), C_INDEX, "indexrelid", i(ind)).unwrap();
        let rows = self.db.scan(rel, self.sn());
        let mut keys: Vec<Vec<Val>> = vec![];
        for (_, r) in rows {
            if let Some(k) = self.index_key(rel, &ir, &r)? {
                if keys.iter().any(|x| x.iter().zip(&k).all(|(a, b)| compare(a, b) == Ordering::Equal)) {
                    return err("23505", format!("could not create unique index \"{}\"", relname(self.db, self.sn(), ind, false)));
                }
                keys.push(k);
            }
        }
        Ok(())
    }
    fn verify_check(&mut self, rel: Oid, te: &TE, name: &str) -> Res<()> {
        for (_, r) in self.db.scan(rel, self.sn()) {
            if matches!(self.eval_row(te, &r)?, Val::Bool(false)) {
                return err("23514", format!("check constraint \"{}\" of relation \"{}\" is violated by some row", name, relname(self.db, self.sn(), rel, false)));
            }
        }
        Ok(())
    }
    fn verify_fk(&mut self, con: Oid) -> Res<()> {
        let (_, c) = one(self.db, self.sn(), C_CON, "oid", i(con)).unwrap();
        let rel = get(&c, C_CON, "conrelid").oid();
        let frel = get(&c, C_CON, "confrelid").oid();
        let (k, f) = (arr(&get(&c, C_CON, "conkey")), arr(&get(&c, C_CON, "confkey")));
        let parents = self.db.scan(frel, self.sn());
        for (_, r) in self.db.scan(rel, self.sn()) {
            let key: Vec<Val> = k.iter().map(|x| r.get(*x as usize - 1).cloned().unwrap_or(Val::Null)).collect();
            if key.iter().any(|v| v.is_null()) {
                if get(&c, C_CON, "confmatchtype").text() == "f" && !key.iter().all(|v| v.is_null()) {
                    return err("23503", format!("insert or update on table \"{}\" violates foreign key constraint \"{}\"", relname(self.db, self.sn(), rel, false), c[1].text()));
                }
                continue;
            }
            let hit = parents.iter().any(|(_, p)| f.iter().zip(&key).all(|(n, v)| p.get(*n as usize - 1).map_or(false, |x| compare(x, v) == Ordering::Equal)));
            if !hit {
                return err("23503", format!("insert or update on table \"{}\" violates foreign key constraint \"{}\"", relname(self.db, self.sn(), rel, false), c[1].text()));
            }
        }
        Ok(())
    }
}
fn rename_col(s: &str, a: &str, b: &str) -> String {
    let (qa, qb) = (quote_ident(a), quote_ident(b));
    let toks = match super::lex::lex(s) {
        Ok(t) => t,
        Err(_) => return s.to_string(),
    };
    let mut out = String::new();
    let mut last = 0;
    for t in toks {
        out.push_str(&s[last..t.pos]);
        let w = &s[t.pos..t.end];
        out.push_str(if w == qa { &qb } else { w });
        last = t.end;
    }
    out
}
