//! Canonical description of what a database contains, for comparison.
use super::ddl::*;
use super::store::*;
use super::types::*;
use std::collections::BTreeMap;

pub type Dump = BTreeMap<String, String>;

fn i(o: Oid) -> Val {
    Val::Int(o as i64)
}
pub fn committed(db: &Db) -> Snap {
    Snap { csn: db.csn, top: 0 }
}
pub fn norm(s: &str) -> String {
    let toks = match super::lex::lex(s) {
        Ok(t) => t,
        Err(_) => return s.split_whitespace().collect::<Vec<_>>().join(" "),
    };
    toks.iter().map(|t| s[t.pos..t.end].to_string()).filter(|x| !x.is_empty() && x != ";").collect::<Vec<_>>().join(" ")
}
fn user_ns(db: &Db, sn: Snap) -> Vec<(Oid, String)> {
    let mut v: Vec<(Oid, String)> = db.cat_rows(C_NS, sn).into_iter().map(|(_, r)| (r[0].oid(), r[1].text().to_string())).filter(|x| x.0 != NS_CATALOG && x.0 != NS_INFO).collect();
    v.sort_by(|a, b| a.1.cmp(&b.1));
    v
}

/// An expression without its casts. When the type of a column changes, PostgreSQL parses the text of its default and its
/// checks again, casts of the old type included, so that the casts tell which types a column has had and not what it says.
fn plain(text: &str) -> String {
    use super::ast::Expr::*;
    fn strip(e: super::ast::Expr) -> super::ast::Expr {
        let b = |x: Box<super::ast::Expr>| Box::new(strip(*x));
        match e {
            Cast(x, _) => strip(*x),
            Bin(o, l, r) => Bin(o, b(l), b(r)),
            Un(o, x) => Un(o, b(x)),
            And(l, r) => And(b(l), b(r)),
            Or(l, r) => Or(b(l), b(r)),
            Not(x) => Not(b(x)),
            IsNull(x, n) => IsNull(b(x), n),
            IsBool(x, v, n) => IsBool(b(x), v, n),
            IsDistinct(l, r, n) => IsDistinct(b(l), b(r), n),
            In(x, v, n) => In(b(x), v.into_iter().map(strip).collect(), n),
            Between(x, l, r, n) => Between(b(x), b(l), b(r), n),
            Any(o, l, r, a) => Any(o, b(l), b(r), a),
            Array(v) => Array(v.into_iter().map(strip).collect()),
            Row(v) => Row(v.into_iter().map(strip).collect()),
            Func { name, args, star, distinct, order, filter } => Func { name, args: args.into_iter().map(strip).collect(), star, distinct, order, filter },
            x => x,
        }
    }
    fn show(e: &super::ast::Expr) -> String {
        let l = |v: &[super::ast::Expr]| v.iter().map(show).collect::<Vec<_>>().join(", ");
        match e {
            Num(s) => s.clone(),
            Str(s) => format!("'{}'", s),
            Col(v) => v.iter().map(|x| format!("\"{}\"", x)).collect::<Vec<_>>().join("."),
            Bin(o, a, b) => format!("({} {} {})", show(a), o, show(b)),
            Un(o, a) => format!("({}{})", o, show(a)),
            And(a, b) => format!("({} AND {})", show(a), show(b)),
            Or(a, b) => format!("({} OR {})", show(a), show(b)),
            Not(a) => format!("(NOT {})", show(a)),
            IsNull(a, n) => format!("({} IS {}NULL)", show(a), if *n { "NOT " } else { "" }),
            Array(v) => format!("ARRAY[{}]", l(v)),
            Func { name, args, star: false, distinct: false, order, filter: None } if order.is_empty() => format!("{}({})", name.join("."), l(args)),
            x => format!("{:?}", x),
        }
    }
    super::parse::parse_expr(text).map(|e| show(&strip(e))).unwrap_or_else(|_| text.to_string())
}
fn uncast(def: &str) -> String {
    // CHECK (expression), then options
    let rest = match def.strip_prefix("CHECK ") {
        Some(r) => r,
        None => return def.to_string(),
    };
    let mut depth = 0;
    let mut end = 0;
    for t in super::lex::lex(rest).unwrap_or_default() {
        match &rest[t.pos..t.end] {
            "(" => depth += 1,
            ")" => depth -= 1,
            _ => {}
        }
        if depth == 0 {
            end = t.end;
            break;
        }
    }
    format!("CHECK {}{}", plain(&rest[..end]), &rest[end..])
}

/// the catalog, without the schemas named
pub fn catalog(db: &Db, skip: &[&str]) -> Dump {
    let sn = committed(db);
    let mut d = Dump::new();
    for (ns, name) in user_ns(db, sn) {
        if skip.contains(&name.as_str()) {
            continue;
        }
        d.insert(format!("schema {}", name), String::new());
        for (_, c) in db.cat_find(C_CLASS, sn, &[("relnamespace", i(ns))]) {
            let oid = c[0].oid();
            let rn = c[1].text();
            match get(&c, C_CLASS, "relkind").text() {
                "r" => {
                    d.insert(format!("table {}.{}", name, rn), String::new());
                    for (_, a) in db.cat_find(C_ATTR, sn, &[("attrelid", i(oid)), ("attisdropped", Val::Bool(false))]) {
                        let n = get(&a, C_ATTR, "attnum");
                        let def = db.cat_find(C_DEF, sn, &[("adrelid", i(oid)), ("adnum", n)]).pop().map(|(_, x)| x[3].text().to_string());
                        let mut s = format_type(a[2].oid(), get(&a, C_ATTR, "atttypmod").int() as i32);
                        if get(&a, C_ATTR, "attnotnull").bool() {
                            s.push_str(" NOT NULL");
                        }
                        if let Some(x) = def {
                            s.push_str(&format!(" DEFAULT {}", plain(&x)));
                        }
                        d.insert(format!("column {}.{}.{}", name, rn, a[1].text()), s);
                    }
                    for (_, k) in db.cat_find(C_CON, sn, &[("conrelid", i(oid))]) {
                        d.insert(format!("constraint {}.{}.{}", name, rn, k[1].text()), uncast(&constraint_def(db, sn, k[0].oid()).unwrap_or_default()));
                    }
                    for (_, x) in db.cat_find(C_INDEX, sn, &[("indrelid", i(oid))]) {
                        let io = x[0].oid();
                        if !db.cat_find(C_CON, sn, &[("conindid", i(io))]).iter().any(|(_, k)| get(k, C_CON, "contype").text() != "f") {
                            let n = super::expr::relname(db, sn, io, true);
                            d.insert(format!("index {}", n), index_def(db, sn, io).unwrap_or_default());
                        }
                    }
                }
                "S" => {
                    if let Some((_, q)) = one(db, sn, C_SEQ, "seqrelid", i(oid)) {
                        let g = |n: &str| get(&q, C_SEQ, n);
                        let own = db
                            .cat_find(C_DEP, sn, &[("classid", i(C_CLASS)), ("objid", i(oid)), ("refclassid", i(C_CLASS))])
                            .into_iter()
                            .find(|(_, r)| r[6].text() == "a" || r[6].text() == "i")
                            .map(|(_, r)| format!(" OWNED BY {}.{}", super::expr::relname(db, sn, r[4].oid(), true), colname(db, sn, r[4].oid(), r[5].int())))
                            .unwrap_or_default();
                        d.insert(
                            format!("sequence {}.{}", name, rn),
                            format!(
                                "{} start {} inc {} min {} max {} cache {} cycle {}{}",
                                format_type(g("seqtypid").oid(), -1),
                                g("seqstart").int(),
                                g("seqincrement").int(),
                                g("seqmin").int(),
                                g("seqmax").int(),
                                g("seqcache").int(),
                                g("seqcycle").bool(),
                                own
                            ),
                        );
                    }
                }
                "v" => {
                    let t = db.cat_find(C_REWRITE, sn, &[("ev_class", i(oid))]).pop().map(|(_, r)| r[3].text().to_string()).unwrap_or_default();
                    d.insert(format!("view {}.{}", name, rn), norm(&t));
                }
                _ => {}
            }
        }
        for (_, p) in db.cat_find(C_PROC, sn, &[("pronamespace", i(ns))]) {
            let o = p[0].oid();
            let lang = one(db, sn, C_LANG, "oid", get(&p, C_PROC, "prolang")).map(|(_, r)| r[1].text().to_string()).unwrap_or_default();
            d.insert(
                format!("function {}.{}({})", name, p[1].text(), func_args(db, sn, o, false)),
                format!("({}) returns {} language {} volatility {} body {}", func_args(db, sn, o, true), func_result(db, sn, o), lang, get(&p, C_PROC, "provolatile").text(), get(&p, C_PROC, "prosrc").text()),
            );
        }
    }
    d
}

/// the committed rows of every table, without the schemas named: "schema.table" to sorted rows of (column, value)
pub fn data(db: &Db, skip: &[&str]) -> BTreeMap<String, Vec<BTreeMap<String, String>>> {
    let sn = committed(db);
    let mut out = BTreeMap::new();
    for (ns, name) in user_ns(db, sn) {
        if skip.contains(&name.as_str()) {
            continue;
        }
        for (_, c) in db.cat_find(C_CLASS, sn, &[("relnamespace", i(ns)), ("relkind", Val::t("r"))]) {
            out.insert(format!("{}.{}", name, c[1].text()), rows(db, c[0].oid()));
        }
    }
    out
}
pub fn rows(db: &Db, rel: Oid) -> Vec<BTreeMap<String, String>> {
    let sn = committed(db);
    let cols = super::query::table_cols(db, sn, rel);
    let mut v: Vec<BTreeMap<String, String>> = db
        .scan(rel, sn)
        .into_iter()
        .map(|(_, r)| {
            cols.iter()
                .enumerate()
                .filter(|(_, c)| !c.3)
                .map(|(k, c)| {
                    let v = r.get(k).cloned().unwrap_or(Val::Null);
                    (c.0.clone(), if v.is_null() { "∅".to_string() } else { output(&v, c.1.oid) })
                })
                .collect()
        })
        .collect();
    v.sort();
    v
}
pub fn diff(a: &Dump, b: &Dump) -> Vec<String> {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("- {}{}{}", k, if x.is_empty() { "" } else { ": " }, x)),
            Some(y) if x != y => v.push(format!("~ {}: {}  =>  {}", k, x, y)),
            _ => {}
        }
    }
    for (k, y) in b {
        if !a.contains_key(k) {
            v.push(format!("+ {}{}{}", k, if y.is_empty() { "" } else { ": " }, y));
        }
    }
    v
}
