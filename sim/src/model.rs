//! A small executable model of what the definitions can say: generated, mutated, written as definition files in any
//! layout, and turned into SQL independently of podo.
use crate::pg::dump::{catalog, Dump};
use crate::pg::store::Db;
use crate::pg::wire::Server;
use crate::tape::{mix, Tape};
use serde_yaml::{Mapping, Value};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, PartialEq, Debug, Default)]
pub struct Model {
    pub schemas: BTreeMap<String, Sch>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Sch {
    pub tables: BTreeMap<String, Tab>,
    pub indexes: BTreeMap<String, Idx>,
    pub seqs: BTreeMap<String, Seq>,
    pub funcs: BTreeMap<String, Fun>,
    pub views: BTreeMap<String, View>,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Tab {
    pub cols: Vec<Col>,
    pub cons: BTreeMap<String, Con>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Col {
    pub name: String,
    pub ty: String,
    pub notnull: bool,
    pub default: Option<String>,
}
#[derive(Clone, PartialEq, Debug)]
pub enum Con {
    Pk { cols: Vec<String>, defer: bool, initdef: bool },
    Uq { cols: Vec<String>, defer: bool, initdef: bool },
    Fk { cols: Vec<String>, ts: String, tt: String, tcols: Vec<String>, mat: String, upd: String, del: String, defer: bool, initdef: bool },
    Ck { expr: String, cols: Vec<String> },
}
#[derive(Clone, PartialEq, Debug)]
pub struct Idx {
    pub table: String,
    /// key text and the column it is about
    pub keys: Vec<(String, String)>,
    pub unique: bool,
    pub method: String,
}
#[derive(Clone, PartialEq, Debug, Default)]
pub struct Seq {
    pub ty: Option<String>,
    pub inc: Option<i64>,
    pub min: Option<i64>,
    pub max: Option<i64>,
    pub start: Option<i64>,
    pub cache: Option<i64>,
    pub cycle: Option<bool>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct Fun {
    pub body: String,
    pub lang: Option<String>,
    pub ret: Option<String>,
    pub vol: Option<String>,
}
#[derive(Clone, PartialEq, Debug)]
pub struct View {
    pub query: String,
    pub table: Option<(String, String)>,
    pub cols: Vec<String>,
}

pub fn q(n: &str) -> String {
    format!("\"{}\"", n.replace('"', "\"\""))
}
pub fn qq(s: &str, n: &str) -> String {
    format!("{}.{}", q(s), q(n))
}
fn ql(v: &[String]) -> String {
    v.iter().map(|x| q(x)).collect::<Vec<_>>().join(", ")
}

const NUM: &[&str] = &["int4", "int8", "int2", "integer", "bigint", "numeric", "numeric(10,2)", "float8"];
const TXT: &[&str] = &["text", "varchar(20)", "varchar(100)", "varchar"];
const TIM: &[&str] = &["timestamptz", "date", "timestamp", "timestamp with time zone"];
const OTHER: &[&str] = &["boolean", "uuid", "jsonb", "text[]", "int4[]", "bytea", "char(3)", "interval", "time"];
/// types with what may be said about their precision
const PRECISE: &[&str] = &[
    "time(3)", "timetz", "time(2) with time zone", "timestamp(0)", "timestamptz(3)", "interval(3)", "interval year to month", "interval day to second(2)", "interval second(1)[]", "bit", "bit(5)", "bit varying(7)", "varbit", "numeric(6,1)[]", "varchar(9)[]", "timestamp(3)[]", "timestamptz(1)[]",
    "time(1)[]", "timetz(1)[]", "bit(4)[]", "varbit(6)[]", "char(2)[]", "interval(2)[]", "numeric(5)", "date[]", "bool[]",
];
pub fn group(ty: &str) -> u8 {
    if NUM.contains(&ty) {
        0
    } else if TXT.contains(&ty) {
        1
    } else if TIM.contains(&ty) {
        2
    } else {
        3 + OTHER.iter().chain(PRECISE).position(|x| *x == ty).unwrap_or(0) as u8
    }
}
fn keyable(ty: &str) -> bool {
    group(ty) < 3 || matches!(ty, "uuid" | "boolean" | "char(3)")
}
const SCHEMAS: &[&str] = &["public", "app", "Sales", "s 2", "it's", "q\"s", "APP", "s  2"];
const TABLES: &[&str] = &["t0", "t1", "t2", "Order", "user", "my table", "größe", "x0", "it's", "1st", "column x", "a:b", "q\"q", "#t", "T0", "order", "my  table", LONG];
/// with the names of constraints as long as PostgreSQL allows
const LONG: &str = "a_table_with_a_name_of_sixty_bytes_so_its_keys_may_have_more";
const LONG_COL: &str = "a column with a name of sixty-three bytes, all PostgreSQL allow";
const COLS: &[&str] = &["id", "a", "b", "name", "Amount", "order", "ünï", "two words", "x1", "null", "q\"t", "it's", "$x", "a\\b", "column", "-", "a: b", "#c", "ID", "A", "Order", "two  words", LONG_COL];
const INDEXES: &[&str] = &["ix0", "ix1", "ix2", "Ix 3", "it's i", "q\"i", "IX0"];
const SEQS: &[&str] = &["sq0", "sq1", "Sq 2", "x0", "it's s", "q\"s", "SQ0"];
const VIEWS: &[&str] = &["v0", "v1", "Vw 2", "x0", "it's v", "q\"v", "V0"];
const FUNCS: &[(&str, &[&str])] = &[("f0()", &[]), ("f1(a int4)", &["a"]), ("Fn 2(a text, b int8)", &["a", "b"]), ("f0(a int4)", &["a"]), ("f3", &[]), ("F0()", &[]), ("f4(a int4 DEFAULT 7)", &["a"]), ("f4(a int4)", &["a"]), ("f4(\"A\" int4 = 8)", &[]), ("f5(a text DEFAULT 'x, ''y)', b int8 default (1 + 2))", &["a", "b"])];
/// whether they can not both exist
fn same_function(a: &str, b: &str) -> bool {
    a.starts_with("f4(") && b.starts_with("f4(")
}
const RULES: &[&str] = &["NO ACTION", "CASCADE", "SET NULL", "RESTRICT", "SET DEFAULT"];

impl Con {
    pub fn cols(&self) -> &[String] {
        match self {
            Con::Pk { cols, .. } | Con::Uq { cols, .. } | Con::Fk { cols, .. } | Con::Ck { cols, .. } => cols,
        }
    }
    fn is_key(&self) -> bool {
        matches!(self, Con::Pk { .. } | Con::Uq { .. })
    }
}
impl Tab {
    pub fn col(&self, n: &str) -> Option<&Col> {
        self.cols.iter().find(|c| c.name == n)
    }
}

fn sorted(v: &[String]) -> Vec<String> {
    let mut v = v.to_vec();
    v.sort();
    v
}
/// the constraints and unique indexes of a table over these columns, in any order; whether a foreign key can refer to it
fn keys_over(m: &Model, s: &str, n: &str, cols: &[String]) -> Vec<(String, String, bool)> {
    let cols = sorted(cols);
    let mut v = vec![];
    let Some(x) = m.schemas.get(s) else { return v };
    for (k, c) in x.tables.get(n).iter().flat_map(|t| &t.cons) {
        if let Con::Pk { cols: d, defer, .. } | Con::Uq { cols: d, defer, .. } = c {
            if sorted(d) == cols {
                v.push((k.clone(), format!("{:?}", c), !defer));
            }
        }
    }
    for (k, i) in &x.indexes {
        if i.unique && i.table == n && sorted(&i.keys.iter().map(|k| k.1.clone()).collect::<Vec<_>>()) == cols {
            v.push((k.clone(), format!("{:?}", i), i.keys.iter().all(|k| k.0.starts_with('"'))));
        }
    }
    v
}
fn defer_sql(d: bool, i: bool) -> &'static str {
    match (d, i) {
        (false, _) => "",
        (true, false) => " DEFERRABLE",
        (true, true) => " DEFERRABLE INITIALLY DEFERRED",
    }
}
fn col_sql(c: &Col) -> String {
    format!("{} {}{}{}", q(&c.name), c.ty, if c.notnull { " NOT NULL" } else { "" }, c.default.as_ref().map_or(String::new(), |d| format!(" DEFAULT {}", d)))
}
pub fn con_sql(s: &str, t: &str, n: &str, c: &Con) -> String {
    let d = match c {
        Con::Pk { cols, defer, initdef } => format!("PRIMARY KEY ({}){}", ql(cols), defer_sql(*defer, *initdef)),
        Con::Uq { cols, defer, initdef } => format!("UNIQUE ({}){}", ql(cols), defer_sql(*defer, *initdef)),
        Con::Ck { expr, .. } => format!("CHECK ({})", expr),
        Con::Fk { cols, ts, tt, tcols, mat, upd, del, defer, initdef } => format!(
            "FOREIGN KEY ({}) REFERENCES {} ({}) MATCH {} ON UPDATE {} ON DELETE {}{}",
            ql(cols),
            qq(ts, tt),
            ql(tcols),
            mat,
            upd,
            del,
            defer_sql(*defer, *initdef)
        ),
    };
    format!("ALTER TABLE {} ADD CONSTRAINT {} {};", qq(s, t), q(n), d)
}
fn seq_sql(s: &str, n: &str, x: &Seq) -> String {
    let mut t = format!("CREATE SEQUENCE {}", qq(s, n));
    if let Some(y) = &x.ty {
        t.push_str(&format!(" AS {}", y));
    }
    for (k, v) in [("INCREMENT", x.inc), ("MINVALUE", x.min), ("MAXVALUE", x.max), ("START", x.start), ("CACHE", x.cache)] {
        if let Some(v) = v {
            t.push_str(&format!(" {} {}", k, v));
        }
    }
    if x.cycle == Some(true) {
        t.push_str(" CYCLE");
    }
    t + ";"
}
pub fn fun_sql(s: &str, n: &str, f: &Fun) -> String {
    let (name, args) = match n.find('(') {
        Some(i) => (n[..i].trim(), &n[i..]),
        None => (n, "()"),
    };
    format!(
        "CREATE FUNCTION {}{} RETURNS {} LANGUAGE {} {} AS $bd${}$bd$;",
        qq(s, name),
        args,
        f.ret.as_deref().unwrap_or("void"),
        f.lang.as_deref().unwrap_or("SQL"),
        f.vol.as_deref().unwrap_or("VOLATILE"),
        f.body
    )
}
fn idx_sql(s: &str, n: &str, x: &Idx) -> String {
    format!(
        "CREATE {}INDEX {} ON {} USING {} ({});",
        if x.unique { "UNIQUE " } else { "" },
        q(n),
        qq(s, &x.table),
        x.method,
        x.keys.iter().map(|k| k.0.clone()).collect::<Vec<_>>().join(", ")
    )
}

thread_local! {
    static EMPTY: Db = Db::new();
}
pub fn fresh_db() -> Db {
    EMPTY.with(|d| d.clone())
}
/// a server without any user schema, not even public
pub fn bare_server() -> Server {
    let mut s = Server::new(fresh_db());
    s.sql("DROP SCHEMA public").expect("drop public");
    s
}

impl Model {
    pub fn public() -> Model {
        let mut m = Model::default();
        m.schemas.insert("public".into(), Sch::default());
        m
    }
    /// SQL that builds it in a database without schemas
    pub fn sql(&self) -> Vec<String> {
        let mut v = vec![];
        for s in self.schemas.keys() {
            v.push(format!("CREATE SCHEMA {};", q(s)));
        }
        for (s, x) in &self.schemas {
            for (n, y) in &x.seqs {
                v.push(seq_sql(s, n, y));
            }
        }
        for (s, x) in &self.schemas {
            for (n, t) in &x.tables {
                v.push(format!("CREATE TABLE {} ({});", qq(s, n), t.cols.iter().map(col_sql).collect::<Vec<_>>().join(", ")));
            }
        }
        for fk in [false, true] {
            for (s, x) in self.schemas.iter().filter(|_| fk) {
                for (n, y) in &x.indexes {
                    v.push(idx_sql(s, n, y));
                }
            }
            for (s, x) in &self.schemas {
                for (n, t) in &x.tables {
                    for (k, c) in &t.cons {
                        if matches!(c, Con::Fk { .. }) == fk {
                            v.push(con_sql(s, n, k, c));
                        }
                    }
                }
            }
        }
        for (s, x) in &self.schemas {
            for (n, y) in &x.funcs {
                v.push(fun_sql(s, n, y));
            }
        }
        for (s, x) in &self.schemas {
            for (n, y) in &x.views {
                v.push(format!("CREATE VIEW {} AS {};", qq(s, n), y.query));
            }
        }
        v
    }
    pub fn build(&self) -> Result<Server, String> {
        let mut s = bare_server();
        s.batch(&self.sql()).map_err(|e| e.msg.to_string())?;
        Ok(s)
    }
    pub fn catalog(&self) -> Result<Dump, String> {
        Ok(catalog(&self.build()?.db, &[]))
    }
    pub fn rel_kind(&self, s: &str, n: &str) -> Option<u8> {
        let x = self.schemas.get(s)?;
        if x.tables.contains_key(n) {
            Some(0)
        } else if x.indexes.contains_key(n) {
            Some(1)
        } else if x.seqs.contains_key(n) {
            Some(2)
        } else if x.views.contains_key(n) {
            Some(3)
        } else {
            None
        }
    }
    pub fn tables(&self) -> Vec<(String, String)> {
        self.schemas.iter().flat_map(|(s, x)| x.tables.keys().map(move |t| (s.clone(), t.clone()))).collect()
    }
    pub fn tab(&self, s: &str, t: &str) -> Option<&Tab> {
        self.schemas.get(s)?.tables.get(t)
    }
    fn tab_mut(&mut self, s: &str, t: &str) -> &mut Tab {
        self.schemas.get_mut(s).unwrap().tables.get_mut(t).unwrap()
    }
    pub fn size(&self) -> usize {
        self.schemas.values().map(|s| 1 + s.tables.values().map(|t| 1 + t.cols.len() + t.cons.len()).sum::<usize>() + s.indexes.len() + s.seqs.len() + s.funcs.len() + s.views.len()).sum()
    }
    /// removes what refers to something that is gone
    fn cascade(&mut self) {
        loop {
            let before = self.clone();
            let src = self.clone();
            for (s, x) in self.schemas.iter_mut() {
                for (_, t) in x.tables.iter_mut() {
                    let names: BTreeSet<String> = t.cols.iter().map(|c| c.name.clone()).collect();
                    t.cons.retain(|_, c| c.cols().iter().all(|k| names.contains(k)));
                    t.cons.retain(|_, c| match c {
                        Con::Fk { ts, tt, tcols, .. } => keys_over(&src, ts, tt, tcols).iter().any(|k| k.2),
                        _ => true,
                    });
                    for c in t.cols.iter_mut() {
                        if let Some(d) = &c.default {
                            if d.starts_with("nextval(") && !src.schemas.iter().any(|(s, x)| x.seqs.keys().any(|n| *d == nextval(s, n))) {
                                c.default = None;
                            }
                        }
                    }
                }
                x.indexes.retain(|_, i| src.tab(s, &i.table).map_or(false, |t| i.keys.iter().all(|k| t.col(&k.1).is_some())));
                x.views.retain(|_, v| v.table.as_ref().map_or(true, |(a, b)| src.tab(a, b).map_or(false, |t| v.cols.iter().all(|c| t.col(c).is_some()))));
            }
            if *self == before {
                break;
            }
        }
    }
}
pub fn nextval(s: &str, n: &str) -> String {
    format!("nextval('{}')", qq(s, n).replace('\'', "''"))
}

fn gen_default(t: &mut Tape, m: &Model, ty: &str) -> Option<String> {
    let seqs: Vec<String> = m.schemas.iter().flat_map(|(s, x)| x.seqs.keys().map(move |n| nextval(s, n))).collect();
    let pick = |t: &mut Tape, v: &[&str]| Some(t.pick(v).to_string());
    match group(ty) {
        0 if !seqs.is_empty() && matches!(ty, "int4" | "int8" | "integer" | "bigint") && t.chance(1, 3) => Some(t.pick(&seqs).clone()),
        0 => pick(t, &["0", "42", "-1", "1 + 1"]),
        1 => pick(t, &["''", "'a=b!'", "'it''s'", "lower('X')", "'x: #y'", "'Ab  c'"]),
        2 => pick(t, &["now()", "'2020-01-01'"]),
        _ => match ty {
            "boolean" => pick(t, &["true", "false"]),
            "jsonb" => pick(t, &["'{}'", "'{\"a\": 1}'"]),
            "text[]" | "int4[]" => pick(t, &["'{}'"]),
            _ => None,
        },
    }
}
fn gen_type(t: &mut Tape) -> String {
    match t.draw(6) {
        0 | 1 => t.pick(NUM),
        2 | 3 => t.pick(TXT),
        4 => t.pick(TIM),
        _ if t.chance(1, 3) => t.pick(PRECISE),
        _ => t.pick(OTHER),
    }
    .to_string()
}
fn gen_col(t: &mut Tape, m: &Model, tab: &Tab) -> Option<Col> {
    let free: Vec<&&str> = COLS.iter().filter(|c| tab.col(c).is_none()).collect();
    if free.is_empty() {
        return None;
    }
    let name = t.pick(&free).to_string();
    let ty = gen_type(t);
    let notnull = t.chance(1, 3);
    let default = if t.chance(1, 3) { gen_default(t, m, &ty) } else { None };
    Some(Col { name, ty, notnull, default })
}
fn gen_defer(t: &mut Tape) -> (bool, bool) {
    match t.draw(5) {
        3 => (true, false),
        4 => (true, true),
        _ => (false, false),
    }
}
fn some_cols(t: &mut Tape, cols: Vec<String>) -> Vec<String> {
    if cols.is_empty() {
        return vec![];
    }
    let mut v = vec![];
    let mut rest = cols;
    loop {
        let k = t.idx(rest.len());
        v.push(rest.remove(k));
        if rest.is_empty() || !t.chance(1, 3) || v.len() == 3 {
            return v;
        }
    }
}
fn gen_con(t: &mut Tape, m: &mut Model, s: &str, tn: &str) -> Option<Con> {
    let tab = m.tab(s, tn)?.clone();
    let keyable: Vec<String> = tab.cols.iter().filter(|c| keyable(&c.ty)).map(|c| c.name.clone()).collect();
    match t.draw(4) {
        0 => {
            if tab.cons.values().any(|c| matches!(c, Con::Pk { .. })) || keyable.is_empty() {
                return None;
            }
            let cols = some_cols(t, keyable);
            for c in m.tab_mut(s, tn).cols.iter_mut() {
                if cols.contains(&c.name) {
                    c.notnull = true;
                }
            }
            let (defer, initdef) = gen_defer(t);
            Some(Con::Pk { cols, defer, initdef })
        }
        1 => {
            if keyable.is_empty() {
                return None;
            }
            let cols = some_cols(t, keyable);
            let (defer, initdef) = gen_defer(t);
            Some(Con::Uq { cols, defer, initdef })
        }
        2 => gen_check(t, &tab),
        _ => {
            // a key to refer to, with columns of the same types here
            let mut cands = vec![];
            for (ts, tt) in m.tables() {
                let tt2 = m.tab(&ts, &tt).unwrap();
                let over = tt2.cons.values().filter(|k| k.is_key()).map(|k| k.cols().to_vec());
                let over = over.chain(m.schemas[&ts].indexes.values().filter(|i| i.unique && i.table == tt).map(|i| i.keys.iter().map(|k| k.1.clone()).collect()));
                for cols in &over.collect::<BTreeSet<Vec<String>>>() {
                    if !keys_over(m, &ts, &tt, cols).iter().any(|k| k.2) {
                        continue;
                    }
                    let mut mine: Vec<String> = vec![];
                    for c in cols {
                        let ty = &tt2.col(c).unwrap().ty;
                        match tab.cols.iter().find(|x| x.ty == *ty && !mine.contains(&x.name) && !((s, tn) == (ts.as_str(), tt.as_str()) && cols.contains(&x.name))) {
                            Some(x) => mine.push(x.name.clone()),
                            None => break,
                        }
                    }
                    if mine.len() == cols.len() {
                        cands.push((ts.clone(), tt.clone(), cols.clone(), mine));
                    }
                }
            }
            if cands.is_empty() {
                return None;
            }
            let (ts, tt, mut tcols, mut cols) = t.pick(&cands).clone();
            turn(t, &mut tcols, &mut cols);
            let (defer, initdef) = gen_defer(t);
            let mat = if t.chance(1, 4) { "FULL" } else { "SIMPLE" }.to_string();
            Some(Con::Fk { cols, ts, tt, tcols, mat, upd: t.pick(RULES).to_string(), del: t.pick(RULES).to_string(), defer, initdef })
        }
    }
}
fn gen_check(t: &mut Tape, tab: &Tab) -> Option<Con> {
    let c: Vec<&Col> = tab.cols.iter().filter(|c| group(&c.ty) < 2).collect();
    if c.is_empty() {
        return None;
    }
    let c = *t.pick(&c);
    let n = q(&c.name);
    let e = if group(&c.ty) == 0 {
        match t.draw(4) {
            0 => format!("{} > 0", n),
            1 => format!("{} >= 0 AND {} < 1000", n, n),
            2 => format!("{} > 0 OR {} = -5", n, n),
            _ => format!("{} IN (1, 2, 3)", n),
        }
    } else {
        match t.draw(4) {
            0 => format!("{} <> ''", n),
            3 => format!("{} <> 'Ab  c'", n),
            1 => format!("length({}) > 2", n),
            _ => format!("{} <> 'a)b' OR {} IS NULL", n, n),
        }
    };
    Some(Con::Ck { expr: e, cols: vec![c.name.clone()] })
}
fn gen_idx(t: &mut Tape, m: &Model, s: &str) -> Option<Idx> {
    let x = m.schemas.get(s)?;
    let tabs: Vec<&String> = x.tables.iter().filter(|(_, t)| t.cols.iter().any(|c| keyable(&c.ty))).map(|(n, _)| n).collect();
    if tabs.is_empty() {
        return None;
    }
    let tn = t.pick(&tabs).to_string();
    let tab = &x.tables[&tn];
    let cols: Vec<String> = tab.cols.iter().filter(|c| keyable(&c.ty)).map(|c| c.name.clone()).collect();
    let hash = t.chance(1, 6);
    let keys: Vec<(String, String)> = if hash {
        let c = t.pick(&cols).clone();
        vec![(q(&c), c)]
    } else {
        some_cols(t, cols)
            .into_iter()
            .map(|c| {
                let n = q(&c);
                let g = group(&tab.col(&c).unwrap().ty);
                let k = match t.draw(7) {
                    3 => format!("{} DESC", n),
                    4 => format!("{} NULLS FIRST", n),
                    6 => format!("{} DESC NULLS LAST", n),
                    5 if g == 1 => format!("lower({})", n),
                    5 if g == 0 => format!("({} + 1)", n),
                    _ => n,
                };
                (k, c)
            })
            .collect()
    };
    let plain = keys.iter().all(|k| k.0.starts_with('"'));
    Some(Idx { table: tn, unique: !hash && plain && t.chance(1, 4), method: if hash { "hash" } else { "btree" }.into(), keys })
}
fn gen_seq(t: &mut Tape) -> Seq {
    let mut s = Seq::default();
    match t.draw(4) {
        0 => {}
        1 => {
            s.ty = Some(t.pick(&["int4", "int2", "int8"]).to_string());
            s.start = Some(1 + t.draw(100) as i64);
        }
        2 => {
            s.inc = Some(*t.pick(&[2, -1, 10, -3]));
            if t.chance(1, 3) {
                s.ty = Some(t.pick(&["int4", "int2", "int8"]).to_string());
            }
            s.cache = Some(1 + t.draw(20) as i64);
        }
        _ => {
            s.min = Some(5);
            s.max = Some(5000 + t.draw(10) as i64);
            s.start = Some(5 + t.draw(50) as i64);
            s.cycle = Some(t.chance(1, 2));
        }
    }
    s
}
fn gen_fun(t: &mut Tape, args: &[&str]) -> Fun {
    let vol = [None, Some("IMMUTABLE"), Some("STABLE"), Some("VOLATILE")][t.idx(4)].map(|s| s.to_string());
    let k = t.draw(100);
    match t.draw(5) {
        0 => Fun { body: format!("SELECT {}", k), lang: None, ret: Some(if k % 5 == 0 { "setof int4" } else { "int4" }.into()), vol },
        4 => Fun { body: format!("SELECT {}", k), lang: None, ret: if k % 3 == 0 { Some("void".into()) } else { None }, vol },
        1 if args.contains(&"b") => Fun { body: "SELECT length(a) + b".into(), lang: Some("SQL".into()), ret: Some("int8".into()), vol },
        2 => Fun { body: format!("BEGIN\n  RETURN {};\nEND", k), lang: Some("plpgsql".into()), ret: Some("int4".into()), vol },
        3 => Fun { body: format!("SELECT 'it''s  $$ {}'", k), lang: Some("SQL".into()), ret: Some("text".into()), vol },
        _ => Fun { body: format!("SELECT {}::text;", k), lang: Some("SQL".into()), ret: Some("text".into()), vol },
    }
}
fn gen_view(t: &mut Tape, m: &Model) -> View {
    let tabs = m.tables();
    if tabs.is_empty() || t.chance(1, 5) {
        return View { query: format!("SELECT {} AS n", t.draw(50)), table: None, cols: vec![] };
    }
    let (s, n) = t.pick(&tabs).clone();
    let tab = m.tab(&s, &n).unwrap();
    let src = qq(&s, &n);
    if tab.cols.is_empty() || t.chance(1, 2) {
        return View { query: format!("SELECT count(*) AS n FROM {}", src), table: Some((s, n)), cols: vec![] };
    }
    let cols = some_cols(t, tab.cols.iter().map(|c| c.name.clone()).collect());
    View { query: format!("SELECT {} FROM {}", ql(&cols), src), table: Some((s, n)), cols }
}

/// changes exactly one attribute of one thing, so that nothing else gives the difference away
fn tweak(t: &mut Tape, m: &mut Model) -> Option<&'static str> {
    let tabs = m.tables();
    let schemas: Vec<String> = m.schemas.keys().cloned().collect();
    if schemas.is_empty() {
        return None;
    }
    match t.draw(12) {
        0 | 1 | 2 | 3 | 4 => {
            let with: Vec<(String, String)> = tabs.into_iter().filter(|(s, n)| !m.tab(s, n).unwrap().cons.is_empty()).collect();
            let (s, n) = (!with.is_empty()).then(|| t.pick(&with).clone())?;
            let tab = m.tab_mut(&s, &n);
            let all: Vec<String> = tab.cols.iter().filter(|c| keyable(&c.ty)).map(|c| c.name.clone()).collect();
            let names: Vec<String> = tab.cons.keys().cloned().collect();
            let fks: Vec<String> = names.iter().filter(|k| matches!(tab.cons[*k], Con::Fk { .. })).cloned().collect();
            let k = if !fks.is_empty() && t.chance(2, 3) { t.pick(&fks).clone() } else { t.pick(&names).clone() };
            let cols_edit = |t: &mut Tape, cols: &mut Vec<String>| match t.draw(3) {
                0 if cols.len() > 1 => cols.reverse(),
                1 if cols.len() > 1 => {
                    cols.pop();
                }
                _ => cols.extend(all.iter().find(|c| !cols.contains(c)).cloned()),
            };
            match tab.cons.get_mut(&k)? {
                Con::Pk { cols, defer, initdef } => match t.draw(3) {
                    0 => (*defer, *initdef) = (!*defer, false),
                    1 if *defer => *initdef = !*initdef,
                    _ => {
                        cols_edit(t, cols);
                        let cols = cols.clone();
                        for c in tab.cols.iter_mut() {
                            c.notnull |= cols.contains(&c.name);
                        }
                    }
                },
                Con::Uq { cols, .. } => cols_edit(t, cols),
                Con::Ck { expr, .. } => {
                    *expr = match expr.find(|c: char| c.is_ascii_digit()) {
                        Some(i) => format!("{}{}{}", &expr[..i], 1 + t.draw(8), &expr[i + 1..]),
                        None => format!("({}) IS NOT FALSE", expr),
                    }
                }
                Con::Fk { cols, tcols, mat, upd, del, defer, initdef, .. } => match t.draw(6) {
                    0 | 5 if *defer => *initdef = !*initdef,
                    0 | 1 | 5 => (*defer, *initdef) = (!*defer, false),
                    2 => *upd = t.pick(RULES).to_string(),
                    3 => *del = t.pick(RULES).to_string(),
                    _ if cols.len() > 1 && t.chance(1, 2) => {
                        cols.reverse();
                        tcols.reverse();
                    }
                    _ => *mat = if mat == "FULL" { "SIMPLE" } else { "FULL" }.into(),
                },
            }
            m.cascade();
            Some("tweak constraint")
        }
        5 | 6 => {
            let with: Vec<String> = schemas.into_iter().filter(|s| !m.schemas[s].indexes.is_empty()).collect();
            let s = (!with.is_empty()).then(|| t.pick(&with).clone())?;
            let x = m.schemas.get_mut(&s)?;
            let names: Vec<String> = x.indexes.keys().cloned().collect();
            let n = t.pick(&names).clone();
            let i = x.indexes.get_mut(&n)?;
            let cols: Vec<String> = x.tables[&i.table].cols.iter().filter(|c| keyable(&c.ty)).map(|c| c.name.clone()).collect();
            match t.draw(5) {
                0 => i.unique = !i.unique,
                1 if i.keys.len() == 1 => i.method = if i.method == "hash" { "btree" } else { "hash" }.into(),
                1 => i.keys.reverse(),
                2 => {
                    let k = t.idx(i.keys.len());
                    let k = &mut i.keys[k];
                    let n = q(&k.1);
                    k.0 = match t.draw(4) {
                        0 => n,
                        1 => format!("{} DESC", n),
                        2 => format!("{} NULLS FIRST", n),
                        _ => format!("{} DESC NULLS LAST", n),
                    };
                }
                3 if i.keys.len() > 1 => {
                    i.keys.pop();
                }
                _ => {
                    let c = t.pick(&cols).clone();
                    i.keys.push((q(&c), c));
                }
            }
            if i.unique && (i.method == "hash" || !i.keys.iter().all(|k| k.0.starts_with('"'))) {
                return None;
            }
            Some("tweak index")
        }
        7 | 8 => {
            let with: Vec<String> = schemas.into_iter().filter(|s| !m.schemas[s].seqs.is_empty()).collect();
            let s = (!with.is_empty()).then(|| t.pick(&with).clone())?;
            let x = m.schemas.get_mut(&s)?;
            let names: Vec<String> = x.seqs.keys().cloned().collect();
            let n = t.pick(&names).clone();
            let i = x.seqs.get_mut(&n)?;
            let alt = |t: &mut Tape, v: Option<i64>, d: i64| match v {
                Some(x) if t.chance(1, 2) => Some(x + 1),
                Some(_) => None,
                None => Some(d),
            };
            match t.draw(7) {
                0 => i.ty = t.pick(&[None, Some("int4"), Some("int2"), Some("int8")]).map(|s| s.to_string()),
                1 => {
                    i.inc = match i.inc {
                        Some(x) if t.chance(1, 3) => Some(-x),
                        None if i.min.is_some() && i.max.is_some() && t.chance(1, 2) => Some(-1),
                        x => alt(t, x, 3),
                    }
                }
                2 => i.min = alt(t, i.min, 1),
                3 => i.max = alt(t, i.max, 9000),
                4 => i.start = alt(t, i.start, 7),
                5 => i.cache = alt(t, i.cache, 4),
                _ => i.cycle = *t.pick(&[None, Some(true), Some(false)]),
            }
            Some("tweak sequence")
        }
        9 | 10 => {
            let with: Vec<String> = schemas.into_iter().filter(|s| !m.schemas[s].funcs.is_empty()).collect();
            let s = (!with.is_empty()).then(|| t.pick(&with).clone())?;
            let x = m.schemas.get_mut(&s)?;
            let names: Vec<String> = x.funcs.keys().cloned().collect();
            let n = t.pick(&names).clone();
            let f = x.funcs.get_mut(&n)?;
            match t.draw(4) {
                0 => f.vol = t.pick(&[None, Some("IMMUTABLE"), Some("STABLE"), Some("VOLATILE")]).map(|s| s.to_string()),
                1 if f.lang.as_deref() != Some("plpgsql") => f.body = format!("{} ", f.body),
                1 => f.body = format!("{}\n", f.body),
                2 if f.lang.as_deref() != Some("plpgsql") => f.lang = t.pick(&[None, Some("SQL"), Some("sql")]).map(|s| s.to_string()),
                2 => f.body = f.body.replace("RETURN", "return"),
                _ => f.ret = f.ret.as_ref().map(|r| match r.as_str() {
                    "int4" => if t.chance(1, 3) && f.lang.as_deref() != Some("plpgsql") { "setof int4" } else { "int8" }.to_string(),
                    "setof int4" => "int4".to_string(),
                    "int8" => "integer".to_string(),
                    "void" => "void".to_string(),
                    _ => "varchar".to_string(),
                }),
            }
            Some("tweak function")
        }
        _ => {
            let with: Vec<String> = schemas.into_iter().filter(|s| !m.schemas[s].views.is_empty()).collect();
            let s = (!with.is_empty()).then(|| t.pick(&with).clone())?;
            let x = m.schemas.get_mut(&s)?;
            let names: Vec<String> = x.views.keys().cloned().collect();
            let v = x.views.get_mut(t.pick(&names))?;
            match t.draw(3) {
                0 if v.cols.len() > 1 => {
                    v.query = v.query.replacen(&ql(&v.cols), &ql(&v.cols[..v.cols.len() - 1]), 1);
                    v.cols.pop();
                }
                1 if v.table.is_some() => v.query = format!("{} WHERE {} > 0", v.query.split(" WHERE ").next()?, t.draw(9)),
                _ => v.query = format!("{} LIMIT {}", v.query.split(" LIMIT ").next()?, 1 + t.draw(9)),
            }
            Some("tweak view")
        }
    }
}
/// changes a letter or the spacing of a string constant
fn twist(t: &mut Tape, e: &str) -> Option<String> {
    let (a, rest) = e.split_once('\'')?;
    let (x, b) = rest.split_once('\'')?;
    let i = x.find(|c: char| c.is_ascii_alphabetic())?;
    let y = match t.draw(4) {
        0 => format!("{} ", x),
        1 => format!(" {}", x),
        2 if x.contains("  ") => x.replacen("  ", " ", 1),
        _ => {
            let c = x.as_bytes()[i] as char;
            let c = if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() };
            format!("{}{}{}", &x[..i], c, &x[i + 1..])
        }
    };
    Some(format!("{}'{}'{}", a, y, b))
}
/// changes only the spelling of something that looks the same to a careless comparison; what there is to respell comes
/// with the first edit of this kind
fn respell(t: &mut Tape, m: &mut Model) -> Option<&'static str> {
    enum At {
        Default(String, String, usize),
        Con(String, String, String),
        Fun(String, String),
        View(String, String),
        Ix(String, String, usize, String),
    }
    let mut can = vec![];
    for (s, n) in m.tables() {
        let tab = m.tab(&s, &n).unwrap();
        for (i, c) in tab.cols.iter().enumerate() {
            if c.ty == "text" && c.default.as_ref().map_or(false, |d| d.starts_with('\'') && d.len() > 2) {
                can.push(At::Default(s.clone(), n.clone(), i));
            }
        }
        for (k, c) in &tab.cons {
            let twin = |cols: &[String]| cols.len() > 1 && cols.iter().filter_map(|c| tab.col(c)).map(|c| c.ty.as_str()).collect::<BTreeSet<_>>().len() == 1;
            if matches!(c, Con::Ck { expr, .. } if expr.contains('\'')) || matches!(c, Con::Fk { cols, .. } if twin(cols)) {
                can.push(At::Con(s.clone(), n.clone(), k.clone()));
            }
        }
    }
    for (s, x) in &m.schemas {
        can.extend(x.funcs.keys().map(|f| At::Fun(s.clone(), f.clone())));
        can.extend(x.views.iter().filter(|f| f.1.query.contains('\'')).map(|f| At::View(s.clone(), f.0.clone())));
        // a column whose name differs only in case
        for (n, i) in &x.indexes {
            let cols = &x.tables[&i.table].cols;
            for (k, key) in i.keys.iter().enumerate() {
                if let Some(o) = cols.iter().find(|o| o.name != key.1 && o.name.to_lowercase() == key.1.to_lowercase() && keyable(&o.ty)) {
                    can.push(At::Ix(s.clone(), n.clone(), k, o.name.clone()));
                }
            }
        }
    }
    if can.is_empty() || t.chance(1, 4) {
        let schemas: Vec<String> = m.schemas.keys().cloned().collect();
        let s = (!schemas.is_empty()).then(|| t.pick(&schemas).clone())?;
        if ["pair", "pairs"].iter().any(|n| m.rel_kind(&s, n).is_some()) {
            return None;
        }
        let col = |n: &str, ty: &str, d: Option<&str>| Col { name: n.into(), ty: ty.into(), notnull: false, default: d.map(|d| d.into()) };
        let ab = || vec!["a".to_string(), "b".to_string()];
        let mut pairs = Tab::default();
        pairs.cols = vec![col("a", "int4", None), col("b", "int4", None), col("A", "int4", None), col("name", "text", Some("'Some  name '"))];
        pairs.cons.insert("pairs_k0".into(), Con::Uq { cols: ab(), defer: false, initdef: false });
        let mut pair = Tab::default();
        pair.cols = vec![col("a", "int4", None), col("b", "int4", None), col("name", "text", Some("'a'"))];
        let rule = "NO ACTION".to_string();
        pair.cons.insert("pair_k0".into(), Con::Fk { cols: ab(), ts: s.clone(), tt: "pairs".into(), tcols: ab(), mat: "SIMPLE".into(), upd: rule.clone(), del: rule, defer: false, initdef: false });
        pair.cons.insert("pair_k1".into(), Con::Ck { expr: "\"name\" <> 'Some  name'".into(), cols: vec!["name".into()] });
        let x = m.schemas.get_mut(&s)?;
        x.tables.insert("pairs".into(), pairs);
        x.tables.insert("pair".into(), pair);
        if ["pairs_i", "pairs_v"].iter().all(|n| m.rel_kind(&s, n).is_none()) {
            let x = m.schemas.get_mut(&s)?;
            if t.chance(1, 2) {
                x.indexes.insert("pairs_i".into(), Idx { table: "pairs".into(), keys: vec![(q("a"), "a".into())], unique: false, method: "btree".into() });
            }
            if t.chance(1, 2) {
                let query = format!("SELECT \"name\" FROM {} WHERE \"name\" <> 'Some  name '", qq(&s, "pairs"));
                x.views.insert("pairs_v".into(), View { query, table: Some((s, "pairs".into())), cols: vec!["name".into()] });
            }
        }
        return Some("put pairs");
    }
    match &can[t.idx(can.len())] {
        At::Default(s, n, i) => {
            let c = &mut m.tab_mut(s, n).cols[*i];
            c.default = Some(twist(t, c.default.as_ref()?)?);
        }
        At::Con(s, n, k) => match m.tab_mut(s, n).cons.get_mut(k)? {
            Con::Ck { expr, .. } => *expr = twist(t, expr)?,
            Con::Fk { cols, tcols, .. } => {
                // the same columns, paired the other way
                if t.chance(1, 2) {
                    cols.swap(0, 1)
                } else {
                    tcols.swap(0, 1)
                }
            }
            _ => return None,
        },
        At::Fun(s, n) => {
            let f = m.schemas.get_mut(s)?.funcs.get_mut(n)?;
            f.body = match t.draw(3) {
                0 if f.body.contains('\'') => twist(t, &f.body)?,
                1 => format!("{} ", f.body),
                _ => format!("{}\n", f.body),
            }
        }
        At::View(s, n) => {
            let v = m.schemas.get_mut(s)?.views.get_mut(n)?;
            v.query = twist(t, &v.query)?;
        }
        At::Ix(s, n, k, o) => {
            let key = &mut m.schemas.get_mut(s)?.indexes.get_mut(n)?.keys[*k];
            key.0 = key.0.replacen(&q(&key.1), &q(o), 1);
            key.1 = o.clone();
        }
    }
    Some("respell")
}
/// carries one thing over to another schema or name, as it is
fn carry(t: &mut Tape, m: &mut Model) -> Option<&'static str> {
    let tabs = m.tables();
    let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
    let schemas: Vec<String> = m.schemas.keys().cloned().collect();
    let s2 = t.pick(&schemas).clone();
    let n2 = if s2 != s && t.chance(2, 3) { n.clone() } else { t.pick(TABLES).to_string() };
    if m.rel_kind(&s2, &n2).is_some() {
        return None;
    }
    let keep = t.chance(1, 2);
    let tab = m.tab(&s, &n)?.clone();
    let idx: Vec<(String, Idx)> = m.schemas[&s].indexes.iter().filter(|(_, i)| i.table == n).map(|(k, i)| (k.clone(), i.clone())).collect();
    if !keep {
        m.schemas.get_mut(&s)?.tables.remove(&n);
        for (k, _) in &idx {
            m.schemas.get_mut(&s)?.indexes.remove(k);
        }
    }
    let x = m.schemas.get_mut(&s2)?;
    x.tables.insert(n2.clone(), tab);
    for (k, mut i) in idx {
        i.table = n2.clone();
        if s2 != s || !keep {
            x.indexes.entry(k).or_insert(i);
        }
    }
    m.cascade();
    Some("carry table")
}

/// the pairs of a foreign key in another order than in the key it refers to
fn turn(t: &mut Tape, tcols: &mut [String], cols: &mut [String]) {
    if tcols.len() > 1 && t.chance(1, 3) {
        tcols.rotate_left(1);
        cols.rotate_left(1);
    }
}
/// a foreign key together with what it needs: a key to refer to and columns of its types
fn gen_fk(t: &mut Tape, m: &mut Model) -> Option<&'static str> {
    let tabs = m.tables();
    let (ps, pn) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
    let (s, n) = t.pick(&tabs).clone();
    let keys: Vec<Vec<String>> = m
        .tab(&ps, &pn)?
        .cons
        .values()
        .filter_map(|k| match k {
            Con::Pk { cols, defer: false, .. } | Con::Uq { cols, defer: false, .. } => Some(cols.clone()),
            _ => None,
        })
        .chain(m.schemas[&ps].indexes.values().filter(|i| i.unique && i.table == pn && i.keys.iter().all(|k| k.0.starts_with('"'))).map(|i| i.keys.iter().map(|k| k.1.clone()).collect()))
        .collect();
    let mut tcols = if keys.is_empty() {
        let tab = m.tab(&ps, &pn)?.clone();
        let all: Vec<String> = tab.cols.iter().filter(|c| keyable(&c.ty)).map(|c| c.name.clone()).collect();
        let cols = some_cols(t, all);
        if cols.is_empty() || tab.cons.contains_key(&format!("{}_k3", pn)) {
            return None;
        }
        // a unique index serves as well
        let free: Vec<&&str> = INDEXES.iter().filter(|n| m.rel_kind(&ps, n).is_none()).collect();
        if !free.is_empty() && t.chance(1, 4) {
            let k = t.pick(&free).to_string();
            let keys = cols.iter().map(|c| (format!("{}{}", q(c), if t.chance(1, 6) { " DESC" } else { "" }), c.clone())).collect();
            m.schemas.get_mut(&ps)?.indexes.insert(k, Idx { table: pn.clone(), keys, unique: true, method: "btree".into() });
        } else {
            m.tab_mut(&ps, &pn).cons.insert(format!("{}_k3", pn), Con::Uq { cols: cols.clone(), defer: false, initdef: false });
        }
        cols
    } else {
        t.pick(&keys).clone()
    };
    let types: Vec<String> = tcols.iter().map(|c| m.tab(&ps, &pn).unwrap().col(c).unwrap().ty.clone()).collect();
    let tab = m.tab_mut(&s, &n);
    let mut cols: Vec<String> = vec![];
    for ty in types {
        match tab.cols.iter().find(|x| x.ty == ty && !cols.contains(&x.name) && !((&s, &n) == (&ps, &pn) && tcols.contains(&x.name))) {
            Some(c) => cols.push(c.name.clone()),
            None => {
                let free: Vec<&&str> = COLS.iter().filter(|c| tab.col(c).is_none()).collect();
                let name = (!free.is_empty()).then(|| t.pick(&free).to_string())?;
                tab.cols.push(Col { name: name.clone(), ty, notnull: false, default: None });
                cols.push(name);
            }
        }
    }
    let k = format!("{}_k{}", n, t.draw(3));
    if tab.cons.contains_key(&k) {
        return None;
    }
    turn(t, &mut tcols, &mut cols);
    let (defer, initdef) = gen_defer(t);
    let mat = if t.chance(1, 4) { "FULL" } else { "SIMPLE" }.to_string();
    tab.cons.insert(k, Con::Fk { cols, ts: ps, tt: pn, tcols, mat, upd: t.pick(RULES).to_string(), del: t.pick(RULES).to_string(), defer, initdef });
    Some("add reference")
}

/// a foreign key that stays but refers to something else: one part of what it refers to changes
fn redirect(t: &mut Tape, m: &mut Model) -> Option<&'static str> {
    let mut fks: Vec<(String, String, String)> = vec![];
    for (s, n) in m.tables() {
        for (k, c) in &m.tab(&s, &n)?.cons {
            if matches!(c, Con::Fk { .. }) {
                fks.push((s.clone(), n.clone(), k.clone()));
            }
        }
    }
    let (s, n, k) = (!fks.is_empty()).then(|| t.pick(&fks).clone())?;
    let Con::Fk { ts, tt, tcols, .. } = m.tab(&s, &n)?.cons[&k].clone() else { return None };
    let how = t.draw(3);
    let (mut s2, mut t2, mut c2) = (ts.clone(), tt.clone(), tcols.clone());
    match how {
        0 => {
            let other: Vec<String> = m.schemas.keys().filter(|x| **x != ts).cloned().collect();
            s2 = (!other.is_empty()).then(|| t.pick(&other).clone())?;
        }
        1 => {
            let free: Vec<&&str> = TABLES.iter().filter(|n| m.rel_kind(&ts, n).is_none()).collect();
            t2 = if !free.is_empty() && t.chance(3, 4) { t.pick(&free).to_string() } else { t.pick(TABLES).to_string() };
        }
        _ => {
            // another key of the same table, over columns of the same types
            let u = m.tab(&ts, &tt)?;
            let ty = |v: &[String]| -> Vec<String> { v.iter().filter_map(|c| u.col(c).map(|c| c.ty.clone())).collect() };
            let keys: Vec<Vec<String>> = u.cons.values().filter(|x| x.is_key() && x.cols() != &tcols[..] && ty(x.cols()) == ty(&tcols)).map(|x| x.cols().to_vec()).collect();
            if keys.is_empty() {
                let cols: Vec<String> = tcols
                    .iter()
                    .filter_map(|c| {
                        let free: Vec<&Col> = u.cols.iter().filter(|x| !tcols.contains(&x.name) && Some(&x.ty) == u.col(c).map(|c| &c.ty)).collect();
                        (!free.is_empty()).then(|| t.pick(&free).name.clone())
                    })
                    .collect();
                let name = format!("{}_k4", tt);
                if cols.len() != tcols.len() || cols.iter().collect::<BTreeSet<_>>().len() != cols.len() || u.cons.contains_key(&name) {
                    return None;
                }
                m.tab_mut(&ts, &tt).cons.insert(name, Con::Uq { cols: cols.clone(), defer: false, initdef: false });
                c2 = cols;
            } else {
                c2 = t.pick(&keys).clone();
            }
        }
    }
    if m.rel_kind(&s2, &t2).map_or(false, |k| k != 0) {
        return None;
    }
    if m.tab(&s2, &t2).is_none() {
        let mut u = m.tab(&ts, &tt)?.clone();
        u.cons.retain(|_, c| c.is_key());
        if s2 == ts {
            u.cons = u.cons.into_iter().enumerate().map(|(i, (_, c))| (format!("{}_k{}", t2, i), c)).collect();
        }
        m.schemas.get_mut(&s2)?.tables.insert(t2.clone(), u);
    }
    if let Some(Con::Fk { ts, tt, tcols, .. }) = m.tab_mut(&s, &n).cons.get_mut(&k) {
        (*ts, *tt, *tcols) = (s2, t2, c2);
    }
    m.cascade();
    Some(["reference to another schema", "reference to another table", "reference to another key"][how as usize])
}

/// one random edit
fn edit(t: &mut Tape, m: &mut Model) -> Option<&'static str> {
    let k = t.draw(44);
    edit_kind(t, m, k)
}
fn edit_kind(t: &mut Tape, m: &mut Model, kind: u64) -> Option<&'static str> {
    let schemas: Vec<String> = m.schemas.keys().cloned().collect();
    let tabs = m.tables();
    let pool: Vec<String> = m.schemas.iter().filter(|(_, x)| x.tables.len() < 5).map(|(s, _)| s.clone()).collect();
    match kind {
        0 | 1 | 2 => {
            if pool.is_empty() {
                return None;
            }
            let s = t.pick(&pool).clone();
            let n = t.pick(TABLES).to_string();
            if m.rel_kind(&s, &n).is_some() {
                return None;
            }
            let mut tab = Tab::default();
            for _ in 0..1 + t.draw(4) {
                tab.cols.extend(gen_col(t, m, &tab));
            }
            m.schemas.get_mut(&s)?.tables.insert(n.clone(), tab);
            for k in 0..t.draw(3) {
                if let Some(c) = gen_con(t, m, &s, &n) {
                    m.tab_mut(&s, &n).cons.insert(format!("{}_k{}", n, k), c);
                }
            }
            Some("create table")
        }
        3 => {
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            m.schemas.get_mut(&s)?.tables.remove(&n);
            m.cascade();
            Some("drop table")
        }
        4 | 5 | 6 => {
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let tab = m.tab(&s, &n)?.clone();
            let c = gen_col(t, m, &tab)?;
            let at = t.idx(tab.cols.len() + 1);
            m.tab_mut(&s, &n).cols.insert(tab.cols.len() - at, c);
            Some("add column")
        }
        7 => {
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let tab = m.tab_mut(&s, &n);
            if tab.cols.is_empty() {
                return None;
            }
            let k = t.idx(tab.cols.len());
            tab.cols.remove(k);
            m.cascade();
            Some("drop column")
        }
        8 | 9 | 10 | 11 => {
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let snap = m.clone();
            let tab = m.tab_mut(&s, &n);
            if tab.cols.is_empty() {
                return None;
            }
            let k = t.idx(tab.cols.len());
            let name = tab.cols[k].name.clone();
            let in_pk = tab.cons.values().any(|c| matches!(c, Con::Pk { cols, .. } if cols.contains(&name)));
            let c = &mut tab.cols[k];
            match t.draw(3) {
                0 => {
                    let g = group(&c.ty);
                    if g > 2 {
                        return None;
                    }
                    c.ty = t.pick([NUM, TXT, TIM][g as usize]).to_string();
                    if c.default.as_ref().map_or(false, |d| d.starts_with("nextval")) || t.chance(1, 3) {
                        c.default = None;
                    }
                    if t.chance(1, 4) {
                        c.default = gen_default(t, &snap, &c.ty.clone());
                    }
                }
                1 if !in_pk => c.notnull = !c.notnull,
                _ => c.default = if c.default.is_some() && t.chance(1, 2) { None } else { gen_default(t, &snap, &c.ty.clone()) },
            }
            Some("alter column")
        }
        12 | 13 | 14 => {
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let k = format!("{}_k{}", n, t.draw(4));
            if m.tab(&s, &n)?.cons.contains_key(&k) {
                m.tab_mut(&s, &n).cons.remove(&k);
            }
            let c = gen_con(t, m, &s, &n)?;
            m.tab_mut(&s, &n).cons.insert(k, c);
            m.cascade();
            Some("put constraint")
        }
        15 => {
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let tab = m.tab_mut(&s, &n);
            let names: Vec<String> = tab.cons.keys().cloned().collect();
            if names.is_empty() {
                return None;
            }
            tab.cons.remove(t.pick(&names));
            m.cascade();
            Some("drop constraint")
        }
        16 => {
            // change the options of a constraint
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let tab = m.tab_mut(&s, &n);
            let names: Vec<String> = tab.cons.keys().cloned().collect();
            if names.is_empty() {
                return None;
            }
            match tab.cons.get_mut(t.pick(&names))? {
                Con::Pk { defer, initdef, .. } => (*defer, *initdef) = gen_defer(t),
                Con::Fk { upd, del, mat, defer, initdef, .. } => {
                    if t.chance(1, 2) {
                        (*defer, *initdef) = gen_defer(t)
                    } else {
                        *upd = t.pick(RULES).to_string();
                        *del = t.pick(RULES).to_string();
                        *mat = if t.chance(1, 2) { "FULL" } else { "SIMPLE" }.into();
                    }
                }
                Con::Ck { expr, .. } => *expr = format!("({}) IS NOT FALSE", expr),
                Con::Uq { .. } => return None,
            }
            m.cascade();
            Some("alter constraint")
        }
        17 | 18 => {
            let s = (!schemas.is_empty()).then(|| t.pick(&schemas).clone())?;
            let n = t.pick(INDEXES).to_string();
            if m.schemas[&s].indexes.contains_key(&n) && t.chance(1, 3) {
                m.schemas.get_mut(&s)?.indexes.remove(&n);
                return Some("drop index");
            }
            if m.rel_kind(&s, &n).map_or(false, |k| k != 1) {
                return None;
            }
            let x = gen_idx(t, m, &s)?;
            m.schemas.get_mut(&s)?.indexes.insert(n, x);
            Some("put index")
        }
        19 => {
            let s = (!schemas.is_empty()).then(|| t.pick(&schemas).clone())?;
            let n = t.pick(SEQS).to_string();
            if m.rel_kind(&s, &n).map_or(false, |k| k != 2) {
                return None;
            }
            if m.schemas[&s].seqs.contains_key(&n) && t.chance(1, 2) {
                m.schemas.get_mut(&s)?.seqs.remove(&n);
                m.cascade();
                return Some("drop sequence");
            }
            let x = gen_seq(t);
            m.schemas.get_mut(&s)?.seqs.insert(n, x);
            Some("put sequence")
        }
        20 => {
            let s = (!schemas.is_empty()).then(|| t.pick(&schemas).clone())?;
            let (n, args) = *t.pick(FUNCS);
            let x = m.schemas.get_mut(&s)?;
            if x.funcs.contains_key(n) && t.chance(1, 2) {
                x.funcs.remove(n);
                return Some("drop function");
            }
            x.funcs.retain(|o, _| o == n || !same_function(o, n));
            x.funcs.insert(n.into(), gen_fun(t, args));
            Some("put function")
        }
        21 => {
            let s = (!schemas.is_empty()).then(|| t.pick(&schemas).clone())?;
            let n = t.pick(VIEWS).to_string();
            if m.rel_kind(&s, &n).map_or(false, |k| k != 3) {
                // the name changes its kind
                if !t.chance(1, 3) {
                    return None;
                }
                let x = m.schemas.get_mut(&s)?;
                x.tables.remove(&n);
                x.seqs.remove(&n);
                m.cascade();
            } else if m.schemas[&s].views.contains_key(&n) && t.chance(1, 2) {
                m.schemas.get_mut(&s)?.views.remove(&n);
                return Some("drop view");
            }
            let v = gen_view(t, m);
            m.schemas.get_mut(&s)?.views.insert(n, v);
            Some("put view")
        }
        22 => {
            let s = t.pick(SCHEMAS).to_string();
            if m.schemas.contains_key(&s) {
                return None;
            }
            m.schemas.insert(s, Sch::default());
            Some("create schema")
        }
        24 | 25 | 26 | 27 | 28 | 29 => tweak(t, m),
        30 => carry(t, m),
        38 | 39 => redirect(t, m),
        40 | 41 | 42 | 43 => respell(t, m),
        31 | 32 | 33 => gen_fk(t, m),
        35 => {
            // a unique constraint becomes an index of the same name or the other way round
            let (s, n) = (!tabs.is_empty()).then(|| t.pick(&tabs).clone())?;
            let tab = m.tab(&s, &n)?.clone();
            let uq: Vec<(String, Vec<String>)> = tab.cons.iter().filter_map(|(k, c)| if let Con::Uq { cols, .. } = c { Some((k.clone(), cols.clone())) } else { None }).collect();
            let ix: Vec<String> = m.schemas[&s].indexes.iter().filter(|(_, i)| i.table == n && i.unique && i.method == "btree" && i.keys.iter().all(|k| k.0 == q(&k.1))).map(|(k, _)| k.clone()).collect();
            if !uq.is_empty() && (ix.is_empty() || t.chance(1, 2)) {
                let (k, cols) = t.pick(&uq).clone();
                if m.rel_kind(&s, &k).is_some() {
                    return None;
                }
                m.tab_mut(&s, &n).cons.remove(&k);
                m.schemas.get_mut(&s)?.indexes.insert(k, Idx { table: n, keys: cols.iter().map(|c| (q(c), c.clone())).collect(), unique: true, method: "btree".into() });
            } else {
                let k = (!ix.is_empty()).then(|| t.pick(&ix).clone())?;
                let i = m.schemas.get_mut(&s)?.indexes.remove(&k)?;
                m.tab_mut(&s, &n).cons.insert(k, Con::Uq { cols: i.keys.iter().map(|k| k.1.clone()).collect(), defer: false, initdef: false });
            }
            m.cascade();
            Some("constraint and index swap")
        }
        36 | 37 => {
            // something goes away
            let mut have: Vec<(u8, String, String)> = vec![];
            for (s, x) in &m.schemas {
                have.extend(x.indexes.keys().map(|n| (0, s.clone(), n.clone())));
                have.extend(x.seqs.keys().map(|n| (1, s.clone(), n.clone())));
                have.extend(x.funcs.keys().map(|n| (2, s.clone(), n.clone())));
                have.extend(x.views.keys().map(|n| (3, s.clone(), n.clone())));
                have.extend(x.tables.iter().filter(|(_, y)| y.cols.len() > 1).map(|(n, _)| (4, s.clone(), n.clone())));
            }
            let kinds: BTreeSet<u8> = have.iter().map(|h| h.0).collect();
            let kinds: Vec<u8> = kinds.into_iter().collect();
            let k = (!kinds.is_empty()).then(|| *t.pick(&kinds))?;
            have.retain(|h| h.0 == k);
            let (_, s, n) = t.pick(&have).clone();
            let x = m.schemas.get_mut(&s)?;
            match k {
                0 => drop(x.indexes.remove(&n)),
                1 => drop(x.seqs.remove(&n)),
                2 => drop(x.funcs.remove(&n)),
                3 => drop(x.views.remove(&n)),
                _ => {
                    let c = &mut x.tables.get_mut(&n)?.cols;
                    let i = t.idx(c.len());
                    c.remove(i);
                }
            }
            m.cascade();
            Some(["drop index", "drop sequence", "drop function", "drop view", "drop column"][k as usize])
        }
        34 => {
            // a relation becomes one of another kind
            let s = (!schemas.is_empty()).then(|| t.pick(&schemas).clone())?;
            let x = m.schemas.get_mut(&s)?;
            let names: Vec<String> = x.tables.keys().chain(x.indexes.keys()).chain(x.seqs.keys()).chain(x.views.keys()).cloned().collect();
            let n = (!names.is_empty()).then(|| t.pick(&names).clone())?;
            let old = m.rel_kind(&s, &n)?;
            let new = (old + 1 + t.draw(3) as u8) % 4;
            let x = m.schemas.get_mut(&s)?;
            x.tables.remove(&n);
            x.indexes.remove(&n);
            x.seqs.remove(&n);
            x.views.remove(&n);
            m.cascade();
            match new {
                0 => {
                    let mut tab = Tab::default();
                    for _ in 0..1 + t.draw(3) {
                        tab.cols.extend(gen_col(t, m, &tab));
                    }
                    m.schemas.get_mut(&s)?.tables.insert(n, tab);
                }
                1 => {
                    let y = gen_idx(t, m, &s)?;
                    m.schemas.get_mut(&s)?.indexes.insert(n, y);
                }
                2 => {
                    let y = gen_seq(t);
                    m.schemas.get_mut(&s)?.seqs.insert(n, y);
                }
                _ => {
                    let y = gen_view(t, m);
                    m.schemas.get_mut(&s)?.views.insert(n, y);
                }
            }
            Some("relation of another kind")
        }
        _ => {
            let s = t.pick(SCHEMAS).to_string();
            if s == "public" && !t.chance(1, 4) {
                return None;
            }
            m.schemas.remove(&s)?;
            m.cascade();
            Some("drop schema")
        }
    }
}

/// whether the step from one to the other is one whose migration has to work (see DESIGN.md for what is left out)
pub fn allowed(a: &Model, b: &Model) -> bool {
    let used_views = |m: &Model, o: &Model| -> Vec<View> {
        let mut v = vec![];
        for (s, x) in &m.schemas {
            for (n, w) in &x.views {
                if o.schemas.get(s).and_then(|y| y.views.get(n)).map_or(false, |z| z.query == w.query) {
                    v.push(w.clone());
                }
            }
        }
        v
    };
    for (s, x) in &a.schemas {
        for (n, t) in &x.tables {
            let Some(u) = b.tab(s, n) else { continue };
            for c in &t.cols {
                let Some(d) = u.col(&c.name) else { continue };
                if c.ty != d.ty {
                    if group(&c.ty) != group(&d.ty) || group(&c.ty) > 2 {
                        return false;
                    }
                    let key = |m: &Model| {
                        m.schemas.iter().any(|(s2, y)| {
                            y.tables.iter().any(|(n2, t2)| {
                                t2.cons.values().any(|k| match k {
                                    Con::Fk { cols, ts, tt, tcols, .. } => (s2 == s && n2 == n && cols.contains(&c.name)) || (ts == s && tt == n && tcols.contains(&c.name)),
                                    Con::Ck { .. } => false,
                                    _ => false,
                                })
                            }) || y.indexes.values().any(|i| s2 == s && i.table == *n && i.keys.iter().any(|k| k.1 == c.name && !k.0.starts_with('"')))
                        })
                    };
                    if key(a) || key(b) {
                        return false;
                    }
                    for v in used_views(a, b) {
                        if v.table.as_ref() == Some(&(s.clone(), n.clone())) && v.cols.contains(&c.name) {
                            return false;
                        }
                    }
                    if let (Some(x), Some(_)) = (&c.default, &d.default) {
                        // dates and times in a default that was cast are written differently
                        if group(&c.ty) == 2 || x.starts_with("nextval") {
                            return false;
                        }
                    }
                }
                // a sequence that goes away or is recreated while a default uses it
                if let Some(x) = &c.default {
                    for (ss, y) in &a.schemas {
                        for (sn, sq) in &y.seqs {
                            if *x == nextval(ss, sn) && b.schemas.get(ss).and_then(|z| z.seqs.get(sn)) != Some(sq) && d.default.is_some() {
                                return false;
                            }
                        }
                    }
                }
                if let Some(y) = &d.default {
                    // and the same on the way down
                    for (ss, z) in &b.schemas {
                        for (sn, sq) in &z.seqs {
                            if *y == nextval(ss, sn) && a.schemas.get(ss).and_then(|z| z.seqs.get(sn)) != Some(sq) && c.default.is_some() {
                                return false;
                            }
                        }
                    }
                }
            }
            for (k, c) in &t.cons {
                match (c, u.cons.get(k)) {
                    (Con::Uq { cols, defer, initdef }, Some(Con::Uq { cols: c2, defer: d2, initdef: i2 })) if cols == c2 && (defer, initdef) != (d2, i2) => return false,
                    // the key a remaining foreign key refers to has to remain as well
                    (Con::Fk { cols, ts, tt, tcols, mat, upd, del, .. }, Some(Con::Fk { cols: c2, ts: s2, tt: t2, tcols: tc2, mat: m2, upd: u2, del: e2, .. }))
                        if (cols, ts, tt, tcols, mat, upd, del) == (c2, s2, t2, tc2, m2, u2, e2) =>
                    {
                        let keys = |m: &Model| keys_over(m, ts, tt, tcols);
                        if keys(a) != keys(b) {
                            return false;
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    // views that stay need their columns to stay
    for v in used_views(a, b) {
        if let Some((s, n)) = &v.table {
            match (a.tab(s, n), b.tab(s, n)) {
                (Some(x), Some(y)) => {
                    if v.cols.iter().any(|c| x.col(c).is_none() || y.col(c).is_none()) {
                        return false;
                    }
                }
                _ => return false,
            }
        }
    }
    true
}
/// a foreign key needs exactly one key to refer to, so that it is clear which one it depends on
fn clear_keys(m: &Model) -> bool {
    m.schemas.values().all(|x| {
        x.tables.values().all(|t| {
            t.cons.values().all(|c| match c {
                Con::Fk { ts, tt, tcols, .. } => matches!(&keys_over(m, ts, tt, tcols)[..], [(_, _, true)]),
                _ => true,
            })
        })
    })
}

/// a schema with something of every kind, put together at once
pub fn bulk(t: &mut Tape, base: &Model, cur: &Model) -> (Model, Vec<&'static str>) {
    let mut m = cur.clone();
    let mut kinds = vec![];
    let mut plan: Vec<u64> = vec![22];
    let n = 2 + t.draw(3);
    plan.extend(std::iter::repeat(0).take(n as usize));
    let n = 1 + t.draw(3);
    plan.extend(std::iter::repeat(31).take(n as usize));
    for (k, most) in [(12, 2), (17, 3), (19, 2), (20, 2), (21, 2), (40, 1)] {
        let n = t.draw(most + 1);
        plan.extend(std::iter::repeat(k).take(n as usize));
    }
    for k in plan {
        for _ in 0..3 {
            let mut c = m.clone();
            if let Some(w) = edit_kind(t, &mut c, k) {
                if c != m && c.size() < 90 && clear_keys(&c) && allowed(base, &c) && c.build().is_ok() {
                    m = c;
                    kinds.push(w);
                    break;
                }
            }
        }
    }
    (m, kinds)
}

/// edits `cur` n times, so that the step from `base` stays allowed; returns the kinds of edits made
pub fn mutate(t: &mut Tape, base: &Model, cur: &Model, n: u64) -> (Model, Vec<&'static str>) {
    let mut m = cur.clone();
    let mut kinds = vec![];
    for _ in 0..n {
        t.begin();
        for _ in 0..3 {
            let mut c = m.clone();
            // alone, so that nothing else gives it away
            let alone = n == 1 && c.schemas.values().any(|x| x.tables.contains_key("pairs")) && t.chance(1, 3);
            let k = if alone {
                respell(t, &mut c)
            } else if n == 1 && t.chance(1, 5) {
                tweak(t, &mut c)
            } else {
                edit(t, &mut c)
            };
            if let Some(k) = k {
                if c != m && c.size() < 90 && clear_keys(&c) && allowed(base, &c) && c.build().is_ok() {
                    m = c;
                    kinds.push(k);
                    break;
                }
            }
        }
        t.end();
    }
    (m, kinds)
}

// ---- definition files

struct Rng(u64);
impl Rng {
    fn next(&mut self, n: usize) -> usize {
        if self.0 == 0 || n == 0 {
            return 0;
        }
        self.0 = mix(self.0);
        if self.0 == 0 {
            self.0 = 1;
        }
        ((self.0 >> 8) % n as u64) as usize
    }
    fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        if self.0 == 0 {
            return;
        }
        for i in (1..v.len()).rev() {
            let j = self.next(i + 1);
            v.swap(i, j);
        }
    }
}
fn st(s: &str) -> Value {
    Value::String(s.into())
}
fn list(r: &mut Rng, v: &[String]) -> Value {
    if v.len() == 1 && r.next(2) == 0 {
        st(&v[0])
    } else {
        Value::Sequence(v.iter().map(|s| st(s)).collect())
    }
}
fn map(v: Vec<(String, Value)>) -> Value {
    let mut m = Mapping::new();
    for (k, x) in v {
        m.insert(st(&k), x);
    }
    Value::Mapping(m)
}
/// keywords may be written in any case, with any space after them
fn restyle(r: &mut Rng, v: Value) -> Value {
    const TWO: &[&str] = &["foreign key", "initially deferred", "on delete", "on update", "owned by", "primary key"];
    match v {
        Value::Mapping(m) => Value::Mapping(
            m.into_iter()
                .map(|(k, v)| {
                    let Value::String(k) = k else { return (k, v) };
                    let n = TWO.iter().find(|w| k.starts_with(**w)).map_or(k.find(' ').unwrap_or(k.len()), |w| w.len());
                    let (w, rest) = k.split_at(n);
                    let w = match r.next(4) {
                        0 => w.to_uppercase(),
                        1 => w[..1].to_uppercase() + &w[1..],
                        _ => w.to_string(),
                    };
                    let gap = if rest.is_empty() { "" } else { ["", " ", "   "][r.next(3)] };
                    (st(&format!("{}{}{}", w, gap, rest)), restyle(r, v))
                })
                .collect(),
        ),
        v => v,
    }
}
fn con_value(r: &mut Rng, s: &str, c: &Con) -> Value {
    let mut v = vec![];
    let (mut d, mut i) = (false, false);
    match c {
        Con::Pk { cols, defer, initdef } => {
            v.push(("primary key".to_string(), list(r, cols)));
            (d, i) = (*defer, *initdef);
        }
        Con::Uq { cols, defer, initdef } => {
            v.push(("unique".to_string(), list(r, cols)));
            (d, i) = (*defer, *initdef);
        }
        Con::Ck { expr, .. } => v.push(("check".to_string(), st(expr))),
        Con::Fk { cols, ts, tt, tcols, mat, upd, del, defer, initdef } => {
            v.push(("foreign key".to_string(), list(r, cols)));
            let target = if ts == s && r.next(2) == 0 { tt.clone() } else { format!("{}.{}", ts, tt) };
            v.push((format!("references {}", target), list(r, tcols)));
            for (k, x, def) in [("match", mat, "SIMPLE"), ("on update", upd, "NO ACTION"), ("on delete", del, "NO ACTION")] {
                if x != def || r.next(4) == 1 {
                    v.push((k.to_string(), st(x)));
                }
            }
            (d, i) = (*defer, *initdef);
        }
    }
    if d || r.next(5) == 1 {
        v.push(("deferrable".to_string(), Value::Bool(d)));
    }
    if i || r.next(5) == 1 {
        v.push(("initially deferred".to_string(), Value::Bool(i)));
    }
    r.shuffle(&mut v);
    map(v)
}
fn opt(v: &mut Vec<(String, Value)>, k: &str, x: &Option<i64>) {
    if let Some(x) = x {
        v.push((k.to_string(), Value::Number((*x).into())));
    }
}
pub const FILES: &[&str] = &["public.yaml", "a.yaml", "b/c.yaml", "b/d/e.yaml", "Z.yaml", "ümlaut.yaml", "x y/z.yaml", "b/a.yaml", "x y/public.yaml", "b/d/c.yaml", "p/q/r/s/t/u.yaml", ".hidden.yaml", ".d/h.yaml", "v1.0/a.b.yaml"];

impl Model {
    fn entries(&self, r: &mut Rng, s: &str) -> Vec<(String, Value)> {
        let x = &self.schemas[s];
        let mut v: Vec<(String, Value)> = vec![];
        for (n, t) in &x.tables {
            let cols: Vec<(String, Value)> = t
                .cols
                .iter()
                .map(|c| {
                    let e = format!("{}{}{}", c.ty, if c.notnull { "!" } else { "" }, c.default.as_ref().map_or(String::new(), |d| format!(" = {}", d)));
                    (format!("column {}", c.name), st(&e))
                })
                .collect();
            let mut cons: Vec<(String, Value)> = t.cons.iter().map(|(k, c)| (format!("constraint {}", k), con_value(r, s, c))).collect();
            r.shuffle(&mut cons);
            // constraints anywhere between the columns, which keep their order
            let mut all = cols;
            for c in cons {
                let at = all.len() - r.next(all.len() + 1);
                all.insert(at, c);
            }
            v.push((format!("table {}", n), if all.is_empty() { Value::Null } else { map(all) }));
        }
        for (n, i) in &x.indexes {
            let mut e = vec![(format!("on {}", i.table), list(r, &i.keys.iter().map(|k| k.0.clone()).collect::<Vec<_>>()))];
            if i.unique || r.next(5) == 1 {
                e.push(("unique".into(), Value::Bool(i.unique)));
            }
            if i.method != "btree" || r.next(5) == 1 {
                e.push(("using".into(), st(&i.method)));
            }
            r.shuffle(&mut e);
            v.push((format!("index {}", n), map(e)));
        }
        for (n, q) in &x.seqs {
            let mut e = vec![];
            if let Some(t) = &q.ty {
                e.push(("as".to_string(), st(t)));
            }
            opt(&mut e, "increment", &q.inc);
            opt(&mut e, "minvalue", &q.min);
            opt(&mut e, "maxvalue", &q.max);
            opt(&mut e, "start", &q.start);
            opt(&mut e, "cache", &q.cache);
            if let Some(c) = q.cycle {
                e.push(("cycle".into(), Value::Bool(c)));
            }
            r.shuffle(&mut e);
            v.push((format!("sequence {}", n), if e.is_empty() { Value::Null } else { map(e) }));
        }
        for (n, f) in &x.funcs {
            let mut e = vec![("as".to_string(), st(&f.body))];
            for (k, y) in [("language", &f.lang), ("returns", &f.ret), ("volatility", &f.vol)] {
                if let Some(y) = y {
                    e.push((k.to_string(), st(y)));
                }
            }
            r.shuffle(&mut e);
            v.push((format!("function {}", n), map(e)));
        }
        for (n, w) in &x.views {
            v.push((format!("view {}", n), map(vec![("as".into(), st(&w.query))])));
        }
        r.shuffle(&mut v);
        v
    }
    /// definition files in a layout chosen by the seed; 0 is one file
    pub fn render(&self, layout: u64) -> BTreeMap<String, String> {
        let mut r = Rng(layout);
        let nf = 1 + r.next(4);
        let mut names: Vec<&str> = FILES.to_vec();
        r.shuffle(&mut names);
        let names = &names[..nf];
        let mut files: Vec<Vec<(String, Vec<(String, Value)>)>> = vec![vec![]; nf];
        let mut ss: Vec<&String> = self.schemas.keys().collect();
        r.shuffle(&mut ss);
        for s in ss {
            let home = r.next(nf);
            let add = |files: &mut Vec<Vec<(String, Vec<(String, Value)>)>>, f: usize, e: Option<(String, Value)>| {
                let k = format!("schema {}", s);
                if !files[f].iter().any(|x| x.0 == k) {
                    files[f].push((k.clone(), vec![]));
                }
                let slot = files[f].iter_mut().find(|x| x.0 == k).unwrap();
                slot.1.extend(e);
            };
            add(&mut files, home, None);
            for e in self.entries(&mut r, s) {
                let f = r.next(nf);
                add(&mut files, f, Some(e));
            }
        }
        let mut out = BTreeMap::new();
        for (k, f) in files.into_iter().enumerate() {
            // a schema may stand in the same file under two spellings of its key
            let mut v: Vec<(String, Value)> = vec![];
            let mut again = vec![];
            for (k, mut e) in f {
                if e.len() > 1 && r.next(8) == 1 {
                    let tail = e.split_off(1 + r.next(e.len() - 1));
                    again.push((format!("{}  {}", "SCHEMA", &k[7..]), map(tail)));
                }
                v.push((k, if e.is_empty() { Value::Null } else { map(e) }));
            }
            let split = !again.is_empty();
            v.extend(again);
            let v = map(v);
            let v = if r.next(6) == 1 && !split { restyle(&mut r, v) } else { v };
            let mut t = if v.as_mapping().map_or(true, |m| m.is_empty()) { "{}\n".to_string() } else { serde_yaml::to_string(&v).unwrap() };
            if r.next(3) == 1 {
                t = format!("# a comment\n---\n{}", t);
            }
            out.insert(names[k].to_string(), t);
        }
        out
    }
}

// ---- rows

/// statements that put some rows into the tables; each may fail
pub fn rows(t: &mut Tape, m: &Model) -> Vec<String> {
    let mut v = vec![];
    for (s, n) in m.tables() {
        let tab = m.tab(&s, &n).unwrap();
        for _ in 0..t.draw(3) {
            let k = 1 + t.draw(4);
            let mut cols = vec![];
            let mut vals = vec![];
            for c in &tab.cols {
                if c.default.is_some() && t.chance(1, 2) {
                    continue;
                }
                let val = match group(&c.ty) {
                    0 => k.to_string(),
                    1 => format!("'val{}'", k),
                    2 => format!("'2021-02-0{}'", k),
                    _ => match c.ty.as_str() {
                        "boolean" => if k % 2 == 0 { "true" } else { "false" }.into(),
                        "uuid" => format!("'00000000-0000-0000-0000-00000000000{}'", k),
                        "jsonb" => format!("'{{\"k\": {}}}'", k),
                        "text[]" | "int4[]" => format!("'{{{},2}}'", k),
                        "char(3)" => format!("'ab{}'", k),
                        "bytea" => "'\\x0102'".to_string(),
                        "interval" => format!("'{} days'", k),
                        "time" => format!("'0{}:00:00'", k),
                        _ => "NULL".into(),
                    },
                };
                cols.push(q(&c.name));
                vals.push(if !c.notnull && t.chance(1, 5) { "NULL".to_string() } else { val });
            }
            v.push(if cols.is_empty() {
                format!("INSERT INTO {} DEFAULT VALUES;", qq(&s, &n))
            } else {
                format!("INSERT INTO {} ({}) VALUES ({});", qq(&s, &n), cols.join(", "), vals.join(", "))
            });
        }
    }
    v
}
