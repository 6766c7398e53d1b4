//! Data manipulation: binding and execution of queries, inserts, updates and deletes.
use super::ast::*;
use super::ddl::{arr, colname, get};
use super::expr::*;
use super::query::*;
use super::store::*;
use super::types::*;
use std::cmp::Ordering;
use std::rc::Rc;

pub enum Bound {
    Select(Plan),
    Insert { rel: Oid, rows: Src, nothing: bool, ret: Vec<TE> },
    Delete { rel: Oid, cond: Option<TE>, ret: Vec<TE> },
    Update { rel: Oid, cond: Option<TE>, sets: Vec<(usize, Option<TE>)>, ret: Vec<TE> },
    Util,
}
pub enum Src {
    /// per row, per attribute: an expression, or the column's default
    Values(Vec<Vec<Option<TE>>>),
    Query(Plan, Vec<Option<TE>>),
}
pub type OutCols = Option<Vec<(String, Ty)>>;

fn i(o: Oid) -> Val {
    Val::Int(o as i64)
}

fn target(b: &Binder, table: &[String], kinds: &str) -> Res<Oid> {
    match find_rel(b.db, b.snap, table) {
        None => err("42P01", format!("relation \"{}\" does not exist", table.join("."))),
        Some((o, r)) => {
            if !kinds.contains(get(&r, C_CLASS, "relkind").text()) {
                return err("42809", format!("cannot change relation \"{}\"", table.join(".")));
            }
            if o < 16384 {
                return err("42501", format!("permission denied: \"{}\" is a system catalog", table.join(".")));
            }
            Ok(o)
        }
    }
}
fn push_scope(b: &mut Binder, rel: Oid, alias: &str) {
    let cols = table_cols(b.db, b.snap, rel).into_iter().map(|x| (if x.3 { format!("\u{0}{}", x.2) } else { x.0 }, x.1)).collect();
    b.scopes.push(Scope { rtes: vec![Rte { alias: alias.to_string(), rel, cols }], ..Default::default() });
}
fn returning(b: &mut Binder, r: &[(Expr, Option<String>)]) -> Res<(Vec<TE>, OutCols)> {
    if r.is_empty() {
        return Ok((vec![], None));
    }
    let mut te = vec![];
    let mut cols = vec![];
    for (e, a) in r {
        if let Expr::Star(_) = e {
            let cs = b.scopes.last().unwrap().rtes[0].cols.clone();
            for (j, (n, t)) in cs.into_iter().enumerate() {
                if !n.starts_with('\u{0}') {
                    te.push(TE { t, k: K::Col { lvl: 0, rte: 0, col: j, name: n.clone() } });
                    cols.push((n, t));
                }
            }
            continue;
        }
        let t = b.bind(e)?;
        let n = match (a, e) {
            (Some(a), _) => a.clone(),
            (None, Expr::Col(p)) => p.last().unwrap().clone(),
            _ => "?column?".into(),
        };
        cols.push((n, t.t));
        te.push(t);
    }
    Ok((te, Some(cols)))
}
fn assign(b: &mut Binder, e: TE, t: Ty, col: &str) -> Res<TE> {
    let from = e.t.oid;
    match b.coerce(e, t, Ctx::Assign) {
        Err(Stop::Err(PgErr { code: "42846", .. })) => err("42804", format!("column \"{}\" is of type {} but expression is of type {}", col, format_type(t.oid, -1), format_type(from, -1))),
        x => x,
    }
}

/// resolves names and types; fills in the types of parameters left open
pub fn bind_stmt(db: &Db, snap: Snap, params: &mut Vec<Oid>, s: &Stmt) -> Res<(Bound, OutCols)> {
    let mut b = Binder::new(db, snap, params.clone());
    let r = bind2(&mut b, s)?;
    *params = b.params.clone();
    for (k, p) in params.iter_mut().enumerate() {
        if *p == 0 {
            if matches!(r.0, Bound::Select(_)) {
                *p = TEXT;
            } else {
                return err("42P18", format!("could not determine data type of parameter ${}", k + 1));
            }
        }
    }
    Ok(r)
}
fn bind2(b: &mut Binder, s: &Stmt) -> Res<(Bound, OutCols)> {
    Ok(match s {
        Stmt::Select(q) => {
            let p = bind_select(b, q)?;
            let c = p.cols.clone();
            (Bound::Select(p), Some(c))
        }
        Stmt::Insert { table, cols, src, defaults, on_conflict_nothing, returning: ret } => {
            let rel = target(b, table, "r")?;
            let all = table_cols(b.db, b.snap, rel);
            let live: Vec<usize> = (0..all.len()).filter(|k| !all[*k].3).collect();
            let tgt: Vec<usize> = if cols.is_empty() {
                live.clone()
            } else {
                let mut v = vec![];
                for c in cols {
                    match live.iter().find(|k| &all[**k].0 == c) {
                        Some(k) if v.contains(k) => return err("42701", format!("column \"{}\" specified more than once", c)),
                        Some(k) => v.push(*k),
                        None => return err("42703", format!("column \"{}\" of relation \"{}\" does not exist", c, table.last().unwrap())),
                    }
                }
                v
            };
            let rows = if *defaults {
                Src::Values(vec![vec![None; all.len()]])
            } else if !src.values.is_empty() && src.union.is_none() && src.with.is_empty() && src.order.is_empty() && src.limit.is_none() {
                let mut rows = vec![];
                for r in &src.values {
                    if r.len() > tgt.len() {
                        return err("42601", "INSERT has more expressions than target columns");
                    }
                    if r.len() < tgt.len() && !cols.is_empty() {
                        return err("42601", "INSERT has more target columns than expressions");
                    }
                    let mut row = vec![None; all.len()];
                    for (e, k) in r.iter().zip(&tgt) {
                        if *e == Expr::Special("default".into()) {
                            continue;
                        }
                        let t = b.bind(e)?;
                        row[*k] = Some(assign(b, t, all[*k].1, &all[*k].0)?);
                    }
                    rows.push(row);
                }
                Src::Values(rows)
            } else {
                let p = bind_select(b, src)?;
                if p.cols.len() > tgt.len() {
                    return err("42601", "INSERT has more expressions than target columns");
                }
                if p.cols.len() < tgt.len() && !cols.is_empty() {
                    return err("42601", "INSERT has more target columns than expressions");
                }
                let mut row = vec![None; all.len()];
                for (k, ((n, t), a)) in p.cols.iter().zip(&tgt).enumerate() {
                    let e = TE { t: *t, k: K::Col { lvl: 0, rte: 0, col: k, name: n.clone() } };
                    row[*a] = Some(assign(b, e, all[*a].1, &all[*a].0)?);
                }
                Src::Query(p, row)
            };
            push_scope(b, rel, table.last().unwrap());
            let (te, out) = returning(b, ret)?;
            b.scopes.pop();
            (Bound::Insert { rel, rows, nothing: *on_conflict_nothing, ret: te }, out)
        }
        Stmt::Delete { table, alias, wher, returning: ret } => {
            let rel = target(b, table, "r")?;
            push_scope(b, rel, alias.as_ref().unwrap_or(table.last().unwrap()));
            let cond = match wher {
                Some(e) => Some(b.bool_expr(e, "WHERE")?),
                None => None,
            };
            let (te, out) = returning(b, ret)?;
            b.scopes.pop();
            (Bound::Delete { rel, cond, ret: te }, out)
        }
        Stmt::Update { table, alias, sets, wher, returning: ret } => {
            let rel = target(b, table, "r")?;
            let all = table_cols(b.db, b.snap, rel);
            push_scope(b, rel, alias.as_ref().unwrap_or(table.last().unwrap()));
            let mut v = vec![];
            for (c, e) in sets {
                let k = match all.iter().position(|x| !x.3 && &x.0 == c) {
                    Some(k) => k,
                    None => return err("42703", format!("column \"{}\" of relation \"{}\" does not exist", c, table.last().unwrap())),
                };
                if *e == Expr::Special("default".into()) {
                    v.push((k, None));
                } else {
                    let t = b.bind(e)?;
                    v.push((k, Some(assign(b, t, all[k].1, c)?)));
                }
            }
            let cond = match wher {
                Some(e) => Some(b.bool_expr(e, "WHERE")?),
                None => None,
            };
            let (te, out) = returning(b, ret)?;
            b.scopes.pop();
            (Bound::Update { rel, cond, sets: v, ret: te }, out)
        }
        Stmt::Show(n) => (Bound::Util, Some(vec![(n.clone(), ty(TEXT))])),
        _ => (Bound::Util, None),
    })
}

impl<'a> Cx<'a> {
    fn serial_fail<T>(&self) -> Res<T> {
        err("40001", "could not serialize access due to concurrent update")
    }
    fn default_of(&mut self, rel: Oid, num: usize, t: Ty) -> Res<Val> {
        let sn = self.latest();
        match self.db.cat_find(C_DEF, sn, &[("adrelid", i(rel)), ("adnum", Val::Int(num as i64))]).pop() {
            None => Ok(Val::Null),
            Some((_, d)) => {
                let e = super::parse::parse_expr(d[3].text()).or_else(syn)?;
                let te = self.bind_to(None, &e, t, Ctx::Assign, "column")?;
                self.eval(&te)
            }
        }
    }
    /// checks a new row version and stores it; None if a conflicting row made it do nothing
    fn store_row(&mut self, rel: Oid, row: Vec<Val>, nothing: bool) -> Res<Option<Row>> {
        let sn = self.latest();
        let top = self.top();
        let name = relname(self.db, sn, rel, false);
        for (_, a) in self.atts(rel) {
            let n = get(&a, C_ATTR, "attnum").int() as usize;
            if get(&a, C_ATTR, "attnotnull").bool() && !get(&a, C_ATTR, "attisdropped").bool() && row.get(n - 1).map_or(true, |v| v.is_null()) {
                return err("23502", format!("null value in column \"{}\" of relation \"{}\" violates not-null constraint", a[1].text(), name));
            }
        }
        let rc: Row = Rc::new(row.clone());
        for (_, c) in self.db.cat_find(C_CON, sn, &[("conrelid", i(rel)), ("contype", Val::t("c"))]) {
            let e = super::parse::parse_expr(get(&c, C_CON, "conbin").text()).or_else(syn)?;
            let te = self.bind_to(Some(rel), &e, ty(BOOL), Ctx::Implicit, "CHECK")?;
            if matches!(self.eval_row(&te, &rc)?, Val::Bool(false)) {
                return err("23514", format!("new row for relation \"{}\" violates check constraint \"{}\"", name, c[1].text()));
            }
        }
        for (_, ind) in self.db.cat_find(C_INDEX, sn, &[("indrelid", i(rel)), ("indisunique", Val::Bool(true))]) {
            let key = match self.index_key(rel, &ind, &rc)? {
                Some(k) => k,
                None => continue,
            };
            let others: Vec<(KeyState, Row)> = self.db.heaps.get(&rel).map(|h| h.tuples.iter().map(|t| (self.db.key_state(t, top), t.row.clone())).collect()).unwrap_or_default();
            let mut wait = vec![];
            for (st, r) in others {
                if matches!(st, KeyState::Dead) {
                    continue;
                }
                match self.index_key(rel, &ind, &r)? {
                    Some(k) if k.iter().zip(&key).all(|(a, b)| compare(a, b) == Ordering::Equal) => match st {
                        KeyState::Live if nothing => return Ok(None),
                        KeyState::Live => {
                            return err("23505", format!("duplicate key value violates unique constraint \"{}\"", relname(self.db, sn, ind[0].oid(), false)));
                        }
                        KeyState::Wait(x) => wait.push(x),
                        KeyState::Dead => {}
                    },
                    _ => {}
                }
            }
            if !wait.is_empty() {
                return Err(Stop::Wait(wait));
            }
        }
        let x = self.xid;
        let ix = self.db.insert(rel, x, row);
        self.dirty();
        Ok(Some(self.db.heaps[&rel].tuples[ix].row.clone()))
    }
    /// every reference from these rows has its target, which is locked against removal
    fn check_refs(&mut self, rel: Oid, rows: &[Row]) -> Res<()> {
        let sn = self.latest();
        let top = self.top();
        for (_, c) in self.db.cat_find(C_CON, sn, &[("conrelid", i(rel)), ("contype", Val::t("f"))]) {
            let frel = get(&c, C_CON, "confrelid").oid();
            let (k, f) = (arr(&get(&c, C_CON, "conkey")), arr(&get(&c, C_CON, "confkey")));
            self.db.lock_rel(top, frel, 2)?;
            for r in rows {
                let key: Vec<Val> = k.iter().map(|x| r.get(*x as usize - 1).cloned().unwrap_or(Val::Null)).collect();
                let bad = || err("23503", format!("insert or update on table violates foreign key constraint \"{}\"", c[1].text()));
                if key.iter().any(|v| v.is_null()) {
                    if get(&c, C_CON, "confmatchtype").text() == "f" && !key.iter().all(|v| v.is_null()) {
                        return bad();
                    }
                    continue;
                }
                let hit = self.db.scan(frel, sn).into_iter().find(|(_, p)| f.iter().zip(&key).all(|(n, v)| p.get(*n as usize - 1).map_or(false, |x| compare(x, v) == Ordering::Equal)));
                match hit {
                    None => return bad(),
                    Some((ix, _)) => {
                        if !self.db.lock_tuple(frel, ix, top, 1)? {
                            return bad();
                        }
                    }
                }
            }
        }
        Ok(())
    }
    /// old row versions are gone (their replacement, if any, is given): apply referential actions
    fn unref(&mut self, rel: Oid, rows: &[(Row, Option<Row>)]) -> Res<()> {
        let sn = self.latest();
        for (_, c) in self.db.cat_find(C_CON, sn, &[("confrelid", i(rel)), ("contype", Val::t("f"))]) {
            let crel = get(&c, C_CON, "conrelid").oid();
            let (k, f) = (arr(&get(&c, C_CON, "conkey")), arr(&get(&c, C_CON, "confkey")));
            for (old, new) in rows {
                let pick = |r: &Row, ns: &[i64]| -> Vec<Val> { ns.iter().map(|x| r.get(*x as usize - 1).cloned().unwrap_or(Val::Null)).collect() };
                let key = pick(old, &f);
                if key.iter().any(|v| v.is_null()) {
                    continue;
                }
                let nk = new.as_ref().map(|n| pick(n, &f));
                if nk.as_ref().map_or(false, |n| n.iter().zip(&key).all(|(a, b)| compare(a, b) == Ordering::Equal)) {
                    continue;
                }
                let sn = self.latest();
                let kids: Vec<(usize, Row)> = self.db.scan(crel, sn).into_iter().filter(|(_, r)| pick(r, &k).iter().zip(&key).all(|(a, b)| compare(a, b) == Ordering::Equal)).collect();
                if kids.is_empty() {
                    continue;
                }
                let act = get(&c, C_CON, if new.is_some() { "confupdtype" } else { "confdeltype" }).text().to_string();
                let x = self.xid;
                match act.as_str() {
                    "c" if new.is_none() => {
                        let mut gone = vec![];
                        for (ix, r) in kids {
                            if !self.db.delete(crel, ix, x)? {
                                return self.serial_fail();
                            }
                            gone.push((r, None));
                        }
                        self.dirty();
                        self.unref(crel, &gone)?;
                    }
                    "c" | "n" | "d" => {
                        let mut ch = vec![];
                        for (ix, r) in kids {
                            let mut nr = (*r).clone();
                            for (p, col) in k.iter().enumerate() {
                                let v = match act.as_str() {
                                    "c" => nk.as_ref().unwrap()[p].clone(),
                                    "n" => Val::Null,
                                    _ => {
                                        let cols = table_cols(self.db, sn, crel);
                                        self.default_of(crel, *col as usize, cols[*col as usize - 1].1)?
                                    }
                                };
                                nr[*col as usize - 1] = v;
                            }
                            if !self.db.delete(crel, ix, x)? {
                                return self.serial_fail();
                            }
                            if let Some(n) = self.store_row(crel, nr, false)? {
                                ch.push((r, Some(n)));
                            }
                        }
                        let news: Vec<Row> = ch.iter().map(|x| x.1.clone().unwrap()).collect();
                        self.check_refs(crel, &news)?;
                        self.unref(crel, &ch)?;
                    }
                    _ => {
                        return err(
                            "23503",
                            format!("update or delete on table \"{}\" violates foreign key constraint \"{}\" on table \"{}\"", relname(self.db, sn, rel, false), c[1].text(), relname(self.db, sn, crel, false)),
                        )
                    }
                }
            }
        }
        Ok(())
    }
    fn ret_rows(&mut self, ret: &[TE], rows: &[Row]) -> Res<Vec<Vec<Val>>> {
        let mut out = vec![];
        if ret.is_empty() {
            return Ok(out);
        }
        for r in rows {
            let mut o = vec![];
            for e in ret {
                o.push(self.eval_row(e, r)?);
            }
            out.push(o);
        }
        Ok(out)
    }
    fn matching(&mut self, rel: Oid, cond: &Option<TE>) -> Res<Vec<(usize, Row)>> {
        let mut v = vec![];
        for (ix, r) in self.db.scan(rel, self.snap) {
            let ok = match cond {
                None => true,
                Some(c) => self.eval_row(c, &r)?.bool(),
            };
            if ok {
                v.push((ix, r));
            }
        }
        Ok(v)
    }
    fn lock_plan(&mut self, p: &Plan, strength: u8) -> Res<()> {
        self.env.push(Level::default());
        let rows = exec_rows(self, p);
        self.env.pop();
        let rows = rows?;
        let top = self.top();
        let mut base: Vec<(usize, Oid)> = vec![];
        fn fr(f: &PFrom, v: &mut Vec<(usize, Oid)>) {
            match f {
                PFrom::Rel { rte, rel } => v.push((*rte, *rel)),
                PFrom::Join { l, r, .. } => {
                    fr(l, v);
                    fr(r, v);
                }
                _ => {}
            }
        }
        for (f, _) in &p.from {
            fr(f, &mut base);
        }
        for (rte, rel) in base {
            if rel < 16384 {
                continue;
            }
            for r in &rows {
                if let Some(r) = &r[rte] {
                    let ix = self.db.heaps.get(&rel).and_then(|h| h.tuples.iter().position(|t| Rc::ptr_eq(&t.row, r)));
                    if let Some(ix) = ix {
                        if !self.db.lock_tuple(rel, ix, top, strength)? {
                            return self.serial_fail();
                        }
                    }
                }
            }
        }
        Ok(())
    }

    /// (rows, affected)
    pub fn run(&mut self, b: &Bound) -> Res<(Vec<Vec<Val>>, usize)> {
        let top = self.top();
        match b {
            Bound::Select(p) => {
                let mut rels = vec![];
                plan_rels(p, &mut rels);
                for r in rels {
                    if r >= 16384 {
                        self.db.lock_rel(top, r, if p.lock.is_some() { 2 } else { 1 })?;
                    }
                }
                if let Some((s, nowait)) = p.lock {
                    match self.lock_plan(p, s) {
                        Err(Stop::Wait(_)) if nowait => return err("55P03", "could not obtain lock on row"),
                        x => x?,
                    }
                }
                let rows = exec_plan(self, p)?;
                let n = rows.len();
                Ok((rows, n))
            }
            Bound::Insert { rel, rows, nothing, ret } => {
                self.db.lock_rel(top, *rel, 3)?;
                let cols = table_cols(self.db, self.latest(), *rel);
                let mut todo: Vec<Vec<Val>> = vec![];
                let mut one = |cx: &mut Self, spec: &Vec<Option<TE>>, src: Option<&Row>| -> Res<()> {
                    let mut out = vec![];
                    for (k, e) in spec.iter().enumerate() {
                        out.push(match e {
                            Some(e) => match src {
                                Some(r) => cx.eval_row(e, r)?,
                                None => cx.eval(e)?,
                            },
                            None if cols[k].3 => Val::Null,
                            None => cx.default_of(*rel, k + 1, cols[k].1)?,
                        });
                    }
                    todo.push(out);
                    Ok(())
                };
                match rows {
                    Src::Values(v) => {
                        for spec in v {
                            one(self, spec, None)?;
                        }
                    }
                    Src::Query(p, spec) => {
                        for r in exec_plan(self, p)? {
                            one(self, spec, Some(&Rc::new(r)))?;
                        }
                    }
                }
                let mut done = vec![];
                for r in todo {
                    if let Some(r) = self.store_row(*rel, r, *nothing)? {
                        done.push(r);
                    }
                }
                self.check_refs(*rel, &done)?;
                let out = self.ret_rows(ret, &done)?;
                Ok((out, done.len()))
            }
            Bound::Delete { rel, cond, ret } => {
                self.db.lock_rel(top, *rel, 3)?;
                let mut gone = vec![];
                let x = self.xid;
                for (ix, r) in self.matching(*rel, cond)? {
                    if !self.db.delete(*rel, ix, x)? {
                        return self.serial_fail();
                    }
                    gone.push(r);
                }
                self.dirty();
                let pairs: Vec<(Row, Option<Row>)> = gone.iter().map(|r| (r.clone(), None)).collect();
                self.unref(*rel, &pairs)?;
                let out = self.ret_rows(ret, &gone)?;
                Ok((out, gone.len()))
            }
            Bound::Update { rel, cond, sets, ret } => {
                self.db.lock_rel(top, *rel, 3)?;
                let cols = table_cols(self.db, self.latest(), *rel);
                let x = self.xid;
                let mut ch: Vec<(Row, Option<Row>)> = vec![];
                for (ix, r) in self.matching(*rel, cond)? {
                    let mut nr = (*r).clone();
                    nr.resize(cols.len(), Val::Null);
                    for (k, e) in sets {
                        nr[*k] = match e {
                            Some(e) => self.eval_row(e, &r)?,
                            None => self.default_of(*rel, k + 1, cols[*k].1)?,
                        };
                    }
                    if !self.db.delete(*rel, ix, x)? {
                        return self.serial_fail();
                    }
                    let n = self.store_row(*rel, nr, false)?;
                    ch.push((r, n));
                }
                let news: Vec<Row> = ch.iter().map(|x| x.1.clone().unwrap()).collect();
                self.check_refs(*rel, &news)?;
                self.unref(*rel, &ch)?;
                let out = self.ret_rows(ret, &news)?;
                Ok((out, news.len()))
            }
            Bound::Util => Ok((vec![], 0)),
        }
    }
    pub fn truncate(&mut self, tables: &[Vec<String>]) -> Res<()> {
        for t in tables {
            let (rel, _) = self.rel(t, "r", 8)?;
            let x = self.xid;
            let sn = self.latest();
            for (_, c) in self.db.cat_find(C_CON, sn, &[("confrelid", i(rel)), ("contype", Val::t("f"))]) {
                if get(&c, C_CON, "conrelid").oid() != rel {
                    return err("0A000", "cannot truncate a table referenced in a foreign key constraint");
                }
            }
            for (ix, _) in self.db.scan(rel, sn) {
                self.db.cat_del(x, rel, ix)?;
            }
        }
        self.dirty();
        Ok(())
    }
}
#[allow(dead_code)]
pub fn unused() {
    let _ = colname;
}
