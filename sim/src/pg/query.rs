//! Query binding and execution.
use super::ast::*;
use super::expr::*;
use super::store::*;
use super::types::*;
use std::cmp::Ordering;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum PFrom {
    Rel { rte: usize, rel: Oid },
    Func { rte: usize, name: String, args: Vec<TE>, ord: bool },
    Sub { rte: usize, plan: Box<Plan> },
    Join { kind: JoinKind, l: Box<PFrom>, r: Box<PFrom>, on: Option<TE>, rtes: (usize, usize) },
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub nrte: usize,
    pub from: Vec<(PFrom, usize)>,
    pub conds: Vec<(TE, usize)>,
    pub targets: Vec<TE>,
    pub cols: Vec<(String, Ty)>,
    pub group: Vec<TE>,
    pub grouped: bool,
    pub having: Option<TE>,
    pub aggs: Vec<AggDef>,
    /// sort keys over (row, outputs)
    pub order: Vec<(Key, bool, bool)>,
    pub limit: Option<TE>,
    pub offset: Option<TE>,
    pub distinct: bool,
    pub values: Vec<Vec<TE>>,
    pub union: Option<(String, bool, Box<Plan>, Box<Plan>)>,
    pub lock: Option<(u8, bool)>,
    pub rels: Vec<Oid>,
}
#[derive(Clone, Debug)]
pub enum Key {
    Out(usize),
    Expr(TE),
}

pub fn table_cols(db: &Db, snap: Snap, rel: Oid) -> Vec<(String, Ty, i64, bool)> {
    let mut v: Vec<(String, Ty, i64, bool)> = db
        .cat_find(C_ATTR, snap, &[("attrelid", Val::Int(rel as i64))])
        .iter()
        .map(|(_, r)| {
            (
                r[1].text().to_string(),
                Ty { oid: r[2].oid(), m: r[ccol(C_ATTR, "atttypmod")].int() as i32 },
                r[ccol(C_ATTR, "attnum")].int(),
                r[ccol(C_ATTR, "attisdropped")].bool(),
            )
        })
        .collect();
    v.sort_by_key(|x| x.2);
    v
}

fn func_name(e: &Expr) -> String {
    match e {
        Expr::Func { name, .. } => name.last().unwrap().clone(),
        Expr::Col(p) => p.last().unwrap().clone(),
        Expr::Cast(x, t) => {
            let n = func_name(x);
            if n == "?column?" {
                t.name.last().unwrap().clone()
            } else {
                n
            }
        }
        Expr::Case(_, _, Some(e)) => match func_name(e).as_str() {
            "?column?" => "case".into(),
            x => x.to_string(),
        },
        Expr::Case(..) => "case".into(),
        Expr::Exists(_) => "exists".into(),
        Expr::Array(_) | Expr::ArraySub(_) => "array".into(),
        Expr::Sub(q) => match q.targets.first() {
            Some((_, Some(a))) => a.clone(),
            Some((e, None)) => func_name(e),
            None => "?column?".into(),
        },
        Expr::Special(s) => s.clone(),
        Expr::Index(a, _) => func_name(a),
        Expr::Bool(_) => "bool".into(),
        _ => "?column?".into(),
    }
}

fn bind_from(b: &mut Binder, f: &From, rels: &mut Vec<Oid>) -> Res<PFrom> {
    let nr = |b: &Binder| b.scopes.last().unwrap().rtes.len();
    let dup = |b: &Binder, a: &str| -> Res<()> {
        if b.scopes.last().unwrap().rtes.iter().any(|r| r.alias == a) {
            return err("42712", format!("table name \"{}\" specified more than once", a));
        }
        Ok(())
    };
    match f {
        From::Rel { name, alias, cols } => {
            let a = alias.clone().unwrap_or(name.last().unwrap().clone());
            dup(b, &a)?;
            if name.len() == 1 {
                if let Some((_, p)) = b.ctes.iter().rev().find(|(n, _)| *n == name[0]) {
                    let p = p.clone();
                    let rte = nr(b);
                    let mut c = p.cols.clone();
                    for (i, n) in cols.iter().enumerate() {
                        c[i].0 = n.clone();
                    }
                    b.scopes.last_mut().unwrap().rtes.push(Rte { alias: a, rel: 0, cols: c });
                    return Ok(PFrom::Sub { rte, plan: Box::new(p) });
                }
            }
            if name.len() >= 2 && find_ns(b.db, b.snap, &name[name.len() - 2]).is_none() {
                return err("42P01", format!("relation \"{}\" does not exist", name.join(".")));
            }
            let (oid, row) = match find_rel(b.db, b.snap, name) {
                Some(x) => x,
                None if name.last().unwrap().starts_with("pg_") || (name.len() == 2 && name[0] == "information_schema") => {
                    return err("0A000", format!("relation {} is not modelled", name.join(".")))
                }
                None => return err("42P01", format!("relation \"{}\" does not exist", name.join("."))),
            };
            let kind = row[ccol(C_CLASS, "relkind")].text().to_string();
            if kind == "v" {
                let (_, r) = match b.db.cat_find(C_REWRITE, b.snap, &[("ev_class", Val::Int(oid as i64))]).pop() {
                    Some(x) => x,
                    None => return err("XX000", "view without a rule"),
                };
                let q = super::parse::parse_select(r[3].text()).or_else(syn)?;
                let saved = std::mem::take(&mut b.scopes);
                let p = bind_select(b, &q);
                b.scopes = saved;
                let p = p?;
                rels.push(oid);
                let rte = nr(b);
                let mut c: Vec<(String, Ty)> = table_cols(b.db, b.snap, oid).into_iter().map(|x| (x.0, x.1)).collect();
                for (i, n) in cols.iter().enumerate() {
                    c[i].0 = n.clone();
                }
                b.scopes.last_mut().unwrap().rtes.push(Rte { alias: a, rel: oid, cols: c });
                return Ok(PFrom::Sub { rte, plan: Box::new(p) });
            }
            if kind == "i" {
                return err("42809", format!("cannot open relation \"{}\"", name.join(".")));
            }
            rels.push(oid);
            let rte = nr(b);
            let mut c: Vec<(String, Ty)> = if kind == "S" {
                vec![("last_value".into(), ty(INT8)), ("log_cnt".into(), ty(INT8)), ("is_called".into(), ty(BOOL))]
            } else {
                table_cols(b.db, b.snap, oid).into_iter().map(|x| (if x.3 { format!("\u{0}{}", x.2) } else { x.0 }, x.1)).collect()
            };
            for (i, n) in cols.iter().enumerate() {
                if i < c.len() {
                    c[i].0 = n.clone();
                }
            }
            b.scopes.last_mut().unwrap().rtes.push(Rte { alias: a, rel: oid, cols: c });
            Ok(PFrom::Rel { rte, rel: oid })
        }
        From::Func { call, alias, cols, ord } => {
            let (name, args) = match call {
                Expr::Func { name, args, .. } => (name.last().unwrap().clone(), args.clone()),
                _ => return err("42601", "syntax error in FROM"),
            };
            let a = alias.clone().unwrap_or(name.clone());
            dup(b, &a)?;
            let mut v = vec![];
            for x in &args {
                v.push(b.bind(x)?);
            }
            let mut c: Vec<(String, Ty)> = match name.as_str() {
                "unnest" => {
                    let mut o = vec![];
                    for x in &v {
                        let el = elem_of(x.t.oid);
                        if el == 0 {
                            return err("42883", format!("function unnest({}) does not exist", format_type(x.t.oid, -1)));
                        }
                        o.push((if v.len() == 1 { alias.clone().unwrap_or("unnest".into()) } else { "unnest".into() }, ty(el)));
                    }
                    o
                }
                "generate_series" => {
                    if v.len() != 2 {
                        return err("42883", "function generate_series does not exist");
                    }
                    vec![(a.clone(), ty(INT4))]
                }
                "generate_subscripts" => vec![(a.clone(), ty(INT4))],
                _ => {
                    // any scalar function is a one-row relation
                    let e = b.bind(call)?;
                    let t = e.t;
                    v = vec![e];
                    vec![(a.clone(), t)]
                }
            };
            if *ord {
                c.push(("ordinality".into(), ty(INT8)));
            }
            for (i, n) in cols.iter().enumerate() {
                if i >= c.len() {
                    return err("42P10", format!("table \"{}\" has {} columns available but {} columns specified", a, c.len(), cols.len()));
                }
                c[i].0 = n.clone();
            }
            let rte = nr(b);
            b.scopes.last_mut().unwrap().rtes.push(Rte { alias: a, rel: 0, cols: c });
            Ok(PFrom::Func { rte, name, args: v, ord: *ord })
        }
        From::Sub { q, alias, cols } => {
            let p = bind_select(b, q)?;
            let mut c = p.cols.clone();
            for (i, n) in cols.iter().enumerate() {
                if i < c.len() {
                    c[i].0 = n.clone();
                }
            }
            let rte = nr(b);
            b.scopes.last_mut().unwrap().rtes.push(Rte { alias: alias.clone().unwrap_or(format!("\u{0}sub{}", rte)), rel: 0, cols: c });
            Ok(PFrom::Sub { rte, plan: Box::new(p) })
        }
        From::Join { kind, l, r, on, using } => {
            let st = nr(b);
            let pl = bind_from(b, l, rels)?;
            let mid = nr(b);
            let pr = bind_from(b, r, rels)?;
            let en = nr(b);
            let mut cond = match on {
                Some(e) => Some(b.bool_expr(e, "JOIN/ON")?),
                None => None,
            };
            for u in using {
                let find = |b: &Binder, r: std::ops::Range<usize>| -> Option<TE> {
                    for i in r {
                        let s = &b.scopes.last().unwrap().rtes[i];
                        if let Some(j) = s.cols.iter().position(|c| &c.0 == u) {
                            return Some(TE { t: s.cols[j].1, k: K::Col { lvl: 0, rte: i, col: j, name: u.clone() } });
                        }
                    }
                    None
                };
                match (find(b, st..mid), find(b, mid..en)) {
                    (Some(x), Some(y)) => {
                        let e = b.binop("=", x, y)?;
                        cond = Some(match cond {
                            None => e,
                            Some(c) => TE { t: ty(BOOL), k: K::And(Box::new(c), Box::new(e)) },
                        });
                        // the merged column is visible once
                        for i in mid..en {
                            for c in b.scopes.last_mut().unwrap().rtes[i].cols.iter_mut() {
                                if &c.0 == u {
                                    c.0 = format!("\u{0}{}", u);
                                }
                            }
                        }
                    }
                    _ => return err("42703", format!("column \"{}\" specified in USING clause does not exist", u)),
                }
            }
            Ok(PFrom::Join { kind: *kind, l: Box::new(pl), r: Box::new(pr), on: cond, rtes: (mid, en) })
        }
    }
}

fn conjuncts(e: TE, out: &mut Vec<TE>) {
    match e.k {
        K::And(a, b) => {
            conjuncts(*a, out);
            conjuncts(*b, out);
        }
        _ => out.push(e),
    }
}
/// how many range table entries of the current level an expression needs
fn needs(e: &TE, nrte: usize) -> usize {
    if has_sub(e) {
        return nrte;
    }
    let mut m = 0;
    walk(e, &mut |x| {
        if let K::Col { lvl: 0, rte, .. } = &x.k {
            m = m.max(rte + 1);
        }
    });
    m
}

pub fn bind_select(b: &mut Binder, q: &Select) -> Res<Plan> {
    let nctes = b.ctes.len();
    for (n, cols, s) in &q.with {
        let mut p = bind_select(b, s)?;
        for (i, c) in cols.iter().enumerate() {
            if i < p.cols.len() {
                p.cols[i].0 = c.clone();
            }
        }
        b.ctes.push((n.clone(), p));
    }
    let r = bind_select2(b, q);
    b.ctes.truncate(nctes);
    r
}
fn bind_select2(b: &mut Binder, q: &Select) -> Res<Plan> {
    let mut p = Plan::default();
    b.scopes.push(Scope::default());
    let r = (|| -> Res<()> {
        if let Some((k, all, l, r)) = &q.union {
            let pl = bind_select(b, l)?;
            let pr = bind_select(b, r)?;
            if pl.cols.len() != pr.cols.len() {
                return err("42601", format!("each {} query must have the same number of columns", k.to_uppercase()));
            }
            let mut cols = vec![];
            for (x, y) in pl.cols.iter().zip(&pr.cols) {
                let probe = |t: Ty| TE { t, k: K::Const(Val::Null) };
                let t = b.common(&[probe(x.1), probe(y.1)], "UNION")?;
                cols.push((x.0.clone(), ty(t)));
            }
            p.cols = cols;
            p.union = Some((k.clone(), *all, Box::new(pl), Box::new(pr)));
        } else if !q.values.is_empty() {
            let n = q.values[0].len();
            let mut rows = vec![];
            for r in &q.values {
                if r.len() != n {
                    return err("42601", "VALUES lists must all be the same length");
                }
                let mut o = vec![];
                for x in r {
                    o.push(b.bind(x)?);
                }
                rows.push(o);
            }
            for i in 0..n {
                let col: Vec<TE> = rows.iter().map(|r| r[i].clone()).collect();
                let t = b.common(&col, "VALUES")?;
                for r in rows.iter_mut() {
                    let e = r[i].clone();
                    r[i] = b.coerce(e, ty(t), Ctx::Implicit)?;
                }
                p.cols.push((format!("column{}", i + 1), ty(t)));
            }
            p.values = rows;
        } else {
            for f in &q.from {
                let mut rels = vec![];
                let pf = bind_from(b, f, &mut rels)?;
                p.rels.extend(rels);
                let n = b.scopes.last().unwrap().rtes.len();
                p.from.push((pf, n));
            }
            p.nrte = b.scopes.last().unwrap().rtes.len();
            if let Some(w) = &q.wher {
                let e = b.bool_expr(w, "WHERE")?;
                let mut cs = vec![];
                conjuncts(e, &mut cs);
                for c in cs {
                    let n = needs(&c, p.nrte);
                    p.conds.push((c, n));
                }
            }
            for g in &q.group {
                let e = match g {
                    Expr::Num(s) => {
                        let k: usize = s.parse().unwrap_or(0);
                        match q.targets.get(k.wrapping_sub(1)) {
                            Some((e, _)) => b.bind(e)?,
                            None => return err("42P10", "GROUP BY position is not in select list"),
                        }
                    }
                    e => match b.bind(e) {
                        Ok(t) => t,
                        Err(x) => match (e, q.targets.iter().find(|(_, a)| matches!((a, e), (Some(a), Expr::Col(c)) if c.len() == 1 && &c[0] == a))) {
                            (_, Some((t, _))) => b.bind(t)?,
                            _ => return Err(x),
                        },
                    },
                };
                p.group.push(e);
            }
            b.scopes.last_mut().unwrap().allow_agg = true;
            for (e, a) in &q.targets {
                if let Expr::Star(t) = e {
                    let mut any = false;
                    let rtes = b.scopes.last().unwrap().rtes.clone();
                    for (i, r) in rtes.iter().enumerate() {
                        if !t.is_empty() && &r.alias != t.last().unwrap() {
                            continue;
                        }
                        any = true;
                        for (j, (n, ct)) in r.cols.iter().enumerate() {
                            if n.starts_with('\u{0}') {
                                continue;
                            }
                            p.targets.push(TE { t: *ct, k: K::Col { lvl: 0, rte: i, col: j, name: n.clone() } });
                            p.cols.push((n.clone(), *ct));
                        }
                    }
                    if !any {
                        return err("42601", "SELECT * with no tables specified is not valid");
                    }
                    continue;
                }
                let t = b.bind(e)?;
                let t = if t.t.oid == UNKNOWN { b.coerce(t, ty(TEXT), Ctx::Implicit)? } else { t };
                p.cols.push((a.clone().unwrap_or_else(|| func_name(e)), t.t));
                p.targets.push(t);
            }
            if let Some(h) = &q.having {
                p.having = Some(b.bool_expr(h, "HAVING")?);
            }
        }
        for o in &q.order {
            let nf = o.nulls_first.unwrap_or(o.desc);
            let key = match &o.expr {
                Expr::Num(s) if s.parse::<usize>().is_ok() => {
                    let k: usize = s.parse().unwrap();
                    if k == 0 || k > p.cols.len() {
                        return err("42P10", format!("ORDER BY position {} is not in select list", k));
                    }
                    Key::Out(k - 1)
                }
                Expr::Col(c) if c.len() == 1 && p.cols.iter().filter(|x| x.0 == c[0]).count() == 1 => Key::Out(p.cols.iter().position(|x| x.0 == c[0]).unwrap()),
                e => {
                    if p.union.is_some() || !p.values.is_empty() {
                        return err("0A000", "invalid UNION/INTERSECT/EXCEPT ORDER BY clause");
                    }
                    Key::Expr(b.bind(e)?)
                }
            };
            p.order.push((key, o.desc, nf));
        }
        b.scopes.last_mut().unwrap().allow_agg = false;
        p.aggs = std::mem::take(&mut b.scopes.last_mut().unwrap().aggs);
        p.grouped = !p.aggs.is_empty() || !p.group.is_empty() || p.having.is_some();
        if p.grouped {
            let groups: Vec<String> = p.group.iter().map(|g| format!("{:?}", g.k)).collect();
            let mut bad = None;
            fn chk(e: &TE, groups: &[String], bad: &mut Option<String>) {
                if groups.contains(&format!("{:?}", e.k)) {
                    return;
                }
                match &e.k {
                    K::Col { lvl: 0, name, .. } => *bad = Some(name.clone()),
                    _ => children(e, &mut |c| chk(c, groups, bad)),
                }
            }
            for t in &p.targets {
                chk(t, &groups, &mut bad);
            }
            for (k, _, _) in &p.order {
                if let Key::Expr(e) = k {
                    chk(e, &groups, &mut bad);
                }
            }
            if let Some(n) = bad {
                return err("42803", format!("column \"{}\" must appear in the GROUP BY clause or be used in an aggregate function", n));
            }
        }
        if let Some(e) = &q.limit {
            let t = b.bind(e)?;
            p.limit = Some(b.coerce(t, ty(INT8), Ctx::Assign)?);
        }
        if let Some(e) = &q.offset {
            let t = b.bind(e)?;
            p.offset = Some(b.coerce(t, ty(INT8), Ctx::Assign)?);
        }
        p.distinct = q.distinct;
        if let Some(f) = &q.for_update {
            if p.grouped || p.distinct {
                return err("0A000", "FOR UPDATE is not allowed with this query");
            }
            p.lock = Some((if f.starts_with("share") { 2 } else { 3 }, f.ends_with("nowait")));
        }
        Ok(())
    })();
    b.scopes.pop();
    r?;
    Ok(p)
}
fn children(e: &TE, f: &mut dyn FnMut(&TE)) {
    match &e.k {
        K::InSub(a, _, _) => f(a),
        K::Func(_, v) | K::Array(v) | K::Coalesce(v) | K::MinMax(v, _) => v.iter().for_each(|x| f(x)),
        K::Op(_, a, b) | K::And(a, b) | K::Or(a, b) | K::Distinct(a, b, _) | K::Any(_, a, b, _) | K::NullIf(a, b) | K::Index(a, b) => {
            f(a);
            f(b);
        }
        K::Neg(a) | K::BitNot(a) | K::Not(a) | K::IsNull(a, _) | K::IsBool(a, _, _) | K::Cast(a, _) => f(a),
        K::Case(a, w, e) => {
            if let Some(a) = a {
                f(a);
            }
            for (c, v) in w {
                f(c);
                f(v);
            }
            if let Some(e) = e {
                f(e);
            }
        }
        _ => {}
    }
}

/// all relations a plan reads, subqueries included
pub fn plan_rels(p: &Plan, out: &mut Vec<Oid>) {
    out.extend(&p.rels);
    fn ex(e: &TE, out: &mut Vec<Oid>) {
        walk(e, &mut |x| match &x.k {
            K::Sub(p) | K::Exists(p) | K::ArraySub(p) | K::InSub(_, p, _) => plan_rels(p, out),
            _ => {}
        });
    }
    fn fr(f: &PFrom, out: &mut Vec<Oid>) {
        match f {
            PFrom::Sub { plan, .. } => plan_rels(plan, out),
            PFrom::Join { l, r, on, .. } => {
                fr(l, out);
                fr(r, out);
                if let Some(e) = on {
                    ex(e, out);
                }
            }
            _ => {}
        }
    }
    for (f, _) in &p.from {
        fr(f, out);
    }
    for t in &p.targets {
        ex(t, out);
    }
    for (c, _) in &p.conds {
        ex(c, out);
    }
    if let Some((_, _, l, r)) = &p.union {
        plan_rels(l, out);
        plan_rels(r, out);
    }
}

fn scan_rel(cx: &mut Cx, rel: Oid) -> Res<Rc<Vec<Row>>> {
    if let Some(r) = cx.scan_cache.get(&rel) {
        return Ok(r.clone());
    }
    let snap = if rel < 16384 { cx.latest() } else { cx.snap };
    let sn = cx.latest();
    let is_seq = rel >= 16384 && !cx.db.cat_find(C_SEQ, sn, &[("seqrelid", Val::Int(rel as i64))]).is_empty();
    let rows: Vec<Row> = if is_seq {
        let s = cx.db.seqs.get(&rel).cloned().unwrap_or(SeqState { last: 1, called: false });
        vec![Rc::new(vec![Val::Int(s.last), Val::Int(0), Val::Bool(s.called)])]
    } else {
        cx.db.scan(rel, snap).into_iter().map(|x| x.1).collect()
    };
    let rc = Rc::new(rows);
    cx.scan_cache.insert(rel, rc.clone());
    Ok(rc)
}

fn exec_from(cx: &mut Cx, f: &PFrom, base: Vec<Option<Row>>) -> Res<Vec<Vec<Option<Row>>>> {
    let ext = |base: &Vec<Option<Row>>, rte: usize, r: Option<Row>| {
        let mut v = base.clone();
        v[rte] = r;
        v
    };
    Ok(match f {
        PFrom::Rel { rte, rel } => {
            let rows = scan_rel(cx, *rel)?;
            rows.iter().map(|r| ext(&base, *rte, Some(r.clone()))).collect()
        }
        PFrom::Func { rte, name, args, ord } => {
            cx.env.last_mut().unwrap().rows = base.clone();
            let mut v = vec![];
            for a in args {
                v.push(cx.eval(a)?);
            }
            let mut rows: Vec<Vec<Val>> = match name.as_str() {
                "unnest" => {
                    let n = v.iter().map(|x| if let Val::Arr(a) = x { a.len() } else { 0 }).max().unwrap_or(0);
                    (0..n).map(|i| v.iter().map(|x| if let Val::Arr(a) = x { a.get(i).cloned().unwrap_or(Val::Null) } else { Val::Null }).collect()).collect()
                }
                "generate_series" => (v[0].int()..=v[1].int().min(v[0].int() + 10000)).map(|i| vec![Val::Int(i)]).collect(),
                "generate_subscripts" => match &v[0] {
                    Val::Arr(a) => {
                        let o = if args[0].t.oid == INT2VECTOR { 0 } else { 1 };
                        (0..a.len()).map(|i| vec![Val::Int(i as i64 + o)]).collect()
                    }
                    _ => vec![],
                },
                _ => vec![vec![v.remove(0)]],
            };
            if *ord {
                for (i, r) in rows.iter_mut().enumerate() {
                    r.push(Val::Int(i as i64 + 1));
                }
            }
            rows.into_iter().map(|r| ext(&base, *rte, Some(Rc::new(r)))).collect()
        }
        PFrom::Sub { rte, plan } => {
            cx.env.last_mut().unwrap().rows = base.clone();
            let rows = exec_plan(cx, plan)?;
            rows.into_iter().map(|r| ext(&base, *rte, Some(Rc::new(r)))).collect()
        }
        PFrom::Join { kind, l, r, on, rtes } => {
            let mut out = vec![];
            let left = exec_from(cx, l, base.clone())?;
            let keep_right = matches!(kind, JoinKind::Right | JoinKind::Full);
            let mut right_hit: Vec<bool> = vec![];
            let mut nright = 0;
            for lr in &left {
                let mut any = false;
                let rr = exec_from(cx, r, lr.clone())?;
                if keep_right && right_hit.is_empty() {
                    right_hit = vec![false; rr.len()];
                    nright = rr.len();
                }
                for (i, row) in rr.into_iter().enumerate() {
                    let ok = match on {
                        None => true,
                        Some(e) => {
                            cx.env.last_mut().unwrap().rows = row.clone();
                            cx.eval(e)?.bool()
                        }
                    };
                    if ok {
                        any = true;
                        if keep_right {
                            right_hit[i] = true;
                        }
                        out.push(row);
                    }
                }
                if !any && matches!(kind, JoinKind::Left | JoinKind::Full) {
                    let mut v = lr.clone();
                    for i in rtes.0..rtes.1 {
                        v[i] = None;
                    }
                    out.push(v);
                }
            }
            let _ = nright;
            if keep_right {
                let rr = exec_from(cx, r, base)?;
                if right_hit.is_empty() {
                    right_hit = vec![false; rr.len()];
                }
                for (i, row) in rr.into_iter().enumerate() {
                    if !right_hit[i] {
                        out.push(row);
                    }
                }
            }
            out
        }
    })
}

/// the rows of the FROM and WHERE clauses
pub fn exec_rows(cx: &mut Cx, p: &Plan) -> Res<Vec<Vec<Option<Row>>>> {
    let mut rows = vec![vec![None; p.nrte]];
    let mut done = 0;
    let filter = |cx: &mut Cx, rows: Vec<Vec<Option<Row>>>, lo: usize, hi: usize, first: bool| -> Res<Vec<Vec<Option<Row>>>> {
        let cs: Vec<&TE> = p.conds.iter().filter(|(_, n)| (*n > lo || (first && *n == 0)) && *n <= hi).map(|x| &x.0).collect();
        if cs.is_empty() {
            return Ok(rows);
        }
        let mut out = vec![];
        'r: for r in rows {
            for c in &cs {
                cx.env.last_mut().unwrap().rows = r.clone();
                if !cx.eval(c)?.bool() {
                    continue 'r;
                }
            }
            out.push(r);
        }
        Ok(out)
    };
    if p.from.is_empty() {
        return filter(cx, rows, 0, usize::MAX, true);
    }
    for (i, (f, n)) in p.from.iter().enumerate() {
        let mut next = vec![];
        for b in rows {
            next.extend(exec_from(cx, f, b)?);
            if next.len() > 200_000 {
                return err("54000", "simulated database: intermediate result too large");
            }
        }
        rows = filter(cx, next, done, *n, i == 0)?;
        done = *n;
    }
    fn scans(f: &PFrom) -> bool {
        match f {
            PFrom::Rel { .. } => true,
            PFrom::Join { l, r, .. } => scans(l) || scans(r),
            _ => false,
        }
    }
    // the plan is the server's choice, so the order in which tables give their rows is open
    if cx.db.order != 0 && rows.len() > 1 && p.from.iter().any(|f| scans(&f.0)) {
        let mut s = cx.db.order;
        for i in (1..rows.len()).rev() {
            s = crate::tape::mix(s);
            rows.swap(i, ((s >> 8) % (i as u64 + 1)) as usize);
        }
    }
    Ok(rows)
}

pub fn exec_plan(cx: &mut Cx, p: &Plan) -> Res<Vec<Vec<Val>>> {
    cx.env.push(Level::default());
    let r = exec_plan2(cx, p);
    cx.env.pop();
    r
}
fn sort(keys: &mut Vec<(Vec<Val>, Vec<Val>)>, order: &[(Key, bool, bool)]) {
    keys.sort_by(|a, b| {
        for (i, (_, desc, nf)) in order.iter().enumerate() {
            let (x, y) = (&a.0[i], &b.0[i]);
            let c = match (x.is_null(), y.is_null()) {
                (true, true) => Ordering::Equal,
                (true, false) => {
                    if *nf {
                        Ordering::Less
                    } else {
                        Ordering::Greater
                    }
                }
                (false, true) => {
                    if *nf {
                        Ordering::Greater
                    } else {
                        Ordering::Less
                    }
                }
                _ => {
                    let c = compare(x, y);
                    if *desc {
                        c.reverse()
                    } else {
                        c
                    }
                }
            };
            if c != Ordering::Equal {
                return c;
            }
        }
        Ordering::Equal
    });
}
fn same(a: &[Val], b: &[Val]) -> bool {
    a.iter().zip(b).all(|(x, y)| compare(x, y) == Ordering::Equal)
}

fn exec_plan2(cx: &mut Cx, p: &Plan) -> Res<Vec<Vec<Val>>> {
    let mut out: Vec<(Vec<Val>, Vec<Val>)> = vec![];
    let keys = |cx: &mut Cx, o: &Vec<Val>| -> Res<Vec<Val>> {
        let mut k = vec![];
        for (key, _, _) in &p.order {
            k.push(match key {
                Key::Out(i) => o[*i].clone(),
                Key::Expr(e) => cx.eval(e)?,
            });
        }
        Ok(k)
    };
    if let Some((k, all, l, r)) = &p.union {
        let mut a = exec_plan(cx, l)?;
        let b = exec_plan(cx, r)?;
        match k.as_str() {
            "union" => a.extend(b),
            "except" => a.retain(|x| !b.iter().any(|y| same(x, y))),
            _ => a.retain(|x| b.iter().any(|y| same(x, y))),
        }
        if !*all {
            let mut u: Vec<Vec<Val>> = vec![];
            for r in a {
                if !u.iter().any(|x| same(x, &r)) {
                    u.push(r);
                }
            }
            a = u;
        }
        for r in a {
            let k = keys(cx, &r)?;
            out.push((k, r));
        }
    } else if !p.values.is_empty() {
        for r in &p.values {
            let mut o = vec![];
            for e in r {
                o.push(cx.eval(e)?);
            }
            let k = keys(cx, &o)?;
            out.push((k, o));
        }
    } else {
        let rows = exec_rows(cx, p)?;
        if p.grouped {
            let mut groups: Vec<(Vec<Val>, Vec<Vec<Option<Row>>>)> = vec![];
            for r in rows {
                cx.env.last_mut().unwrap().rows = r.clone();
                let mut g = vec![];
                for e in &p.group {
                    g.push(cx.eval(e)?);
                }
                match groups.iter_mut().find(|x| same(&x.0, &g)) {
                    Some(x) => x.1.push(r),
                    None => groups.push((g, vec![r])),
                }
            }
            if groups.is_empty() && p.group.is_empty() {
                groups.push((vec![], vec![]));
            }
            for (_, rows) in groups {
                let mut aggs = vec![];
                for a in &p.aggs {
                    aggs.push(agg(cx, a, &rows)?);
                }
                let l = cx.env.last_mut().unwrap();
                l.aggs = aggs;
                l.rows = rows.first().cloned().unwrap_or(vec![None; p.nrte]);
                if let Some(h) = &p.having {
                    if !cx.eval(h)?.bool() {
                        continue;
                    }
                }
                let mut o = vec![];
                for t in &p.targets {
                    o.push(cx.eval(t)?);
                }
                let k = keys(cx, &o)?;
                out.push((k, o));
            }
        } else {
            for r in rows {
                cx.env.last_mut().unwrap().rows = r;
                let mut o = vec![];
                for t in &p.targets {
                    o.push(cx.eval(t)?);
                }
                let k = keys(cx, &o)?;
                out.push((k, o));
            }
        }
    }
    if p.distinct {
        let mut u: Vec<(Vec<Val>, Vec<Val>)> = vec![];
        for r in out {
            if !u.iter().any(|x| same(&x.1, &r.1)) {
                u.push(r);
            }
        }
        out = u;
    }
    sort(&mut out, &p.order);
    let mut res: Vec<Vec<Val>> = out.into_iter().map(|x| x.1).collect();
    if let Some(e) = &p.offset {
        let n = cx.eval(e)?.int().max(0) as usize;
        res = res.into_iter().skip(n).collect();
    }
    if let Some(e) = &p.limit {
        if let Val::Int(n) = cx.eval(e)? {
            res.truncate(n.max(0) as usize);
        }
    }
    Ok(res)
}

fn agg(cx: &mut Cx, a: &AggDef, rows: &[Vec<Option<Row>>]) -> Res<Val> {
    let mut vals: Vec<(Vec<Val>, Vec<Val>)> = vec![];
    let mut sep = Val::Null;
    for r in rows {
        cx.env.last_mut().unwrap().rows = r.clone();
        if let Some(f) = &a.filter {
            if !cx.eval(f)?.bool() {
                continue;
            }
        }
        let v = match &a.arg {
            Some(e) => cx.eval(e)?,
            None => Val::Int(1),
        };
        if let Some(e) = &a.arg2 {
            sep = cx.eval(e)?;
        }
        let mut k = vec![];
        for (e, _, _) in &a.order {
            k.push(cx.eval(e)?);
        }
        vals.push((k, vec![v]));
    }
    let ord: Vec<(Key, bool, bool)> = a.order.iter().map(|(_, d, n)| (Key::Out(0), *d, *n)).collect();
    sort(&mut vals, &ord);
    let mut v: Vec<Val> = vals.into_iter().map(|mut x| x.1.remove(0)).collect();
    if a.distinct {
        let mut u: Vec<Val> = vec![];
        for x in v {
            if !u.iter().any(|y| compare(y, &x) == Ordering::Equal) {
                u.push(x);
            }
        }
        v = u;
    }
    if a.name == "array_agg" {
        return Ok(if v.is_empty() { Val::Null } else { Val::Arr(v) });
    }
    let nn: Vec<Val> = v.into_iter().filter(|x| !x.is_null()).collect();
    if a.name == "count" {
        return Ok(Val::Int(nn.len() as i64));
    }
    if nn.is_empty() {
        return Ok(Val::Null);
    }
    Ok(match a.name.as_str() {
        "min" => nn.into_iter().min_by(compare).unwrap(),
        "max" => nn.into_iter().max_by(compare).unwrap(),
        "bool_and" | "every" => Val::Bool(nn.iter().all(|x| x.bool())),
        "bool_or" => Val::Bool(nn.iter().any(|x| x.bool())),
        "string_agg" => Val::Text(nn.iter().map(|x| x.text().to_string()).collect::<Vec<_>>().join(sep.text())),
        "sum" => {
            let at = a.arg.as_ref().map(|x| x.t.oid).unwrap_or(INT4);
            if is_int(at) {
                let s: i64 = nn.iter().map(|x| x.int()).sum();
                if a.t.oid == NUMERIC {
                    Val::Num(Dec { mant: s as i128, scale: 0 })
                } else {
                    Val::Int(s)
                }
            } else {
                let mut acc = nn[0].clone();
                for x in &nn[1..] {
                    acc = cx.op("+", at, at, at, acc, x.clone())?;
                }
                acc
            }
        }
        _ => return err("0A000", format!("aggregate {} is not modelled", a.name)),
    })
}
