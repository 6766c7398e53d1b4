//! Sessions and the frontend/backend protocol, one message at a time.
use super::ast::*;
use super::dml::*;
use super::expr::*;
use super::store::*;
use super::types::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq)]
pub enum TxState {
    Idle,
    Open,
    Failed,
}
#[derive(Clone, Debug)]
struct Prepared {
    stmt: Stmt,
    params: Vec<Oid>,
    cols: OutCols,
    text: String,
}
#[derive(Clone, Debug)]
struct Portal {
    stmt: Stmt,
    ptypes: Vec<Oid>,
    params: Vec<Val>,
    fmts: Vec<u16>,
    cols: OutCols,
    text: String,
    rows: Option<(Vec<Vec<Val>>, usize, String)>,
}
pub struct Session {
    pub inbuf: Vec<u8>,
    pub out: Vec<u8>,
    started: bool,
    pub closed: bool,
    /// the client end is gone
    pub eof: bool,
    tx: TxState,
    implicit: bool,
    pub top: Xid,
    snap: Option<Snap>,
    iso: String,
    read_only: bool,
    savepoints: Vec<(String, Xid)>,
    tx_now: i64,
    prepared: BTreeMap<String, Prepared>,
    portals: BTreeMap<String, Portal>,
    skip: bool,
    pub waiting: Option<Vec<Xid>>,
    currvals: BTreeMap<Oid, i64>,
    settings: BTreeMap<String, String>,
    /// progress through a simple query with several statements
    sq: Option<(Vec<(Stmt, String)>, usize)>,
    /// the next statement fails with this
    pub inject: Option<PgErr>,
    pub in_tx_stmts: usize,
}
impl Default for Session {
    fn default() -> Session {
        Session {
            inbuf: vec![],
            out: vec![],
            started: false,
            closed: false,
            eof: false,
            tx: TxState::Idle,
            implicit: false,
            top: 0,
            snap: None,
            iso: "read committed".into(),
            read_only: false,
            savepoints: vec![],
            tx_now: 0,
            prepared: BTreeMap::new(),
            portals: BTreeMap::new(),
            skip: false,
            waiting: None,
            currvals: BTreeMap::new(),
            settings: BTreeMap::new(),
            sq: None,
            inject: None,
            in_tx_stmts: 0,
        }
    }
}

#[derive(Clone, Debug)]
pub struct LogEv {
    pub sid: usize,
    pub text: String,
    pub result: String,
    pub csn: u64,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Step {
    Progress,
    Blocked,
    NeedInput,
    Closed,
}
pub struct Server {
    pub db: Db,
    pub sess: Vec<Session>,
    pub log: Vec<LogEv>,
    pub deadlocks: u64,
    pub waits: u64,
}

fn be32(b: &[u8]) -> usize {
    u32::from_be_bytes([b[0], b[1], b[2], b[3]]) as usize
}
fn msg(out: &mut Vec<u8>, t: u8, body: &[u8]) {
    out.push(t);
    out.extend(((body.len() + 4) as u32).to_be_bytes());
    out.extend(body);
}
fn cstr(b: &[u8], p: &mut usize) -> String {
    let e = b[*p..].iter().position(|c| *c == 0).map(|k| *p + k).unwrap_or(b.len());
    let s = String::from_utf8_lossy(&b[*p..e]).to_string();
    *p = (e + 1).min(b.len());
    s
}
fn i16at(b: &[u8], p: &mut usize) -> i16 {
    let v = i16::from_be_bytes([b[*p], b[*p + 1]]);
    *p += 2;
    v
}
fn i32at(b: &[u8], p: &mut usize) -> i32 {
    let v = i32::from_be_bytes([b[*p], b[*p + 1], b[*p + 2], b[*p + 3]]);
    *p += 4;
    v
}
fn writes(s: &Stmt) -> bool {
    !matches!(
        s,
        Stmt::Empty | Stmt::Begin { .. } | Stmt::Commit | Stmt::Rollback | Stmt::Savepoint(_) | Stmt::Release(_) | Stmt::RollbackTo(_) | Stmt::Set(..) | Stmt::SetTransaction { .. } | Stmt::Show(_) | Stmt::Select(_) | Stmt::Lock { .. }
    )
}
fn takes_snapshot(s: &Stmt) -> bool {
    !matches!(s, Stmt::Set(..) | Stmt::SetTransaction { .. } | Stmt::Show(_) | Stmt::Lock { .. } | Stmt::Empty)
}
fn tag(s: &Stmt, n: usize) -> String {
    match s {
        Stmt::Select(_) => format!("SELECT {}", n),
        Stmt::Insert { .. } => format!("INSERT 0 {}", n),
        Stmt::Delete { .. } => format!("DELETE {}", n),
        Stmt::Update { .. } => format!("UPDATE {}", n),
        Stmt::CreateSchema { .. } => "CREATE SCHEMA".into(),
        Stmt::DropSchema { .. } => "DROP SCHEMA".into(),
        Stmt::CreateTable { .. } => "CREATE TABLE".into(),
        Stmt::DropRel { kind, .. } => match kind {
            'v' => "DROP VIEW",
            'S' => "DROP SEQUENCE",
            'i' => "DROP INDEX",
            _ => "DROP TABLE",
        }
        .into(),
        Stmt::AlterTable { .. } => "ALTER TABLE".into(),
        Stmt::AlterSeq { .. } => "ALTER SEQUENCE".into(),
        Stmt::AlterSchemaRename(..) => "ALTER SCHEMA".into(),
        Stmt::AlterIndexRename(..) => "ALTER INDEX".into(),
        Stmt::CreateIndex { .. } => "CREATE INDEX".into(),
        Stmt::CreateSeq { .. } => "CREATE SEQUENCE".into(),
        Stmt::CreateFunc { .. } => "CREATE FUNCTION".into(),
        Stmt::DropFunc { .. } => "DROP FUNCTION".into(),
        Stmt::CreateView { .. } => "CREATE VIEW".into(),
        Stmt::Comment => "COMMENT".into(),
        Stmt::Truncate(_) => "TRUNCATE TABLE".into(),
        Stmt::Lock { .. } => "LOCK TABLE".into(),
        Stmt::Set(..) | Stmt::SetTransaction { .. } => "SET".into(),
        Stmt::Show(_) => "SHOW".into(),
        Stmt::Begin { .. } => "BEGIN".into(),
        Stmt::Commit => "COMMIT".into(),
        Stmt::Rollback | Stmt::RollbackTo(_) => "ROLLBACK".into(),
        Stmt::Savepoint(_) => "SAVEPOINT".into(),
        Stmt::Release(_) => "RELEASE".into(),
        Stmt::Empty => "".into(),
    }
}

/// utility statements
fn util(cx: &mut Cx, s: &Stmt) -> Res<()> {
    match s {
        Stmt::CreateSchema { name, if_not_exists } => cx.create_schema(name, *if_not_exists),
        Stmt::DropSchema { names, if_exists, cascade } => cx.drop_schema(names, *if_exists, *cascade),
        Stmt::CreateTable { name, cols, cons, if_not_exists } => cx.create_table(name, cols, cons, *if_not_exists),
        Stmt::DropRel { kind, names, if_exists, cascade } => cx.drop_rel(*kind, names, *if_exists, *cascade),
        Stmt::AlterTable { name, if_exists, acts } => cx.alter_table(name, *if_exists, acts),
        Stmt::AlterSeq { name, opts } => cx.alter_seq(name, opts),
        Stmt::AlterSchemaRename(a, b) => cx.rename_schema(a, b),
        Stmt::AlterIndexRename(a, b) => cx.alter_table(a, false, &[Alter::RenameTo(b.clone())]),
        Stmt::CreateIndex { name, table, method, unique, elems, pred, if_not_exists } => cx.create_index(name, table, method, *unique, elems, pred.as_ref(), *if_not_exists),
        Stmt::CreateSeq { name, opts, if_not_exists } => cx.create_seq(name, opts, *if_not_exists, None).map(|_| ()),
        Stmt::CreateFunc { name, args, ret, lang, vol, body, replace, strict } => cx.create_func(name, args, ret, lang, *vol, body, *replace, *strict),
        Stmt::DropFunc { name, args, if_exists, cascade } => cx.drop_func(name, args, *if_exists, *cascade),
        Stmt::CreateView { name, cols, q, text, replace } => cx.create_view(name, cols, q, text, *replace),
        Stmt::Comment => Ok(()),
        Stmt::Truncate(t) => cx.truncate(t),
        Stmt::Lock { tables, mode, nowait } => {
            for t in tables {
                match cx.rel(t, "rv", *mode) {
                    Err(Stop::Wait(_)) if *nowait => return err("55P03", format!("could not obtain lock on relation \"{}\"", t.last().unwrap())),
                    x => {
                        x?;
                    }
                }
            }
            Ok(())
        }
        _ => err("0A000", "statement is not modelled"),
    }
}

type Done = (Vec<Vec<Val>>, OutCols, String);

impl Server {
    pub fn new(db: Db) -> Server {
        Server { db, sess: vec![], log: vec![], deadlocks: 0, waits: 0 }
    }
    pub fn connect(&mut self) -> usize {
        self.sess.push(Session::default());
        self.sess.len() - 1
    }
    fn begin(&mut self, s: &mut Session) {
        if s.top == 0 {
            s.top = self.db.begin();
            s.tx_now = self.db.now;
            s.snap = None;
            s.in_tx_stmts = 0;
        }
    }
    fn finish(&mut self, s: &mut Session, commit: bool) {
        if s.top != 0 {
            self.db.end(s.top, commit);
        }
        s.top = 0;
        s.tx = TxState::Idle;
        s.implicit = false;
        s.snap = None;
        s.savepoints.clear();
        s.portals.clear();
        s.iso = s.settings.get("default_transaction_isolation").cloned().unwrap_or("read committed".into());
        s.read_only = false;
    }
    fn cx<'a>(db: &'a mut Db, s: &'a mut Session, snap: Snap, xid: Xid, params: Vec<Val>) -> Cx<'a> {
        Cx {
            snap,
            xid,
            params,
            tx_now: s.tx_now,
            iso_rr: s.iso != "read committed",
            env: vec![],
            currvals: &mut s.currvals,
            scan_cache: BTreeMap::new(),
            steps: 0,
            db,
        }
    }
    fn would_deadlock(&self, me: Xid, on: &[Xid]) -> bool {
        let mut seen = vec![];
        let mut todo: Vec<Xid> = on.to_vec();
        while let Some(x) = todo.pop() {
            if x == me {
                return true;
            }
            if seen.contains(&x) {
                continue;
            }
            seen.push(x);
            for s in &self.sess {
                if s.top == x {
                    if let Some(w) = &s.waiting {
                        todo.extend(w.iter().copied());
                    }
                }
            }
        }
        false
    }

    fn control(&mut self, s: &mut Session, st: &Stmt) -> Option<Res<Done>> {
        let ok = |t: &str| Some(Ok((vec![], None, t.to_string())));
        match st {
            Stmt::Begin { iso, read_only } => {
                if s.tx == TxState::Failed {
                    return Some(err("25P02", "current transaction is aborted, commands ignored until end of transaction block"));
                }
                self.begin(s);
                s.tx = TxState::Open;
                s.implicit = false;
                if let Some(i) = iso {
                    s.iso = i.clone();
                }
                if let Some(r) = read_only {
                    s.read_only = *r;
                }
                ok("BEGIN")
            }
            Stmt::Commit => {
                if s.tx == TxState::Failed {
                    self.finish(s, false);
                    return ok("ROLLBACK");
                }
                if let Some(e) = s.inject.take() {
                    self.finish(s, false);
                    return Some(Err(Stop::Err(e)));
                }
                self.finish(s, true);
                ok("COMMIT")
            }
            Stmt::Rollback => {
                self.finish(s, false);
                ok("ROLLBACK")
            }
            Stmt::RollbackTo(n) => match s.savepoints.iter().rposition(|x| &x.0 == n) {
                None => Some(err("3B001", format!("savepoint \"{}\" does not exist", n))),
                Some(k) => {
                    let x0 = s.savepoints[k].1;
                    s.savepoints.truncate(k + 1);
                    for x in x0..self.db.xacts.len() {
                        if x != s.top && self.db.xacts[x].top == s.top && self.db.active(x) {
                            self.db.abort_sub(x);
                        }
                    }
                    s.tx = TxState::Open;
                    ok("ROLLBACK")
                }
            },
            _ => {
                if s.tx == TxState::Failed {
                    return Some(err("25P02", "current transaction is aborted, commands ignored until end of transaction block"));
                }
                match st {
                    Stmt::Savepoint(n) => {
                        if s.tx == TxState::Idle {
                            return Some(err("25P01", "SAVEPOINT can only be used in transaction blocks"));
                        }
                        s.savepoints.push((n.clone(), self.db.xacts.len()));
                        ok("SAVEPOINT")
                    }
                    Stmt::Release(n) => match s.savepoints.iter().rposition(|x| &x.0 == n) {
                        None => Some(err("3B001", format!("savepoint \"{}\" does not exist", n))),
                        Some(k) => {
                            s.savepoints.truncate(k);
                            ok("RELEASE")
                        }
                    },
                    Stmt::SetTransaction { iso, read_only } => {
                        if let Some(i) = iso {
                            s.iso = i.clone();
                        }
                        if let Some(r) = read_only {
                            s.read_only = *r;
                        }
                        ok("SET")
                    }
                    Stmt::Set(n, v) => {
                        s.settings.insert(n.clone(), v.trim_matches('\'').to_string());
                        ok("SET")
                    }
                    Stmt::Show(n) => {
                        let v = match n.as_str() {
                            "transaction_isolation" => s.iso.clone(),
                            "server_version" => "15.4".into(),
                            "server_version_num" => "150004".into(),
                            _ => s.settings.get(n).cloned().unwrap_or_default(),
                        };
                        Some(Ok((vec![vec![Val::Text(v)]], Some(vec![(n.clone(), ty(TEXT))]), "SHOW".into())))
                    }
                    _ => None,
                }
            }
        }
    }

    /// runs one statement; on Wait nothing has changed and it must be run again
    fn exec(&mut self, s: &mut Session, st: &Stmt, ptypes: &[Oid], params: Vec<Val>) -> Res<Done> {
        if let Some(r) = self.control(s, st) {
            return r;
        }
        if let Some(e) = s.inject.take() {
            return Err(Stop::Err(e));
        }
        if s.tx == TxState::Idle {
            s.implicit = true;
            s.tx = TxState::Open;
        }
        self.begin(s);
        if s.read_only && writes(st) {
            return err("25006", format!("cannot execute {} in a read-only transaction", tag(st, 0)));
        }
        if let Stmt::Lock { .. } = st {
            if s.implicit {
                return err("25P01", "LOCK TABLE can only be used in transaction blocks");
            }
        }
        let snap = if s.iso == "read committed" {
            self.db.latest(s.top)
        } else {
            if s.snap.is_none() && takes_snapshot(st) {
                s.snap = Some(self.db.latest(s.top));
            }
            s.snap.unwrap_or(self.db.latest(s.top))
        };
        let cat = self.db.latest(s.top);
        let mut pt = ptypes.to_vec();
        let (bound, cols) = bind_stmt(&self.db, cat, &mut pt, st)?;
        let x = self.db.sub(s.top);
        let r = {
            let mut cx = Self::cx(&mut self.db, s, snap, x, params);
            match &bound {
                Bound::Util => util(&mut cx, st).map(|_| (vec![], 0)),
                b => cx.run(b),
            }
        };
        match r {
            Ok((rows, n)) => {
                s.in_tx_stmts += 1;
                Ok((rows, cols, tag(st, n)))
            }
            Err(e) => {
                self.db.abort_sub(x);
                Err(e)
            }
        }
    }

    fn error(&mut self, s: &mut Session, e: &PgErr, sev: &str) {
        let mut b = vec![];
        for (c, v) in [(b'S', sev), (b'V', sev), (b'C', e.code), (b'M', e.msg.as_str())] {
            b.push(c);
            b.extend(v.as_bytes());
            b.push(0);
        }
        b.push(0);
        msg(&mut s.out, b'E', &b);
        if s.tx == TxState::Open {
            if s.implicit {
                self.finish(s, false);
            } else {
                s.tx = TxState::Failed;
            }
        }
    }
    fn ready(&self, s: &mut Session) {
        let c = match s.tx {
            TxState::Idle => b'I',
            TxState::Open => b'T',
            TxState::Failed => b'E',
        };
        msg(&mut s.out, b'Z', &[c]);
    }
    fn row_desc(s: &mut Session, cols: &[(String, Ty)], fmts: &[u16]) {
        let mut b = vec![];
        b.extend((cols.len() as u16).to_be_bytes());
        for (k, (n, t)) in cols.iter().enumerate() {
            b.extend(n.as_bytes());
            b.push(0);
            b.extend(0u32.to_be_bytes());
            b.extend(0u16.to_be_bytes());
            b.extend(t.oid.to_be_bytes());
            let len: i16 = match t.oid {
                BOOL | CHAR => 1,
                INT2 => 2,
                INT4 | OID | FLOAT4 | DATE => 4,
                INT8 | FLOAT8 | TIMESTAMP | TIMESTAMPTZ => 8,
                NAME => 64,
                _ => -1,
            };
            b.extend(len.to_be_bytes());
            b.extend(t.m.to_be_bytes());
            let f = if fmts.len() == 1 { fmts[0] } else { fmts.get(k).copied().unwrap_or(0) };
            b.extend(f.to_be_bytes());
        }
        msg(&mut s.out, b'T', &b);
    }
    fn data_row(s: &mut Session, cols: &[(String, Ty)], row: &[Val], fmts: &[u16]) {
        let mut b = vec![];
        b.extend((row.len() as u16).to_be_bytes());
        for (k, v) in row.iter().enumerate() {
            if v.is_null() {
                b.extend((-1i32).to_be_bytes());
                continue;
            }
            let t = cols.get(k).map(|c| c.1.oid).unwrap_or(TEXT);
            let f = if fmts.len() == 1 { fmts[0] } else { fmts.get(k).copied().unwrap_or(0) };
            let d = if f == 1 { to_binary(v, t) } else { output(v, t).into_bytes() };
            b.extend((d.len() as u32).to_be_bytes());
            b.extend(d);
        }
        msg(&mut s.out, b'D', &b);
    }

    /// the next complete message: (type, body length including header)
    fn next_msg(s: &Session) -> Option<(u8, usize)> {
        if !s.started {
            if s.inbuf.len() < 4 {
                return None;
            }
            let n = be32(&s.inbuf);
            return if s.inbuf.len() >= n { Some((0, n)) } else { None };
        }
        if s.inbuf.len() < 5 {
            return None;
        }
        let n = be32(&s.inbuf[1..]) + 1;
        if s.inbuf.len() >= n {
            Some((s.inbuf[0], n))
        } else {
            None
        }
    }
    /// what the next message would do: its kind and, where it runs something, the statement
    pub fn peek(&self, sid: usize) -> Option<(char, String)> {
        let s = &self.sess[sid];
        let (k, n) = Self::next_msg(s)?;
        let body = &s.inbuf[if k == 0 { 4 } else { 5 }..n];
        let mut p = 0;
        Some(match k {
            0 => ('0', String::new()),
            b'Q' => ('Q', cstr(body, &mut p)),
            b'P' => {
                cstr(body, &mut p);
                ('P', cstr(body, &mut p))
            }
            b'E' => {
                let n = cstr(body, &mut p);
                ('E', s.portals.get(&n).map(|x| x.text.clone()).unwrap_or_default())
            }
            k => (k as char, String::new()),
        })
    }
    pub fn runnable(&self, sid: usize) -> bool {
        let s = &self.sess[sid];
        if s.closed {
            return false;
        }
        if let Some(w) = &s.waiting {
            return w.iter().any(|x| !self.db.active(*x));
        }
        Self::next_msg(s).is_some() || s.eof
    }
    pub fn is_waiting(&self, sid: usize) -> bool {
        let s = &self.sess[sid];
        !s.closed && s.waiting.as_ref().map_or(false, |w| w.iter().all(|x| self.db.active(*x)))
    }
    pub fn in_tx(&self, sid: usize) -> bool {
        self.sess[sid].top != 0
    }

    /// the backend dies: open transaction rolled back, nothing more is sent
    pub fn kill(&mut self, sid: usize, fatal: bool) {
        let mut s = std::mem::take(&mut self.sess[sid]);
        if !s.closed {
            if fatal {
                let e = PgErr { code: "57P01", msg: "terminating connection due to administrator command".into() };
                self.error(&mut s, &e, "FATAL");
            }
            self.finish(&mut s, false);
            s.waiting = None;
            s.inbuf.clear();
            s.closed = true;
        }
        self.sess[sid] = s;
    }

    pub fn step(&mut self, sid: usize) -> Step {
        let mut s = std::mem::take(&mut self.sess[sid]);
        let r = self.step2(sid, &mut s);
        self.sess[sid] = s;
        r
    }
    fn step2(&mut self, sid: usize, s: &mut Session) -> Step {
        if s.closed {
            return Step::Closed;
        }
        if let Some(w) = &s.waiting {
            if w.iter().all(|x| self.db.active(*x)) {
                return Step::Blocked;
            }
            s.waiting = None;
        }
        let (k, n) = match Self::next_msg(s) {
            Some(x) => x,
            None => {
                if s.eof {
                    self.finish(s, false);
                    s.closed = true;
                    return Step::Closed;
                }
                return Step::NeedInput;
            }
        };
        let body: Vec<u8> = s.inbuf[if k == 0 { 4 } else { 5 }..n].to_vec();
        match self.handle(sid, s, k, &body) {
            Ok(()) => {
                s.inbuf.drain(..n.min(s.inbuf.len()));
                if s.closed {
                    Step::Closed
                } else {
                    Step::Progress
                }
            }
            Err(Stop::Wait(w)) => {
                self.waits += 1;
                if self.would_deadlock(s.top, &w) {
                    self.deadlocks += 1;
                    let e = PgErr { code: "40P01", msg: "deadlock detected".into() };
                    self.fail(sid, s, k, &e);
                    s.inbuf.drain(..n);
                    return Step::Progress;
                }
                s.waiting = Some(w);
                Step::Blocked
            }
            Err(Stop::Err(e)) => {
                self.fail(sid, s, k, &e);
                s.inbuf.drain(..n.min(s.inbuf.len()));
                Step::Progress
            }
        }
    }
    fn fail(&mut self, sid: usize, s: &mut Session, k: u8, e: &PgErr) {
        let text = match k {
            b'Q' => match &s.sq {
                Some((v, i)) => v.get(*i).map(|x| x.1.clone()).unwrap_or_default(),
                None => "(unparsed)".into(),
            },
            k => format!("({})", k as char),
        };
        self.log.push(LogEv { sid, text, result: format!("ERROR {} {}", e.code, e.msg), csn: self.db.csn });
        self.error(s, e, "ERROR");
        s.sq = None;
        if k == b'Q' {
            self.ready(s);
        } else {
            s.skip = true;
        }
    }
    fn logged(&mut self, sid: usize, s: &Session, text: &str, r: &Res<Done>) {
        let result = match r {
            Ok(d) => d.2.clone(),
            Err(Stop::Err(_)) | Err(Stop::Wait(_)) => return,
        };
        let _ = s;
        self.log.push(LogEv { sid, text: text.to_string(), result, csn: self.db.csn });
    }

    fn handle(&mut self, sid: usize, s: &mut Session, k: u8, b: &[u8]) -> Res<()> {
        if s.skip && k != b'S' && k != b'X' {
            return Ok(());
        }
        let mut p = 0;
        match k {
            0 => {
                let code = i32at(b, &mut p);
                match code {
                    80877103 | 80877104 => s.out.push(b'N'),
                    80877102 => s.closed = true,
                    196608 => {
                        s.started = true;
                        msg(&mut s.out, b'R', &0u32.to_be_bytes());
                        for (a, v) in [
                            ("server_version", "15.4"),
                            ("server_encoding", "UTF8"),
                            ("client_encoding", "UTF8"),
                            ("DateStyle", "ISO, MDY"),
                            ("integer_datetimes", "on"),
                            ("standard_conforming_strings", "on"),
                            ("TimeZone", "UTC"),
                        ] {
                            let mut m = a.as_bytes().to_vec();
                            m.push(0);
                            m.extend(v.as_bytes());
                            m.push(0);
                            msg(&mut s.out, b'S', &m);
                        }
                        let mut m = (sid as u32 + 1000).to_be_bytes().to_vec();
                        m.extend(1234u32.to_be_bytes());
                        msg(&mut s.out, b'K', &m);
                        self.ready(s);
                    }
                    _ => {
                        s.closed = true;
                    }
                }
                Ok(())
            }
            b'X' => {
                self.finish(s, false);
                s.closed = true;
                Ok(())
            }
            b'Q' => {
                if s.sq.is_none() {
                    let text = cstr(b, &mut p);
                    let v = super::parse::parse_many(&text).or_else(syn)?;
                    s.sq = Some((v, 0));
                }
                loop {
                    let (st, text, last) = {
                        let (v, i) = s.sq.as_ref().unwrap();
                        match v.get(*i) {
                            None => break,
                            Some((a, t)) => (a.clone(), t.clone(), *i + 1 == v.len()),
                        }
                    };
                    let _ = last;
                    if st == Stmt::Empty {
                        s.sq.as_mut().unwrap().1 += 1;
                        continue;
                    }
                    let r = self.exec(s, &st, &[], vec![]);
                    self.logged(sid, s, &text, &r);
                    let (rows, cols, tag) = r?;
                    if let Some(c) = &cols {
                        Self::row_desc(s, c, &[]);
                        for r in &rows {
                            Self::data_row(s, c, r, &[]);
                        }
                    }
                    let mut m = tag.into_bytes();
                    m.push(0);
                    msg(&mut s.out, b'C', &m);
                    s.sq.as_mut().unwrap().1 += 1;
                }
                if s.sq.as_ref().unwrap().0.iter().all(|x| x.0 == Stmt::Empty) {
                    msg(&mut s.out, b'I', &[]);
                }
                s.sq = None;
                if s.implicit {
                    self.finish(s, true);
                }
                self.ready(s);
                Ok(())
            }
            b'P' => {
                let name = cstr(b, &mut p);
                let text = cstr(b, &mut p);
                let n = i16at(b, &mut p);
                let mut params = vec![];
                for _ in 0..n {
                    params.push(i32at(b, &mut p) as Oid);
                }
                let v = super::parse::parse_many(&text).or_else(syn)?;
                let v: Vec<_> = v.into_iter().filter(|x| x.0 != Stmt::Empty).collect();
                if v.len() > 1 {
                    return err("42601", "cannot insert multiple commands into a prepared statement");
                }
                if !name.is_empty() && s.prepared.contains_key(&name) {
                    return err("42P05", format!("prepared statement \"{}\" already exists", name));
                }
                let stmt = v.into_iter().next().map(|x| x.0).unwrap_or(Stmt::Empty);
                if s.tx == TxState::Failed && !matches!(stmt, Stmt::Commit | Stmt::Rollback | Stmt::RollbackTo(_)) {
                    return err("25P02", "current transaction is aborted, commands ignored until end of transaction block");
                }
                let snap = self.db.latest(s.top);
                let (_, cols) = bind_stmt(&self.db, snap, &mut params, &stmt)?;
                s.prepared.insert(name, Prepared { stmt, params, cols, text });
                msg(&mut s.out, b'1', &[]);
                Ok(())
            }
            b'D' => {
                let kind = b[0];
                p = 1;
                let name = cstr(b, &mut p);
                if kind == b'S' {
                    let pr = match s.prepared.get(&name) {
                        Some(x) => x.clone(),
                        None => return err("26000", format!("prepared statement \"{}\" does not exist", name)),
                    };
                    let mut m = (pr.params.len() as u16).to_be_bytes().to_vec();
                    for t in &pr.params {
                        m.extend(t.to_be_bytes());
                    }
                    msg(&mut s.out, b't', &m);
                    match &pr.cols {
                        Some(c) => Self::row_desc(s, c, &[]),
                        None => msg(&mut s.out, b'n', &[]),
                    }
                } else {
                    let po = match s.portals.get(&name) {
                        Some(x) => x.clone(),
                        None => return err("34000", format!("portal \"{}\" does not exist", name)),
                    };
                    match &po.cols {
                        Some(c) => Self::row_desc(s, c, &po.fmts),
                        None => msg(&mut s.out, b'n', &[]),
                    }
                }
                Ok(())
            }
            b'B' => {
                let portal = cstr(b, &mut p);
                let name = cstr(b, &mut p);
                let pr = match s.prepared.get(&name) {
                    Some(x) => x.clone(),
                    None => return err("26000", format!("prepared statement \"{}\" does not exist", name)),
                };
                let nf = i16at(b, &mut p);
                let mut fm = vec![];
                for _ in 0..nf {
                    fm.push(i16at(b, &mut p));
                }
                let np = i16at(b, &mut p) as usize;
                if np != pr.params.len() {
                    return err("08P01", format!("bind message supplies {} parameters, but prepared statement requires {}", np, pr.params.len()));
                }
                let mut params = vec![];
                for k in 0..np {
                    let len = i32at(b, &mut p);
                    if len < 0 {
                        params.push(Val::Null);
                        continue;
                    }
                    let d = &b[p..p + len as usize];
                    p += len as usize;
                    let f = if fm.len() == 1 { fm[0] } else { fm.get(k).copied().unwrap_or(0) };
                    let t = pr.params[k];
                    if f == 1 {
                        match from_binary(d, t) {
                            Some(v) => params.push(v),
                            None => return err("22P03", format!("incorrect binary data format in bind parameter {}", k + 1)),
                        }
                    } else {
                        params.push(input(&String::from_utf8_lossy(d), t)?);
                    }
                }
                let nr = i16at(b, &mut p);
                let mut fmts = vec![];
                for _ in 0..nr {
                    fmts.push(i16at(b, &mut p) as u16);
                }
                s.portals.insert(portal, Portal { stmt: pr.stmt, ptypes: pr.params, params, fmts, cols: pr.cols, text: pr.text, rows: None });
                msg(&mut s.out, b'2', &[]);
                Ok(())
            }
            b'E' => {
                let name = cstr(b, &mut p);
                let max = i32at(b, &mut p);
                let mut po = match s.portals.get(&name) {
                    Some(x) => x.clone(),
                    None => return err("34000", format!("portal \"{}\" does not exist", name)),
                };
                if po.stmt == Stmt::Empty {
                    msg(&mut s.out, b'I', &[]);
                    return Ok(());
                }
                if po.rows.is_none() {
                    let r = self.exec(s, &po.stmt, &po.ptypes, po.params.clone());
                    self.logged(sid, s, &po.text, &r);
                    let (rows, _, tag) = r?;
                    po.rows = Some((rows, 0, tag));
                }
                let (rows, pos, tag) = po.rows.as_mut().unwrap();
                let c = po.cols.clone().unwrap_or_default();
                let end = if max > 0 { rows.len().min(*pos + max as usize) } else { rows.len() };
                for r in &rows[*pos..end] {
                    Self::data_row(s, &c, r, &po.fmts);
                }
                *pos = end;
                if max > 0 && end < rows.len() {
                    msg(&mut s.out, b's', &[]);
                } else {
                    let mut m = tag.clone().into_bytes();
                    m.push(0);
                    msg(&mut s.out, b'C', &m);
                }
                if s.portals.contains_key(&name) {
                    s.portals.insert(name, po);
                }
                Ok(())
            }
            b'C' => {
                p = 1;
                let name = cstr(b, &mut p);
                if b[0] == b'S' {
                    s.prepared.remove(&name);
                } else {
                    s.portals.remove(&name);
                }
                msg(&mut s.out, b'3', &[]);
                Ok(())
            }
            b'S' => {
                s.skip = false;
                if s.implicit {
                    self.finish(s, true);
                }
                self.ready(s);
                Ok(())
            }
            b'H' | b'p' => Ok(()),
            k => {
                s.closed = true;
                err("08P01", format!("invalid frontend message type {}", k))
            }
        }
    }

    /// runs statements directly, one transaction for all; used to set up and to inspect
    pub fn batch(&mut self, stmts: &[String]) -> Result<Vec<Vec<Vec<Val>>>, PgErr> {
        let mut s = Session::default();
        let mut out = vec![];
        self.begin(&mut s);
        s.tx = TxState::Open;
        for t in stmts {
            let v = match super::parse::parse_many(t).or_else(syn) {
                Ok(v) => v,
                Err(Stop::Err(e)) => {
                    self.finish(&mut s, false);
                    return Err(PgErr { code: e.code, msg: format!("{} [{}]", e.msg, t) });
                }
                Err(Stop::Wait(_)) => unreachable!(),
            };
            for (st, text) in v {
                if st == Stmt::Empty {
                    continue;
                }
                match self.exec(&mut s, &st, &[], vec![]) {
                    Ok((rows, _, _)) => out.push(rows),
                    Err(e) => {
                        self.finish(&mut s, false);
                        return Err(match e {
                            Stop::Err(e) => PgErr { code: e.code, msg: format!("{} [{}]", e.msg, text) },
                            Stop::Wait(_) => PgErr { code: "55P03", msg: "blocked".into() },
                        });
                    }
                }
            }
        }
        self.finish(&mut s, true);
        Ok(out)
    }
    pub fn sql(&mut self, t: &str) -> Result<Vec<Vec<Vec<Val>>>, PgErr> {
        self.batch(&[t.to_string()])
    }
}
