//! Multi-version storage, transactions, locks and the system catalogs.
use super::types::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub type Xid = usize;
pub type Row = Rc<Vec<Val>>;

#[derive(Clone, Debug)]
pub struct PgErr {
    pub code: &'static str,
    pub msg: String,
}
pub fn err<T>(code: &'static str, msg: impl Into<String>) -> Result<T, Stop> {
    Err(Stop::Err(PgErr { code, msg: msg.into() }))
}
/// why a statement did not finish
#[derive(Clone, Debug)]
pub enum Stop {
    Err(PgErr),
    /// must wait until one of these transactions ends, then start over
    Wait(Vec<Xid>),
}
impl From<(&'static str, String)> for Stop {
    fn from(e: (&'static str, String)) -> Stop {
        Stop::Err(PgErr { code: e.0, msg: e.1 })
    }
}
pub type Res<T> = Result<T, Stop>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum XState {
    Active,
    Committed(u64),
    Aborted,
}
#[derive(Clone, Debug)]
pub struct XRec {
    pub state: XState,
    pub top: Xid,
}
#[derive(Clone, Debug)]
pub struct Tuple {
    pub xmin: Xid,
    pub xmax: Xid,
    /// row locks: (transaction, strength) with strength 1 key share, 2 share, 3 update
    pub lockers: Vec<(Xid, u8)>,
    pub row: Row,
}
#[derive(Clone, Debug, Default)]
pub struct Heap {
    pub tuples: Vec<Tuple>,
}
#[derive(Clone, Copy, Debug)]
pub struct Snap {
    pub csn: u64,
    pub top: Xid,
}
#[derive(Clone, Debug)]
pub struct LockRec {
    pub class: u32,
    pub obj: u64,
    pub mode: u8,
    pub xid: Xid,
}
#[derive(Clone, Debug)]
pub struct SeqState {
    pub last: i64,
    pub called: bool,
}

pub const C_CLASS: Oid = 1259;
pub const C_ATTR: Oid = 1249;
pub const C_TYPE: Oid = 1247;
pub const C_PROC: Oid = 1255;
pub const C_NS: Oid = 2615;
pub const C_CON: Oid = 2606;
pub const C_DEF: Oid = 2604;
pub const C_DEP: Oid = 2608;
pub const C_INDEX: Oid = 2610;
pub const C_AM: Oid = 2601;
pub const C_LANG: Oid = 2612;
pub const C_SEQ: Oid = 2224;
pub const C_TRIGGER: Oid = 2620;
pub const C_REWRITE: Oid = 2618;
pub const C_DESC: Oid = 2609;
pub const C_ROLES: Oid = 1260;

pub struct CatDef {
    pub oid: Oid,
    pub name: &'static str,
    pub cols: &'static [(&'static str, Oid)],
}
pub const CATALOGS: &[CatDef] = &[
    CatDef { oid: C_NS, name: "pg_namespace", cols: &[("oid", OID), ("nspname", NAME), ("nspowner", OID)] },
    CatDef {
        oid: C_CLASS,
        name: "pg_class",
        cols: &[
            ("oid", OID),
            ("relname", NAME),
            ("relnamespace", OID),
            ("reltype", OID),
            ("reloftype", OID),
            ("relowner", OID),
            ("relam", OID),
            ("relkind", CHAR),
            ("relnatts", INT2),
            ("relispartition", BOOL),
            ("reloptions", 1009),
            ("relhasindex", BOOL),
            ("relpersistence", CHAR),
        ],
    },
    CatDef {
        oid: C_ATTR,
        name: "pg_attribute",
        cols: &[
            ("attrelid", OID),
            ("attname", NAME),
            ("atttypid", OID),
            ("attnum", INT2),
            ("atttypmod", INT4),
            ("attnotnull", BOOL),
            ("atthasdef", BOOL),
            ("attisdropped", BOOL),
            ("attgenerated", CHAR),
            ("attidentity", CHAR),
            ("attndims", INT4),
            ("attcollation", OID),
        ],
    },
    CatDef {
        oid: C_TYPE,
        name: "pg_type",
        cols: &[
            ("oid", OID),
            ("typname", NAME),
            ("typnamespace", OID),
            ("typowner", OID),
            ("typtype", CHAR),
            ("typelem", OID),
            ("typarray", OID),
            ("typnotnull", BOOL),
            ("typbasetype", OID),
            ("typtypmod", INT4),
            ("typcategory", CHAR),
            ("typrelid", OID),
            ("typcollation", OID),
            ("typlen", INT2),
        ],
    },
    CatDef { oid: C_DEF, name: "pg_attrdef", cols: &[("oid", OID), ("adrelid", OID), ("adnum", INT2), ("adbin", NODETREE)] },
    CatDef {
        oid: C_CON,
        name: "pg_constraint",
        cols: &[
            ("oid", OID),
            ("conname", NAME),
            ("connamespace", OID),
            ("contype", CHAR),
            ("condeferrable", BOOL),
            ("condeferred", BOOL),
            ("convalidated", BOOL),
            ("conrelid", OID),
            ("contypid", OID),
            ("conindid", OID),
            ("confrelid", OID),
            ("confupdtype", CHAR),
            ("confdeltype", CHAR),
            ("confmatchtype", CHAR),
            ("conislocal", BOOL),
            ("conparentid", OID),
            ("conkey", 1005),
            ("confkey", 1005),
            ("conbin", NODETREE),
        ],
    },
    CatDef {
        oid: C_DEP,
        name: "pg_depend",
        cols: &[("classid", OID), ("objid", OID), ("objsubid", INT4), ("refclassid", OID), ("refobjid", OID), ("refobjsubid", INT4), ("deptype", CHAR)],
    },
    CatDef {
        oid: C_INDEX,
        name: "pg_index",
        cols: &[
            ("indexrelid", OID),
            ("indrelid", OID),
            ("indnatts", INT2),
            ("indnkeyatts", INT2),
            ("indisunique", BOOL),
            ("indisprimary", BOOL),
            ("indisexclusion", BOOL),
            ("indisvalid", BOOL),
            ("indkey", INT2VECTOR),
            ("indoption", INT2VECTOR),
            ("indexprs", NODETREE),
            ("indpred", NODETREE),
        ],
    },
    CatDef { oid: C_AM, name: "pg_am", cols: &[("oid", OID), ("amname", NAME), ("amtype", CHAR)] },
    CatDef {
        oid: C_PROC,
        name: "pg_proc",
        cols: &[
            ("oid", OID),
            ("proname", NAME),
            ("pronamespace", OID),
            ("proowner", OID),
            ("prolang", OID),
            ("prokind", CHAR),
            ("proretset", BOOL),
            ("provolatile", CHAR),
            ("proisstrict", BOOL),
            ("pronargs", INT2),
            ("prorettype", OID),
            ("proargtypes", 1028),
            ("proargnames", 1009),
            ("prosrc", TEXT),
            ("pronargdefaults", INT2),
            ("proargdefaults", NODETREE),
        ],
    },
    CatDef { oid: C_LANG, name: "pg_language", cols: &[("oid", OID), ("lanname", NAME)] },
    CatDef {
        oid: C_SEQ,
        name: "pg_sequence",
        cols: &[
            ("seqrelid", OID),
            ("seqtypid", OID),
            ("seqstart", INT8),
            ("seqincrement", INT8),
            ("seqmax", INT8),
            ("seqmin", INT8),
            ("seqcache", INT8),
            ("seqcycle", BOOL),
        ],
    },
    CatDef { oid: C_TRIGGER, name: "pg_trigger", cols: &[("oid", OID), ("tgrelid", OID), ("tgname", NAME), ("tgtype", INT2), ("tgisinternal", BOOL)] },
    CatDef { oid: C_REWRITE, name: "pg_rewrite", cols: &[("oid", OID), ("rulename", NAME), ("ev_class", OID), ("ev_action", NODETREE)] },
    CatDef { oid: C_DESC, name: "pg_description", cols: &[("objoid", OID), ("classoid", OID), ("objsubid", INT4), ("description", TEXT)] },
    CatDef { oid: C_ROLES, name: "pg_roles", cols: &[("oid", OID), ("rolname", NAME)] },
];
pub fn cat(oid: Oid) -> &'static CatDef {
    CATALOGS.iter().find(|c| c.oid == oid).unwrap()
}
pub fn ccol(c: Oid, name: &str) -> usize {
    cat(c).cols.iter().position(|x| x.0 == name).unwrap_or_else(|| panic!("no catalog column {}", name))
}

pub const NS_CATALOG: Oid = 11;
pub const NS_INFO: Oid = 13000;
pub const NS_PUBLIC: Oid = 2200;
pub const OWNER: Oid = 10;
pub const AM_BTREE: Oid = 403;
pub const AM_HASH: Oid = 405;
pub const AM_GIST: Oid = 783;
pub const AM_GIN: Oid = 2742;
pub const AM_SPGIST: Oid = 4000;
pub const AM_BRIN: Oid = 3580;
pub const AM_HEAP: Oid = 2;
pub const CHARACTER_DATA: Oid = 13010;

#[derive(Clone)]
pub struct Db {
    pub xacts: Vec<XRec>,
    pub heaps: BTreeMap<Oid, Heap>,
    pub next_oid: Oid,
    pub csn: u64,
    pub locks: Vec<LockRec>,
    pub seqs: BTreeMap<Oid, SeqState>,
    /// microseconds since 2000-01-01
    pub now: i64,
    /// statistics for evidence: catalog states reached
    pub commits: u64,
    /// decides the order of rows where the query leaves it open; 0 is the physical order
    pub order: u64,
}

const CONFLICT: [u16; 9] = [
    0,
    1 << 8,
    (1 << 7) | (1 << 8),
    (1 << 5) | (1 << 6) | (1 << 7) | (1 << 8),
    (1 << 4) | (1 << 5) | (1 << 6) | (1 << 7) | (1 << 8),
    (1 << 3) | (1 << 4) | (1 << 6) | (1 << 7) | (1 << 8),
    (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 7) | (1 << 8),
    (1 << 2) | (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 7) | (1 << 8),
    (1 << 1) | (1 << 2) | (1 << 3) | (1 << 4) | (1 << 5) | (1 << 6) | (1 << 7) | (1 << 8),
];

impl Db {
    /// a fresh database, as initdb leaves it: the public schema exists
    pub fn new() -> Db {
        let mut d = Db {
            xacts: vec![XRec { state: XState::Aborted, top: 0 }, XRec { state: XState::Committed(1), top: 1 }],
            heaps: BTreeMap::new(),
            next_oid: 16384,
            csn: 1,
            locks: vec![],
            seqs: BTreeMap::new(),
            now: 0,
            order: 0,
            commits: 0,
        };
        for c in CATALOGS {
            d.heaps.insert(c.oid, Heap::default());
        }
        let mut put = |c: Oid, v: Vec<(&str, Val)>| {
            d.cat_put(1, c, v);
        };
        for (o, n) in [(NS_CATALOG, "pg_catalog"), (NS_INFO, "information_schema"), (NS_PUBLIC, "public")] {
            put(C_NS, vec![("oid", Val::Int(o as i64)), ("nspname", Val::t(n)), ("nspowner", Val::Int(OWNER as i64))]);
        }
        for (o, n) in [(AM_HEAP, "heap"), (AM_BTREE, "btree"), (AM_HASH, "hash"), (AM_GIST, "gist"), (AM_GIN, "gin"), (AM_SPGIST, "spgist"), (AM_BRIN, "brin")] {
            put(C_AM, vec![("oid", Val::Int(o as i64)), ("amname", Val::t(n)), ("amtype", Val::t(if o == AM_HEAP { "t" } else { "i" }))]);
        }
        for (o, n) in [(12, "internal"), (13, "c"), (14, "sql"), (13500, "plpgsql")] {
            put(C_LANG, vec![("oid", Val::Int(o)), ("lanname", Val::t(n))]);
        }
        put(C_ROLES, vec![("oid", Val::Int(OWNER as i64)), ("rolname", Val::t("postgres"))]);
        let mut types: Vec<(Oid, String, Oid, Oid)> = vec![];
        for t in TYPES {
            let el = match t.0 {
                NAME => CHAR,
                INT2VECTOR => INT2,
                _ => 0,
            };
            types.push((t.0, t.1.to_string(), el, t.2));
            if t.2 != 0 {
                types.push((t.2, format!("_{}", t.1), t.0, 0));
            }
        }
        for (o, n, el, ar) in types {
            put(
                C_TYPE,
                vec![
                    ("oid", Val::Int(o as i64)),
                    ("typname", Val::t(&n)),
                    ("typnamespace", Val::Int(NS_CATALOG as i64)),
                    ("typowner", Val::Int(OWNER as i64)),
                    ("typtype", Val::t(if [VOID, TRIGGER, RECORD, UNKNOWN].contains(&o) { "p" } else { "b" })),
                    ("typelem", Val::Int(el as i64)),
                    ("typlen", Val::Int(type_len(o))),
                    ("typarray", Val::Int(ar as i64)),
                    ("typtypmod", Val::Int(-1)),
                    ("typcategory", Val::t(&category(o).to_string())),
                ],
            );
        }
        put(
            C_TYPE,
            vec![
                ("oid", Val::Int(CHARACTER_DATA as i64)),
                ("typname", Val::t("character_data")),
                ("typnamespace", Val::Int(NS_INFO as i64)),
                ("typowner", Val::Int(OWNER as i64)),
                ("typtype", Val::t("d")),
                ("typbasetype", Val::Int(VARCHAR as i64)),
                ("typtypmod", Val::Int(-1)),
            ],
        );
        for c in CATALOGS {
            put(
                C_CLASS,
                vec![
                    ("oid", Val::Int(c.oid as i64)),
                    ("relname", Val::t(c.name)),
                    ("relnamespace", Val::Int(NS_CATALOG as i64)),
                    ("relowner", Val::Int(OWNER as i64)),
                    ("relam", Val::Int(AM_HEAP as i64)),
                    ("relkind", Val::t("r")),
                    ("relnatts", Val::Int(c.cols.len() as i64)),
                    ("relpersistence", Val::t("p")),
                ],
            );
            for (i, (n, t)) in c.cols.iter().enumerate() {
                put(
                    C_ATTR,
                    vec![
                        ("attrelid", Val::Int(c.oid as i64)),
                        ("attname", Val::t(n)),
                        ("atttypid", Val::Int(*t as i64)),
                        ("attnum", Val::Int(i as i64 + 1)),
                        ("atttypmod", Val::Int(-1)),
                        ("attnotnull", Val::Bool(true)),
                    ],
                );
            }
        }
        d
    }

    pub fn new_oid(&mut self) -> Oid {
        self.next_oid += 1;
        self.next_oid
    }

    // ---- transactions
    pub fn begin(&mut self) -> Xid {
        let x = self.xacts.len();
        self.xacts.push(XRec { state: XState::Active, top: x });
        x
    }
    pub fn sub(&mut self, top: Xid) -> Xid {
        let x = self.xacts.len();
        self.xacts.push(XRec { state: XState::Active, top });
        x
    }
    pub fn abort_sub(&mut self, x: Xid) {
        self.xacts[x].state = XState::Aborted;
    }
    pub fn end(&mut self, top: Xid, commit: bool) {
        if commit {
            self.csn += 1;
            self.commits += 1;
        }
        let csn = self.csn;
        for r in self.xacts.iter_mut().skip(top) {
            if r.top == top && r.state == XState::Active {
                r.state = if commit { XState::Committed(csn) } else { XState::Aborted };
            }
        }
        self.locks.retain(|l| l.xid != top);
    }
    pub fn active(&self, x: Xid) -> bool {
        self.xacts[x].state == XState::Active
    }
    pub fn top(&self, x: Xid) -> Xid {
        self.xacts[x].top
    }
    pub fn latest(&self, top: Xid) -> Snap {
        Snap { csn: self.csn, top }
    }
    fn seen(&self, x: Xid, s: Snap) -> bool {
        if x == 0 {
            return false;
        }
        let r = &self.xacts[x];
        match r.state {
            XState::Aborted => false,
            XState::Active => r.top == s.top,
            XState::Committed(c) => c <= s.csn || r.top == s.top,
        }
    }
    pub fn visible(&self, t: &Tuple, s: Snap) -> bool {
        self.seen(t.xmin, s) && !self.seen(t.xmax, s)
    }
    pub fn scan(&self, heap: Oid, s: Snap) -> Vec<(usize, Row)> {
        match self.heaps.get(&heap) {
            None => vec![],
            Some(h) => h.tuples.iter().enumerate().filter(|(_, t)| self.visible(t, s)).map(|(i, t)| (i, t.row.clone())).collect(),
        }
    }
    pub fn insert(&mut self, heap: Oid, x: Xid, row: Vec<Val>) -> usize {
        let h = self.heaps.entry(heap).or_default();
        h.tuples.push(Tuple { xmin: x, xmax: 0, lockers: vec![], row: Rc::new(row) });
        h.tuples.len() - 1
    }
    /// may this transaction delete or update the tuple (strength 3) or lock it?
    pub fn tuple_conflict(&self, heap: Oid, i: usize, top: Xid, strength: u8) -> Res<()> {
        let t = &self.heaps[&heap].tuples[i];
        if t.xmax != 0 && self.active(t.xmax) && self.top(t.xmax) != top {
            return Err(Stop::Wait(vec![self.top(t.xmax)]));
        }
        let w: Vec<Xid> = t.lockers.iter().filter(|(x, s)| *x != top && self.active(*x) && (strength + *s >= 4)).map(|(x, _)| *x).collect();
        if !w.is_empty() {
            return Err(Stop::Wait(w));
        }
        Ok(())
    }
    /// Err(Wait) or Ok(false) if someone else's committed change got there first
    pub fn delete(&mut self, heap: Oid, i: usize, x: Xid) -> Res<bool> {
        let top = self.top(x);
        self.tuple_conflict(heap, i, top, 3)?;
        let t = &self.heaps[&heap].tuples[i];
        if t.xmax != 0 && self.xacts[t.xmax].state != XState::Aborted {
            return Ok(false);
        }
        self.heaps.get_mut(&heap).unwrap().tuples[i].xmax = x;
        Ok(true)
    }
    pub fn lock_tuple(&mut self, heap: Oid, i: usize, top: Xid, strength: u8) -> Res<bool> {
        self.tuple_conflict(heap, i, top, strength)?;
        let t = &self.heaps[&heap].tuples[i];
        if t.xmax != 0 && self.xacts[t.xmax].state != XState::Aborted && self.top(t.xmax) != top {
            return Ok(false);
        }
        let t = &mut self.heaps.get_mut(&heap).unwrap().tuples[i];
        if !t.lockers.contains(&(top, strength)) {
            t.lockers.push((top, strength));
        }
        Ok(true)
    }

    // ---- locks
    pub fn lock(&mut self, top: Xid, class: u32, obj: u64, mode: u8) -> Res<()> {
        let mut w: Vec<Xid> = vec![];
        for l in &self.locks {
            if l.class == class && l.obj == obj && l.xid != top && CONFLICT[mode as usize] & (1 << l.mode) != 0 && !w.contains(&l.xid) {
                w.push(l.xid);
            }
        }
        if !w.is_empty() {
            return Err(Stop::Wait(w));
        }
        if !self.locks.iter().any(|l| l.class == class && l.obj == obj && l.xid == top && l.mode == mode) {
            self.locks.push(LockRec { class, obj, mode, xid: top });
        }
        Ok(())
    }
    pub fn lock_rel(&mut self, top: Xid, rel: Oid, mode: u8) -> Res<()> {
        self.lock(top, 0, rel as u64, mode)
    }

    // ---- catalog helpers
    pub fn cat_put(&mut self, x: Xid, c: Oid, v: Vec<(&str, Val)>) {
        let def = cat(c);
        let mut row: Vec<Val> = def
            .cols
            .iter()
            .map(|(_, t)| match *t {
                OID => Val::Int(0),
                BOOL => Val::Bool(false),
                CHAR => Val::t(""),
                INT2 | INT4 | INT8 => Val::Int(0),
                _ => Val::Null,
            })
            .collect();
        for (n, x) in v {
            row[ccol(c, n)] = x;
        }
        self.insert(c, x, row);
    }
    pub fn cat_rows(&self, c: Oid, s: Snap) -> Vec<(usize, Row)> {
        self.scan(c, s)
    }
    /// rows of a catalog whose columns have the given values
    pub fn cat_find(&self, c: Oid, s: Snap, keys: &[(&str, Val)]) -> Vec<(usize, Row)> {
        let ks: Vec<(usize, &Val)> = keys.iter().map(|(n, v)| (ccol(c, n), v)).collect();
        match self.heaps.get(&c) {
            None => vec![],
            Some(h) => h
                .tuples
                .iter()
                .enumerate()
                .filter(|(_, t)| ks.iter().all(|(i, v)| compare(&t.row[*i], v) == std::cmp::Ordering::Equal) && self.visible(t, s))
                .map(|(i, t)| (i, t.row.clone()))
                .collect(),
        }
    }
    pub fn cat_del(&mut self, x: Xid, c: Oid, i: usize) -> Res<()> {
        if !self.delete(c, i, x)? {
            return err("XX000", "tuple concurrently updated");
        }
        Ok(())
    }
    pub fn cat_upd(&mut self, x: Xid, c: Oid, i: usize, v: Vec<(&str, Val)>) -> Res<()> {
        let mut row = (*self.heaps[&c].tuples[i].row).clone();
        self.cat_del(x, c, i)?;
        for (n, val) in v {
            row[ccol(c, n)] = val;
        }
        self.insert(c, x, row);
        Ok(())
    }
    /// waits for other transactions' uncommitted rows with the same key; true if a live row has it
    pub fn cat_unique(&self, c: Oid, top: Xid, keys: &[(&str, Val)]) -> Res<bool> {
        let ks: Vec<(usize, &Val)> = keys.iter().map(|(n, v)| (ccol(c, n), v)).collect();
        let mut wait = vec![];
        let mut found = false;
        for t in &self.heaps[&c].tuples {
            if !ks.iter().all(|(i, v)| compare(&t.row[*i], v) == std::cmp::Ordering::Equal) {
                continue;
            }
            match self.key_state(t, top) {
                KeyState::Live => found = true,
                KeyState::Dead => {}
                KeyState::Wait(x) => wait.push(x),
            }
        }
        if found {
            return Ok(true);
        }
        if !wait.is_empty() {
            return Err(Stop::Wait(wait));
        }
        Ok(false)
    }
    pub fn key_state(&self, t: &Tuple, top: Xid) -> KeyState {
        match self.xacts[t.xmin].state {
            XState::Aborted => return KeyState::Dead,
            XState::Active if self.top(t.xmin) != top => return KeyState::Wait(self.top(t.xmin)),
            _ => {}
        }
        if t.xmax == 0 {
            return KeyState::Live;
        }
        match self.xacts[t.xmax].state {
            XState::Aborted => KeyState::Live,
            XState::Active if self.top(t.xmax) != top => KeyState::Wait(self.top(t.xmax)),
            _ => KeyState::Dead,
        }
    }
}
pub enum KeyState {
    Live,
    Dead,
    Wait(Xid),
}
