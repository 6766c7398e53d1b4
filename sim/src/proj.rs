//! A project in the simulated world, and what its files and its database say.
use crate::disk::Files;
use crate::model::*;
use crate::pg::dump::{self, Dump};
use crate::pg::store::Db;
use crate::tape::{hash, mix, Tape};
use crate::world::*;
use serde_json::Value as Json;
use std::collections::{BTreeMap, BTreeSet};

pub enum Fail {
    /// the property does not hold
    Violation(String),
    /// the situation the property is about could not be set up
    Setup(String),
}
pub type Res<T = ()> = Result<T, Fail>;
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => {
        if !$c { return Err($crate::proj::Fail::Violation(format!($($a)*))); }
    };
}
pub fn setup<T>(r: Result<T, impl std::fmt::Display>) -> Res<T> {
    r.map_err(|e| Fail::Setup(e.to_string()))
}

/// a command that is needed on the way failed though there was no fault: what only concerns the files never may
pub fn stopped(what: &str, o: &Outcome) -> Fail {
    let m = format!("podo {} fails though nothing is wrong: {}", what, o.brief());
    match what.split(' ').next().unwrap_or("") {
        // a clock that was set back may come to the same second again
        "make" if o.err.contains("already exists") => Fail::Setup(m),
        "init" | "stage" | "make" | "reset" => Fail::Violation(m),
        _ => Fail::Setup(m),
    }
}
pub struct Ctx {
    pub w: World,
    /// comparisons that decide something
    pub checks: u64,
    /// simplified variants of a scenario, for thorough runs
    pub deep: bool,
    pub forks: u64,
    pub soft: bool,
}
impl Ctx {
    pub fn new(w: World, deep: bool) -> Ctx {
        Ctx { w, checks: 0, deep, forks: 0, soft: true }
    }
    pub fn t(&mut self) -> &mut Tape {
        &mut self.w.tape
    }
    pub fn draw(&mut self, n: u64) -> u64 {
        self.w.tape.draw(n)
    }
    pub fn chance(&mut self, a: u64, b: u64) -> bool {
        self.w.tape.chance(a, b)
    }
    pub fn with<R>(&mut self, f: impl FnOnce(&mut Tape) -> R) -> R {
        f(&mut self.w.tape)
    }
    pub fn fork(&mut self) -> World {
        self.forks += 1;
        let me = self.w.base.file_name().unwrap().to_string_lossy().to_string();
        // names of the same length keep the traces of a run independent of where it runs
        self.w.fork(&format!("{}-{:03}", me, self.forks % 1000))
    }
    pub fn decided(&mut self) {
        self.checks += 1;
    }
}
impl Drop for Ctx {
    fn drop(&mut self) {
        rm(&self.w.base);
        let me = self.w.base.file_name().unwrap().to_string_lossy().to_string();
        for k in 0..=self.forks.min(999) {
            rm(&self.w.base.parent().unwrap().join(format!("{}-{:03}", me, k)));
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub struct Ver {
    pub name: String,
    pub previous: Option<String>,
    pub changes: Vec<Json>,
    pub up: Vec<String>,
    pub down: Vec<String>,
}
impl Ver {
    pub fn parse(b: &[u8]) -> Result<Ver, String> {
        let v: serde_yaml::Value = serde_yaml::from_slice(b).map_err(|e| e.to_string())?;
        let j = serde_json::to_value(&v).map_err(|e| e.to_string())?;
        let list = |k: &str| -> Result<Vec<String>, String> {
            j[k].as_array().ok_or(format!("no list {}", k))?.iter().map(|s| s.as_str().map(|s| s.to_string()).ok_or(format!("not a string in {}", k))).collect()
        };
        Ok(Ver {
            name: j["name"].as_str().ok_or("no name")?.to_string(),
            previous: j["previous"].as_str().map(|s| s.to_string()),
            changes: j["changes"].as_array().ok_or("no changes")?.clone(),
            up: list("up")?,
            down: list("down")?,
        })
    }
    pub fn empty(&self) -> bool {
        self.changes.is_empty() && self.up.is_empty() && self.down.is_empty()
    }
    pub fn same_content(&self, o: &Ver) -> bool {
        self.changes == o.changes && self.up == o.up && self.down == o.down
    }
}

/// the version files of a history directory as they are
pub fn versions(files: &Files, hist: &str) -> Result<BTreeMap<String, Ver>, String> {
    let pre = format!("{}/", hist);
    let mut out = BTreeMap::new();
    for (p, c) in files {
        if let Some(n) = p.strip_prefix(&pre).and_then(|n| n.strip_suffix(".yaml")) {
            if n.contains('/') {
                continue;
            }
            let v = Ver::parse(c).map_err(|e| format!("{}: {}", p, e))?;
            if v.name != n {
                return Err(format!("{} holds the version {:?}", p, v.name));
            }
            out.insert(n.to_string(), v);
        }
    }
    Ok(out)
}
/// the chain from init to stage; with `lenient`, the state an interrupted make leaves (the new version and the stage
/// with the same predecessor and the same content) counts as the finished make
pub fn chain(files: &Files, hist: &str, lenient: bool) -> Result<Vec<Ver>, String> {
    let mut vs = versions(files, hist)?;
    let init = vs.get("init").ok_or("there is no init version")?.clone();
    if init.previous.is_some() {
        return Err("init has a predecessor".into());
    }
    let stage = vs.get("stage").ok_or("there is no stage")?.clone();
    if lenient {
        let sib: Vec<Ver> = vs.values().filter(|v| v.name != "stage" && v.previous.is_some() && v.previous == stage.previous).cloned().collect();
        if sib.len() == 1 && sib[0].same_content(&stage) {
            vs.insert("stage".into(), Ver { name: "stage".into(), previous: Some(sib[0].name.clone()), changes: vec![], up: vec![], down: vec![] });
        }
    }
    let mut next: BTreeMap<String, String> = BTreeMap::new();
    for v in vs.values() {
        match &v.previous {
            None if v.name != "init" => return Err(format!("{} has no predecessor", v.name)),
            None => {}
            Some(p) => {
                if !vs.contains_key(p) {
                    return Err(format!("{} names the predecessor {}, which does not exist", v.name, p));
                }
                if let Some(o) = next.insert(p.clone(), v.name.clone()) {
                    return Err(format!("{} and {} share the predecessor {}", o, v.name, p));
                }
            }
        }
    }
    let mut out = vec![];
    let mut cur = "init".to_string();
    loop {
        out.push(vs[&cur].clone());
        if out.len() > vs.len() {
            return Err("the versions form a cycle".into());
        }
        match next.get(&cur) {
            Some(n) => cur = n.clone(),
            None => break,
        }
    }
    if cur != "stage" {
        return Err(format!("the chain ends at {}", cur));
    }
    if out.len() != vs.len() {
        return Err(format!("{} of {} versions are on the chain", out.len(), vs.len()));
    }
    Ok(out)
}
/// the chain with the names of versions that did not exist before replaced by NEW1, NEW2, ...
pub fn normal(chain: &[Ver], known: &BTreeSet<String>) -> Vec<Ver> {
    let mut map = BTreeMap::new();
    for v in chain {
        if !known.contains(&v.name) && v.name != "stage" && v.name != "init" {
            let k = map.len() + 1;
            map.insert(v.name.clone(), format!("NEW{}", k));
        }
    }
    chain
        .iter()
        .map(|v| {
            let mut v = v.clone();
            if let Some(n) = map.get(&v.name) {
                v.name = n.clone();
            }
            if let Some(n) = v.previous.as_ref().and_then(|p| map.get(p)) {
                v.previous = Some(n.clone());
            }
            v
        })
        .collect()
}
pub fn names(chain: &[Ver]) -> BTreeSet<String> {
    chain.iter().map(|v| v.name.clone()).collect()
}
pub fn made(chain: &[Ver]) -> Vec<Ver> {
    chain.iter().filter(|v| v.name != "init" && v.name != "stage").cloned().collect()
}

#[derive(Clone, PartialEq, Debug)]
pub struct Row {
    pub name: String,
    pub previous: Option<String>,
    pub changes: Json,
    pub up: Vec<String>,
    pub down: Vec<String>,
}
fn pg_array(s: &str) -> Vec<String> {
    let mut v = vec![];
    let b: Vec<char> = s.trim().chars().collect();
    let mut i = 1;
    while i < b.len() && b[i] != '}' {
        let mut x = String::new();
        if b[i] == '"' {
            i += 1;
            while i < b.len() && b[i] != '"' {
                if b[i] == '\\' {
                    i += 1;
                }
                x.push(b[i]);
                i += 1;
            }
            i += 1;
        } else {
            while i < b.len() && b[i] != ',' && b[i] != '}' {
                x.push(b[i]);
                i += 1;
            }
        }
        v.push(x);
        if i < b.len() && b[i] == ',' {
            i += 1;
        }
    }
    v
}
/// the ledger in the order of application; None if there is none
pub fn ledger(db: &Db, meta: &str) -> Option<Vec<Row>> {
    let all = dump::data(db, &[]);
    let rows = all.get(&format!("{}.version", meta))?;
    let mut v: Vec<(i64, Row)> = rows
        .iter()
        .map(|r| {
            let g = |k: &str| r.get(k).cloned().unwrap_or_default();
            (
                g("applied_order").parse().unwrap_or(0),
                Row {
                    name: g("name"),
                    previous: Some(g("previous")).filter(|p| p != "∅"),
                    changes: serde_json::from_str(&g("changes")).unwrap_or(Json::Null),
                    up: pg_array(&g("up")),
                    down: pg_array(&g("down")),
                },
            )
        })
        .collect();
    v.sort_by_key(|x| x.0);
    Some(v.into_iter().map(|x| x.1).collect())
}
pub fn ledger_names(db: &Db, meta: &str) -> Option<Vec<String>> {
    ledger(db, meta).map(|v| v.into_iter().map(|r| r.name).collect())
}
/// everything in a database: catalog, ledger without the time and number of application, other rows
#[derive(Clone, PartialEq)]
pub struct State {
    pub cat: Dump,
    pub rows: BTreeMap<String, Vec<BTreeMap<String, String>>>,
    pub ledgers: BTreeMap<String, Vec<Row>>,
}
pub fn state(db: &Db, metas: &[&str]) -> State {
    let mut rows = dump::data(db, &[]);
    let mut ledgers = BTreeMap::new();
    for m in metas {
        if let Some(l) = ledger(db, m) {
            ledgers.insert(m.to_string(), l);
            rows.remove(&format!("{}.version", m));
        }
    }
    State { cat: dump::catalog(db, &[]), rows, ledgers }
}
impl State {
    pub fn diff(&self, o: &State) -> String {
        let mut v = dump::diff(&self.cat, &o.cat);
        for (k, l) in &self.ledgers {
            let n = |l: &Vec<Row>| l.iter().map(|r| r.name.clone()).collect::<Vec<_>>();
            match o.ledgers.get(k) {
                None => v.push(format!("- ledger {} with {:?}", k, n(l))),
                Some(x) if x != l => v.push(if n(x) == n(l) { format!("~ content of the ledger {}", k) } else { format!("~ ledger {}: {:?}  =>  {:?}", k, n(l), n(x)) }),
                _ => {}
            }
        }
        for (k, l) in &o.ledgers {
            if !self.ledgers.contains_key(k) {
                v.push(format!("+ ledger {} with {:?}", k, l.iter().map(|r| r.name.clone()).collect::<Vec<_>>()));
            }
        }
        if self.rows != o.rows {
            for (k, r) in &self.rows {
                if o.rows.get(k) != Some(r) {
                    v.push(format!("~ rows of {}: {} => {}", k, show(r), o.rows.get(k).map_or("none".into(), show)));
                }
            }
        }
        few(v)
    }
}
pub fn show(r: &Vec<BTreeMap<String, String>>) -> String {
    format!("{:?}", r)
}
pub fn few(v: Vec<String>) -> String {
    let n = v.len();
    let mut s = v.into_iter().take(8).collect::<Vec<_>>().join("; ");
    if n > 8 {
        s.push_str(&format!("; and {} more", n - 8));
    }
    s
}
pub fn diff_files(a: &Files, b: &Files) -> String {
    let mut v = vec![];
    for (k, x) in a {
        match b.get(k) {
            None => v.push(format!("- {}", k)),
            Some(y) if x != y => v.push(format!("~ {} ({} => {} bytes)", k, x.len(), y.len())),
            _ => {}
        }
    }
    for k in b.keys() {
        if !a.contains_key(k) {
            v.push(format!("+ {}", k));
        }
    }
    few(v)
}
/// whether a name is one podo would take for one of its files
pub fn counts(p: &str) -> bool {
    p.ends_with('/') || p.ends_with(".yaml") || p.ends_with(".podo.yaml")
}
/// the files that mean something to podo: temporary files of interrupted commands aside
pub fn meaningful(f: &Files) -> Files {
    f.iter().filter(|(k, _)| counts(k)).map(|(k, v)| (k.clone(), v.clone())).collect()
}
pub fn under(f: &Files, pre: &str) -> Files {
    let p = format!("{}/", pre);
    f.iter().filter(|(k, _)| k.starts_with(&p)).map(|(k, v)| (k.clone(), v.clone())).collect()
}

#[derive(Clone)]
pub struct Proj {
    /// working directory relative to the root of the world
    pub dir: String,
    pub profile: String,
    /// relative to the root of the world
    pub hist: String,
    pub defs: String,
    pub meta: String,
    pub db: usize,
    pub env: Vec<(String, String)>,
}
fn join(a: &str, b: &str) -> String {
    if a.is_empty() {
        b.to_string()
    } else {
        format!("{}/{}", a, b)
    }
}
pub fn yaml_str(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
pub fn config(profiles: &[(&str, &str, &str, &str, &str)]) -> String {
    let mut s = "profiles:\n".to_string();
    for (n, url, h, d, m) in profiles {
        s.push_str(&format!(
            "  {}:\n    database_url: {}\n    history: {}\n    definitions: {}\n    metadata_schema: {}\n",
            yaml_str(n),
            yaml_str(url),
            yaml_str(h),
            yaml_str(d),
            yaml_str(m)
        ));
    }
    s
}
pub const METAS: &[&str] = &["podo_meta", "PODO_META", "podoxmeta", "podo", "Podo", "Podo Meta", "m\"x"];
impl Proj {
    /// runs init and points the configuration to a simulated database
    pub fn create(c: &mut Ctx, dir: &str, db: usize) -> Res<Proj> {
        let p = Proj {
            dir: dir.into(),
            profile: "database".into(),
            hist: join(dir, "database/history"),
            defs: join(dir, "database/definitions"),
            meta: if c.chance(1, 4) { c.t().pick(METAS).to_string() } else { METAS[0].to_string() },
            db,
            env: vec![],
        };
        if !dir.is_empty() {
            std::fs::create_dir_all(c.w.root.join(dir)).ok();
            c.w.disk.settle();
        }
        let o = p.go(c, &["init"]);
        if !o.ok() {
            return Err(stopped("init", &o));
        }
        let cfg = config(&[("database", &c.w.url(db), "database/history", "database/definitions", &p.meta)]);
        c.w.put(&join(dir, ".podo.yaml"), cfg);
        if c.chance(1, 10) {
            // what lies around in real directories and is none of podo's business
            use std::os::unix::ffi::OsStrExt;
            for k in 0..6 {
                if !c.chance(1, 2) {
                    continue;
                }
                match k {
                    0 => c.w.put(&join(&p.hist, "README.md"), "# history\n"),
                    1 => c.w.put(&join(&p.hist, ".gitkeep"), ""),
                    2 => c.w.put(&join(&p.hist, "archive/old.sql"), "-- old\n"),
                    3 => c.w.put(&join(&p.hist, ".stage.yaml.swp"), "b0VIM"),
                    _ => {
                        let d = c.w.root.join(if k == 4 { &p.hist } else { &p.defs });
                        let _ = std::fs::write(d.join(std::ffi::OsStr::from_bytes(b"caf\xe9.txt")), "latin1");
                        c.w.disk.settle();
                    }
                }
            }
            c.w.stats.count("other files in the directories");
        }
        Ok(p)
    }
    pub fn cmd(&self, c: &mut Ctx, args: &[&str]) -> Cmd {
        let mut a: Vec<String> = args.iter().map(|s| s.to_string()).collect();
        let takes = args.first().map_or(false, |a| *a != "init");
        if takes && (self.profile != "database" || c.chance(1, 8)) {
            a.push("--profile".into());
            a.push(self.profile.clone());
        }
        if matches!(args.first(), Some(&"up" | &"down")) && c.chance(1, 8) {
            // the clock of the machine, which is that of the database server as well, is put right
            let by = *c.t().pick(&[-1_000_000_000i64, -3_600_000_000_000, -86_397_000_000_000, -8_000_000_000_000_000, 3_600_000_000_000]);
            c.w.now += by + c.draw(1000) as i64 * 7_000_000;
            c.w.stats.count("clock set");
        }
        let mut cwd = self.dir.clone();
        if takes && c.chance(1, 10) && c.w.root.join(&self.hist).is_dir() {
            cwd = self.hist.clone();
        }
        Cmd { args: a, cwd, env: self.env.clone(), seed: mix(c.draw(256)), dirseed: c.draw(32), dtunknown: c.chance(1, 8), tz: None }
    }
    pub fn run(&self, c: &mut Ctx, args: &[&str], plan: &Plan) -> Outcome {
        let cmd = self.cmd(c, args);
        run(c, &cmd, plan)
    }
    /// without faults; sometimes under disturbances every command has to cope with
    pub fn go(&self, c: &mut Ctx, args: &[&str]) -> Outcome {
        let cmd = self.cmd(c, args);
        let mut plan = Plan::default();
        if c.soft && c.chance(1, 8) {
            plan.soft = c.with(soft);
        }
        run(c, &cmd, &plan)
    }
    /// like `go`; now and then the stage is a link, or not what everyone may read, and has to stay that
    pub fn go_linked(&self, c: &mut Ctx, args: &[&str]) -> Res<Outcome> {
        use std::os::unix::fs::PermissionsExt;
        let k = c.draw(20);
        // the stage, or another version
        let mut name = "stage".to_string();
        if k == 1 && c.chance(1, 3) {
            let all = self.the_chain(&c.w)?;
            name = all[c.w.tape.idx(all.len())].name.clone();
        }
        let (f, away) = (format!("{}/{}.yaml", self.hist, name), format!("{}.shared/the stage.yaml", self.hist));
        let here = c.w.root.join(&f);
        if k == 1 {
            let text = c.w.get(&f).unwrap_or_default();
            c.w.del(&f);
            c.w.put(&away, text);
            let to = format!("{}{}", "../".repeat(self.hist.matches('/').count() + 1), away);
            std::os::unix::fs::symlink(to, &here).expect("link");
            c.w.note(|| format!("{} is a link to a file elsewhere", name));
        } else if k == 2 {
            let _ = std::fs::set_permissions(&here, std::fs::Permissions::from_mode(0o660));
            c.w.note(|| "the group may write the stage and nobody else read it".into());
        }
        let o = self.go(c, args);
        if k == 1 {
            ensure!(here.is_symlink(), "{} was a link, podo {} made it a file of its own", name, args[0]);
            let text = c.w.get(&f).unwrap_or_default();
            c.w.del(&f);
            c.w.put(&f, text);
            c.w.del(&format!("{}.shared", self.hist));
            c.w.stats.count("linked stages");
        } else if k == 2 {
            let m = std::fs::metadata(&here).map_or(0, |m| m.permissions().mode() & 0o777);
            ensure!(m == 0o660, "podo {} changed the permissions of the stage from 660 to {:o}", args[0], m);
            c.w.stats.count("stages with permissions of their own");
        }
        Ok(o)
    }
    pub fn must(&self, c: &mut Ctx, args: &[&str]) -> Res<Outcome> {
        let o = self.go(c, args);
        if !o.ok() {
            return Err(stopped(&args.join(" "), &o));
        }
        Ok(o)
    }
    pub fn write_defs(&self, c: &mut Ctx, m: &Model, layout: u64) {
        let files = m.render(layout);
        write_defs_to(&mut c.w, &self.defs, &files);
        c.w.note(|| format!("definitions in /{}: {}", self.defs, files.iter().map(|(k, v)| format!("{}:\n{}", k, v)).collect::<Vec<_>>().join("")));
    }
    pub fn chain(&self, w: &World, lenient: bool) -> Result<Vec<Ver>, String> {
        chain(&w.files(), &self.hist, lenient)
    }
    pub fn the_chain(&self, w: &World) -> Res<Vec<Ver>> {
        setup(self.chain(w, true))
    }
    pub fn db<'a>(&self, w: &'a World) -> &'a Db {
        &w.dbs[self.db].srv.db
    }
    pub fn catalog(&self, w: &World) -> Dump {
        dump::catalog(self.db(w), &[&self.meta])
    }
    pub fn ledger(&self, w: &World) -> Option<Vec<Row>> {
        ledger(self.db(w), &self.meta)
    }
    pub fn ledger_names(&self, w: &World) -> Vec<String> {
        ledger_names(self.db(w), &self.meta).unwrap_or_else(|| vec!["init".into()])
    }
    pub fn state(&self, w: &World) -> State {
        state(self.db(w), &[&self.meta])
    }
}
pub fn write_defs_to(w: &mut World, defs: &str, files: &BTreeMap<String, String>) {
    let d = w.root.join(defs);
    if let Ok(rd) = std::fs::read_dir(&d) {
        for e in rd.flatten() {
            if e.path().is_dir() {
                rm(&e.path());
            } else {
                let _ = std::fs::remove_file(e.path());
            }
        }
    }
    // now and then a file or a directory of them lies somewhere else and is linked to
    let away = w.root.join(format!("{}.shared", defs));
    rm(&away);
    let _ = std::fs::create_dir_all(&d);
    let k = mix(files.iter().fold(7, |h, (n, t)| mix(h ^ hash(n.as_bytes())) ^ hash(t.as_bytes())));
    let ups = "../".repeat(defs.matches('/').count() + 1);
    for (i, (n, t)) in files.iter().enumerate() {
        let p = d.join(n);
        let linked = files.len() > 1 && n != "public.yaml" && k % 5 == 0 && (k >> 8) % files.len() as u64 == i as u64;
        let top = n.split('/').next().unwrap();
        let dir = top != n && files.len() > 1 && k % 5 == 1;
        if dir {
            let q = away.join(n);
            let _ = std::fs::create_dir_all(q.parent().unwrap());
            std::fs::write(q, t).expect("write definitions");
            let _ = std::os::unix::fs::symlink(format!("{}{}.shared/{}", ups, defs, top), d.join(top));
            continue;
        }
        let _ = std::fs::create_dir_all(p.parent().unwrap());
        if linked {
            let _ = std::fs::create_dir_all(&away);
            std::fs::write(away.join("it"), t).expect("write definitions");
            let up = "../".repeat(n.matches('/').count());
            let _ = std::os::unix::fs::symlink(format!("{}{}{}.shared/it", up, ups, defs), p);
        } else {
            std::fs::write(p, t).expect("write definitions");
        }
    }
    if away.exists() {
        w.stats.count("definitions behind links");
    }
    w.disk.settle();
}
pub fn run(c: &mut Ctx, cmd: &Cmd, plan: &Plan) -> Outcome {
    c.w.sleep(1_500_000_000);
    let o = c.w.run(cmd, plan);
    seen(c);
    o
}
/// counts the state of the world as reached
pub fn seen(c: &mut Ctx) {
    let mut h = 0;
    for (k, v) in c.w.files() {
        h = mix(h ^ hash(k.as_bytes()) ^ mix(hash(&v)));
    }
    for d in &c.w.dbs {
        h = mix(h ^ d.srv.db.csn);
    }
    c.w.stats.states.insert(h);
}
pub fn soft(t: &mut Tape) -> Soft {
    Soft {
        seed: 1 + t.draw(1 << 20),
        short: t.chance(1, 2),
        eintr: t.chance(1, 2),
        fragment: t.chance(1, 2),
        slow: if t.chance(1, 4) { 10_000_000 } else { 0 },
        jumps: vec![],
    }
}

/// a history under construction
pub struct Hist {
    pub p: Proj,
    /// the made versions with what they define
    pub steps: Vec<(String, Model)>,
    pub staged: Model,
    pub defs: Model,
    pub kinds: BTreeSet<&'static str>,
    /// for each made version, the models staged on the way to it
    pub mids: BTreeMap<String, Vec<Model>>,
    pub mid: Vec<Model>,
    /// the moment at which the clock stands still whenever a version is made
    still: Option<Option<i64>>,
}
/// labels that only a close look tells apart
const ALIKE: &[&str] = &["a_b", "aab", "A_B", "aAb", "a%b", "a%", "a_", "ab", "%", "a b", "a  b"];
pub const LABELS: &[&str] = &["auto", "a", "A", "a_b", "aab", "100%", "100x", "it's", "c:d", "1", "add-users", "v1.0", "with space", "ünï", "x.yaml", "stage", "init", LONGEST];
/// the longest label the ledger has room for
const LONGEST: &str = "üüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüüxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx";
pub fn version_yaml(v: &Ver) -> String {
    serde_yaml::to_string(&serde_json::json!({"name": v.name, "previous": v.previous, "changes": v.changes, "up": v.up, "down": v.down})).unwrap()
}
/// statements users add to a version themselves; they change nothing
const BY_HAND: &[&str] = &["SELECT 1", "SELECT 'it''s: \"by hand\" # 1';", "SELECT 2;\n-- and why", "  SELECT 3 AS \"x\"\n;\n", "SELECT '\\n%s{}$1'", "SELECT\t4\r\n", "SELECT 'a\u{2028}b\u{85}c\u{feff}'", "-- first\nSELECT 5", "\n\nSELECT 6  ", "SELECT 7 -- \u{1F600}", "---\n-- x: y\nSELECT '---\n...\n- a: b'", "SELECT E'tab\\t'", "SELECT 'BIG'"];
const HARMLESS_TWICE: &[&str] = &["SELECT", "  SELECT", "-- first"];
impl Hist {
    /// the user adds statements of their own to the stage
    pub fn by_hand(&mut self, c: &mut Ctx) -> Res {
        let mut st = self.p.the_chain(&c.w)?.last().unwrap().clone();
        let k = c.draw(3);
        for l in [(k != 1).then_some(&mut st.up), (k != 2).then_some(&mut st.down)].into_iter().flatten() {
            let mut s = c.t().pick(BY_HAND).to_string();
            if s.contains("BIG") {
                // longer than any buffer
                s = s.replace("BIG", &"0123456789 abcdef ".repeat(1 + c.w.tape.idx(6000)));
            }
            let at = c.w.tape.idx(l.len() + 1);
            // or something that is there already, once more
            let s = if !l.is_empty() && c.w.tape.chance(1, 6) && HARMLESS_TWICE.iter().any(|x| l[at.min(l.len() - 1)].starts_with(x)) { l[at.min(l.len() - 1)].clone() } else { s };
            if c.w.tape.chance(1, 4) {
                l.insert(at, s.clone());
            }
            l.insert(at, s);
        }
        let f = format!("{}/stage.yaml", self.p.hist);
        c.w.put(&f, version_yaml(&st));
        c.w.stats.count("statements added by hand");
        c.w.note(|| "statements were added to the stage by hand".into());
        Ok(())
    }
    pub fn new(p: Proj) -> Hist {
        Hist { p, steps: vec![], staged: Model::public(), defs: Model::public(), kinds: BTreeSet::new(), mids: BTreeMap::new(), mid: vec![], still: None }
    }
    /// the user changes the definitions
    pub fn edit(&mut self, c: &mut Ctx, n: u64) {
        let first = self.defs == Model::public() && c.chance(2, 5);
        let (m, mut kinds) = if first {
            c.w.stats.count("histories that start with a schema of some size");
            c.with(|t| bulk(t, &self.staged, &self.defs))
        } else {
            (self.defs.clone(), vec![])
        };
        let (m, k) = c.with(|t| mutate(t, &self.staged, &m, if first { n / 2 } else { n }));
        kinds.extend(k);
        for k in &kinds {
            c.w.stats.count(&format!("edit: {}", k));
        }
        self.kinds.extend(kinds);
        self.defs = m;
        let layout = if c.chance(1, 3) { 1 + c.draw(1 << 16) } else { 0 };
        let m = self.defs.clone();
        self.p.write_defs(c, &m, layout);
    }
    pub fn stage(&mut self, c: &mut Ctx) -> Res {
        self.p.must(c, &["stage"])?;
        self.staged = self.defs.clone();
        self.mid.push(self.staged.clone());
        Ok(())
    }
    pub fn label(c: &mut Ctx) -> Option<String> {
        if c.chance(1, 2) {
            Some(c.t().pick(LABELS).to_string())
        } else {
            None
        }
    }
    /// returns the name of the new version, if the stage was not empty
    pub fn make(&mut self, c: &mut Ctx) -> Res<Option<String>> {
        let before = names(&self.p.the_chain(&c.w)?);
        if self.still.is_none() {
            self.still = Some(c.chance(1, 8).then_some(c.w.now));
        }
        let l = match self.still {
            Some(Some(at)) => {
                // all versions of the same second, with names much alike
                c.w.now = at;
                let free: Vec<&&str> = ALIKE.iter().filter(|l| !before.iter().any(|n| n.ends_with(&format!("-{}", l)))).collect();
                if free.is_empty() {
                    self.still = Some(None);
                }
                c.w.stats.count("versions made within a second");
                free.first().map(|_| c.t().pick(&free).to_string())
            }
            _ => Hist::label(c),
        };
        match &l {
            Some(l) => self.p.must(c, &["make", "--version", l])?,
            None => self.p.must(c, &["make"])?,
        };
        let after = self.p.the_chain(&c.w)?;
        let new: Vec<&Ver> = after.iter().filter(|v| !before.contains(&v.name)).collect();
        match new.len() {
            0 => Ok(None),
            1 => {
                let n = new[0].name.clone();
                self.steps.push((n.clone(), self.staged.clone()));
                let mid = std::mem::take(&mut self.mid);
                self.mids.insert(n.clone(), mid);
                Ok(Some(n))
            }
            k => Err(Fail::Setup(format!("make made {} versions", k))),
        }
    }
    /// makes a version of 1 to `stages` stages of up to `edits` edits each
    pub fn version(&mut self, c: &mut Ctx, stages: u64, edits: u64) -> Res {
        c.t().begin();
        for _ in 0..1 + c.draw(stages) {
            let n = 1 + c.draw(edits);
            self.edit(c, n);
            self.stage(c)?;
            if c.chance(1, 12) {
                self.by_hand(c)?;
            }
        }
        self.make(c)?;
        c.t().end();
        Ok(())
    }
    pub fn names(&self) -> Vec<String> {
        self.steps.iter().map(|s| s.0.clone()).collect()
    }
    /// what the database should contain when it is on that version
    pub fn model(&self, name: &str) -> Option<Model> {
        if name == "init" {
            return Some(Model::public());
        }
        self.steps.iter().find(|s| s.0 == name).map(|s| s.1.clone())
    }
    /// the models between two versions, both included, in the order they are passed
    pub fn path(&self, a: &str, b: &str) -> Vec<Model> {
        let mut v = vec![("init".to_string(), Model::public())];
        for (n, m) in &self.steps {
            for x in self.mids.get(n).into_iter().flatten() {
                v.push((String::new(), x.clone()));
            }
            v.push((n.clone(), m.clone()));
        }
        let at = |n: &str| v.iter().position(|x| x.0 == n).unwrap_or(0);
        let (i, j) = (at(a), at(b));
        v[i.min(j)..=i.max(j)].iter().map(|x| x.1.clone()).collect()
    }
    /// a version that needs nothing from the others
    /// adds many versions like the last one, which was made by plain_version, without running podo
    pub fn many(&mut self, c: &mut Ctx, n: usize) -> Res {
        let ch = self.p.the_chain(&c.w)?;
        let (stage, last) = (ch[ch.len() - 1].clone(), ch[ch.len() - 2].clone());
        let old = format!("p{}", self.steps.len() - 1);
        let text = |x: &str, k: usize| x.replace(&format!("\"{}\"", old), &format!("\"q{}\"", k));
        let mut prev = last.name.clone();
        for k in 0..n {
            let mut v = last.clone();
            v.name = format!("{:04}{:02}{:02}_{:06}-h{}", 1990 + c.draw(60), 1 + c.draw(12), 1 + c.draw(28), k, c.draw(9));
            v.previous = Some(prev);
            v.up = v.up.iter().map(|x| text(x, k)).collect();
            v.down = v.down.iter().map(|x| text(x, k)).collect();
            v.changes = v.changes.iter().map(|x| serde_json::from_str(&text(&x.to_string(), k)).unwrap()).collect();
            c.w.put(&format!("{}/{}.yaml", self.p.hist, v.name), version_yaml(&v));
            let mut m = self.defs.clone();
            let t = m.schemas["public"].tables[&old].clone();
            m.schemas.get_mut("public").unwrap().tables.insert(format!("q{}", k), t);
            self.defs = m.clone();
            self.staged = m.clone();
            self.steps.push((v.name.clone(), m));
            prev = v.name;
        }
        let mut s = stage;
        s.previous = Some(prev);
        c.w.put(&format!("{}/stage.yaml", self.p.hist), version_yaml(&s));
        let m = self.defs.clone();
        self.p.write_defs(c, &m, 0);
        c.w.stats.count("long histories");
        Ok(())
    }
    pub fn plain_version(&mut self, c: &mut Ctx, k: usize) -> Res {
        let mut m = self.defs.clone();
        let mut t = Tab::default();
        t.cols.push(Col { name: "id".into(), ty: "int4".into(), notnull: false, default: None });
        m.schemas.entry("public".into()).or_default().tables.insert(format!("p{}", k), t);
        self.defs = m.clone();
        self.p.write_defs(c, &m, 0);
        self.stage(c)?;
        self.make(c)?;
        Ok(())
    }
}

// ---- faults

pub fn mutating(op: &(u32, String, i64)) -> bool {
    matches!(op.0, WRITE | RENAME | UNLINK | MKDIR | FSYNC | TRUNC | RMDIR | LINK) || op.0 == OPEN && op.2 as i32 & (libc::O_CREAT | libc::O_TRUNC | libc::O_WRONLY | libc::O_RDWR) != 0
}
/// a fault of the file system, of the process or of its output somewhere in a run like the one observed
pub fn fs_fault(t: &mut Tape, dry: &Outcome, deadly: bool) -> Option<FsFault> {
    let all: Vec<usize> = (0..dry.ops.len()).filter(|i| !matches!(dry.ops[*i].0, CLOSE)).collect();
    let writing: Vec<usize> = all.iter().copied().filter(|i| mutating(&dry.ops[*i])).collect();
    let pool = if !writing.is_empty() && t.draw(3) < 2 { &writing } else { &all };
    if pool.is_empty() {
        return None;
    }
    let at = pool[t.idx(pool.len())];
    let (op, _, a) = &dry.ops[at];
    let mut w: Vec<(What, bool)> = vec![];
    let e = |x: i32| (What::Errno(x), false);
    match *op {
        OPEN => {
            w.extend([e(libc::EIO), e(libc::EACCES), e(libc::EMFILE), e(libc::ENFILE)]);
            if *a as i32 & libc::O_CREAT != 0 {
                w.extend([(What::Errno(libc::ENOSPC), true), (What::Errno(libc::EDQUOT), true), e(libc::EROFS)]);
            }
        }
        READ => w.extend([e(libc::EIO)]),
        WRITE => {
            let k = t.draw(200);
            w.extend([(What::Errno(libc::ENOSPC), true), e(libc::EIO), (What::Errno(libc::EDQUOT), true), (What::ShortCrash(k), false), (What::Short(0), false)]);
        }
        RENAME | LINK => w.extend([e(libc::EIO), e(libc::EACCES), e(libc::ENOSPC)]),
        UNLINK | RMDIR => w.extend([e(libc::EIO), e(libc::EACCES)]),
        MKDIR => w.extend([(What::Errno(libc::ENOSPC), true), e(libc::EACCES), e(libc::EIO)]),
        FSYNC | TRUNC => w.extend([e(libc::EIO), e(libc::ENOSPC)]),
        OPENDIR => {
            let k = t.draw(4) as i64;
            w.extend([e(libc::EIO), e(libc::EACCES), e(libc::EMFILE), (What::DirErr(libc::EIO, k), false)]);
        }
        STAT => w.extend([e(libc::EIO), e(libc::EACCES)]),
        OUT => w.extend([(What::Errno(libc::EPIPE), true), (What::Errno(libc::ENOSPC), true), (What::Errno(libc::EIO), true)]),
        _ => {}
    }
    if deadly || w.is_empty() {
        w.extend([(What::Crash, false), (What::Power, false)]);
        if What::CrashAfter.fits(*op) {
            w.extend([(What::CrashAfter, false), (What::PowerAfter, false)]);
        }
    }
    if !deadly {
        w.retain(|x| !x.0.kills());
    }
    w.retain(|x| x.0.fits(*op));
    if w.is_empty() {
        return None;
    }
    let (what, mut sticky) = w[t.idx(w.len())].clone();
    if matches!(what, What::Errno(_)) && mutating(&dry.ops[at]) && t.chance(1, 4) {
        // and it stays that way
        sticky = true;
    }
    Some(FsFault { at: at as u64, what, sticky })
}
pub const CODES: &[&str] = &["40001", "53100", "57014", "55P03", "40P01", "XX000"];
/// a fault of the connection or the server
pub fn db_fault(t: &mut Tape, dry: &Outcome) -> Option<DbFault> {
    let n = dry.msgs.len();
    if n == 0 {
        return Some(DbFault::Refuse);
    }
    // the last messages are where a transaction ends
    let end = dry.msgs.iter().rposition(|m| m.1.contains("COMMIT"));
    let at = match (t.draw(6), end) {
        (0, Some(e)) => e,
        (1, _) | (2, _) => n - 1 - t.idx(n.min(6)),
        _ => t.idx(n),
    } as u64;
    Some(match t.draw(9) {
        0 => DbFault::Drop { at, after: false },
        1 => DbFault::Drop { at, after: true },
        2 | 3 => DbFault::Inject { at, code: *t.pick(CODES) },
        4 => DbFault::Crash { at, after: false },
        5 => DbFault::Crash { at, after: true },
        6 => DbFault::Fatal { at },
        7 => DbFault::Stall { at, ns: 30_000_000_000 },
        _ => DbFault::Refuse,
    })
}
/// one or two faults for a command that ran like `dry`
pub fn faults(t: &mut Tape, dry: &Outcome, fs: bool, db: bool) -> Plan {
    let mut p = Plan::default();
    let talks = dry.ops.iter().any(|o| o.0 == CONNECT);
    for _ in 0..1 + t.draw(4) / 3 {
        t.begin();
        let use_db = db && talks && (!fs || t.chance(1, 2));
        if use_db {
            p.db.extend(db_fault(t, dry));
        } else if fs {
            p.fs.extend(fs_fault(t, dry, true));
        }
        t.end();
    }
    if t.chance(1, 4) {
        p.soft = soft(t);
        // the positions of operations must stay meaningful
        p.soft.short = false;
        p.soft.eintr = false;
    }
    p
}
/// what the command would do without faults, and the world after that
pub fn dry(c: &mut Ctx, cmd: &Cmd) -> (Outcome, World) {
    let mut w = c.fork();
    w.sleep(1_500_000_000);
    let o = w.run(cmd, &Plan::default());
    let s = std::mem::take(&mut w.stats);
    c.w.stats.commands += s.commands;
    c.w.stats.ops += s.ops;
    c.w.stats.msgs += s.msgs;
    (o, w)
}
