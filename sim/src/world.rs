//! The simulated machine: real podo processes, simulated PostgreSQL servers, a disk, clocks, and the scheduler.
//! Exactly one process runs at a time, from one verdict to its next request.
use crate::disk::{scan, Disk, Files};
use crate::pg::store::{Db, PgErr};
use crate::pg::wire::{Server, Step};
use crate::tape::{mix, Tape};
use std::collections::{BTreeMap, BTreeSet};
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::net::{UnixListener, UnixStream};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};

pub const OPEN: u32 = 1;
pub const READ: u32 = 2;
pub const WRITE: u32 = 3;
pub const CLOSE: u32 = 4;
pub const RENAME: u32 = 5;
pub const UNLINK: u32 = 6;
pub const MKDIR: u32 = 7;
pub const FSYNC: u32 = 8;
pub const TRUNC: u32 = 9;
pub const OPENDIR: u32 = 10;
pub const CONNECT: u32 = 11;
pub const BLOCK: u32 = 12;
pub const OUT: u32 = 13;
pub const STAT: u32 = 14;
pub const RMDIR: u32 = 15;
pub const LINK: u32 = 16;
const START: u32 = 18;
pub fn opname(op: u32) -> &'static str {
    ["?", "open", "read", "write", "close", "rename", "unlink", "mkdir", "fsync", "truncate", "opendir", "connect", "block", "print", "stat", "rmdir", "link", "copy", "start", "unsupported"]
        .get(op as usize)
        .copied()
        .unwrap_or("?")
}

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Errno(i32),
    Short(u64),
    Crash,
    CrashAfter,
    ShortCrash(u64),
    Power,
    PowerAfter,
    DirErr(i32, i64),
}
impl What {
    pub fn fits(&self, op: u32) -> bool {
        match self {
            What::Errno(_) => !matches!(op, BLOCK | CLOSE | START | 19),
            What::Short(_) => matches!(op, READ | WRITE | OUT),
            What::ShortCrash(_) => op == WRITE,
            What::DirErr(..) => op == OPENDIR,
            What::CrashAfter | What::PowerAfter => matches!(op, OPEN | WRITE | RENAME | UNLINK | MKDIR | FSYNC | TRUNC | OUT | RMDIR | LINK),
            What::Crash | What::Power => op != START,
        }
    }
    pub fn name(&self) -> String {
        match self {
            What::Errno(e) => errname(*e).to_string(),
            What::Short(_) => "short".into(),
            What::Crash => "crash".into(),
            What::CrashAfter => "crash-after".into(),
            What::ShortCrash(_) => "torn-write".into(),
            What::Power => "power-loss".into(),
            What::PowerAfter => "power-loss-after".into(),
            What::DirErr(e, _) => format!("readdir-{}", errname(*e)),
        }
    }
    pub fn kills(&self) -> bool {
        matches!(self, What::Crash | What::CrashAfter | What::ShortCrash(_) | What::Power | What::PowerAfter)
    }
}
pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::ENOSPC => "ENOSPC",
        libc::EDQUOT => "EDQUOT",
        libc::EACCES => "EACCES",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::EROFS => "EROFS",
        libc::EPIPE => "EPIPE",
        libc::EINTR => "EINTR",
        libc::ECONNREFUSED => "ECONNREFUSED",
        libc::ENOENT => "ENOENT",
        libc::EAGAIN => "EAGAIN",
        _ => "errno",
    }
}
#[derive(Clone, Debug)]
pub struct FsFault {
    pub at: u64,
    pub what: What,
    /// goes on failing for the same kind of operation
    pub sticky: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum DbFault {
    Refuse,
    Drop { at: u64, after: bool },
    Inject { at: u64, code: &'static str },
    Crash { at: u64, after: bool },
    Fatal { at: u64 },
    Stall { at: u64, ns: i64 },
}
impl DbFault {
    pub fn name(&self) -> String {
        match self {
            DbFault::Refuse => "connection-refused".into(),
            DbFault::Drop { after: false, .. } => "connection-lost".into(),
            DbFault::Drop { .. } => "reply-lost".into(),
            DbFault::Inject { code, .. } => format!("sql-error-{}", code),
            DbFault::Crash { after: false, .. } => "server-crash".into(),
            DbFault::Crash { .. } => "server-crash-after".into(),
            DbFault::Fatal { .. } => "admin-shutdown".into(),
            DbFault::Stall { .. } => "server-stall".into(),
        }
    }
}
/// disturbances a command has to cope with
#[derive(Clone, Debug, Default)]
pub struct Soft {
    pub seed: u64,
    pub short: bool,
    pub eintr: bool,
    pub fragment: bool,
    pub slow: i64,
    pub jumps: Vec<(u64, i64)>,
}
#[derive(Clone, Debug, Default)]
pub struct Plan {
    pub fs: Vec<FsFault>,
    pub db: Vec<DbFault>,
    pub soft: Soft,
}
#[derive(Clone, Debug, Default)]
pub struct Cmd {
    pub args: Vec<String>,
    pub cwd: String,
    pub env: Vec<(String, String)>,
    pub seed: u64,
    pub dirseed: u64,
    pub dtunknown: bool,
    /// another time zone than the world's
    pub tz: Option<String>,
}
#[derive(Clone, Debug, Default)]
pub struct Outcome {
    pub code: i32,
    pub out: String,
    /// the bytes written to stdout and stderr so far
    pub raw: [Vec<u8>; 2],
    pub err: String,
    /// the simulator killed it
    pub killed: bool,
    pub power: bool,
    pub ops: Vec<(u32, String, i64)>,
    /// frontend messages the server handled: kind and statement
    pub msgs: Vec<(char, String)>,
    pub fired: Vec<String>,
    /// it could not go on although nothing more was going to happen
    pub stuck: bool,
    pub signal: Option<i32>,
    pub commit_csn: Option<u64>,
    pub err_broken: bool,
    /// SQLSTATE of the errors the server raised for it
    pub sqlerr: Vec<String>,
    /// what the server said about the first of them
    pub sqlmsg: Option<String>,
}
impl Outcome {
    pub fn ok(&self) -> bool {
        self.code == 0 && !self.killed
    }
    pub fn brief(&self) -> String {
        format!(
            "exit {}{}{}{}",
            self.code,
            if self.killed { " (killed)" } else { "" },
            if self.stuck { " (stuck)" } else { "" },
            if self.err.is_empty() { String::new() } else { format!(" stderr: {}", self.err.trim()) }
        )
    }
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub commands: u64,
    pub ops: u64,
    pub msgs: u64,
    pub sim_ns: i64,
    pub faults: BTreeMap<String, u64>,
    pub fs_resyncs: u64,
    pub deadlocks: u64,
    pub lock_waits: u64,
    pub states: BTreeSet<u64>,
    pub schedules: BTreeSet<u64>,
    pub counts: BTreeMap<String, u64>,
}
impl Stats {
    pub fn count(&mut self, k: &str) {
        *self.counts.entry(k.to_string()).or_default() += 1;
    }
    pub fn merge(&mut self, o: Stats) {
        self.commands += o.commands;
        self.ops += o.ops;
        self.msgs += o.msgs;
        self.sim_ns += o.sim_ns;
        self.fs_resyncs += o.fs_resyncs;
        self.deadlocks += o.deadlocks;
        self.lock_waits += o.lock_waits;
        for (k, v) in o.faults {
            *self.faults.entry(k).or_default() += v;
        }
        for (k, v) in o.counts {
            *self.counts.entry(k).or_default() += v;
        }
        self.states.extend(o.states);
        self.schedules.extend(o.schedules);
    }
}

pub struct DbHost {
    pub name: String,
    pub srv: Server,
    listener: UnixListener,
}
#[derive(Clone)]
pub struct Bins {
    pub podo: PathBuf,
    pub shim: PathBuf,
}
pub struct World {
    pub bins: Bins,
    pub base: PathBuf,
    pub root: PathBuf,
    pub disk: Disk,
    /// what a failed command left unsynced may still be lost later
    pub lazy: bool,
    pub dbs: Vec<DbHost>,
    pub now: i64,
    pub mono: i64,
    pub tz: String,
    pub tape: Tape,
    pub tracing: bool,
    pub trace: Vec<String>,
    pub hash: u64,
    pub stats: Stats,
    pub broken: Option<String>,
    pub twin: bool,
}

#[derive(Debug)]
struct Req {
    op: u32,
    a: i64,
    b: i64,
    p1: String,
    p2: String,
    data: Vec<u8>,
}
#[repr(C)]
#[derive(Clone, Copy, Default)]
struct Rep {
    act: i32,
    err: i32,
    val: i64,
    now: i64,
    mono: i64,
}
struct Conn {
    db: usize,
    sid: usize,
    sock: Option<UnixStream>,
    nmsg: u64,
    /// close once everything was delivered
    closing: bool,
}
/// Closing alone is not enough: a process another thread is just starting has the descriptor as
/// well until it executes podo.
fn hang_up(s: &mut Option<UnixStream>) {
    if let Some(s) = s.take() {
        let _ = s.shutdown(std::net::Shutdown::Both);
    }
}
struct Live {
    cmd: Cmd,
    plan: Plan,
    child: Child,
    ctl: UnixStream,
    pend: Option<Req>,
    conn: Option<Conn>,
    connecting: Option<usize>,
    nops: u64,
    o: Outcome,
    done: bool,
    sticky: Vec<(What, u32)>,
    db_fired: BTreeSet<usize>,
}
pub enum Sched {
    /// one after the other in a fixed order, without draws
    Fifo,
    /// any enabled actor
    Uniform,
    /// mostly the same actor again
    Bursts(u64),
}

fn find(hay: &str, root: &str) -> String {
    hay.strip_prefix(root).map(|s| s.trim_start_matches('/').to_string()).unwrap_or_else(|| hay.to_string())
}
pub fn rm(p: &Path) {
    let _ = std::fs::remove_dir_all(p);
}

impl World {
    pub fn new(bins: &Bins, base: &Path, tape: Tape) -> World {
        rm(base);
        let root = base.join("fs");
        std::fs::create_dir_all(&root).expect("scratch directory");
        World {
            bins: bins.clone(),
            base: base.to_path_buf(),
            disk: Disk::new(&root),
            lazy: false,
            root,
            dbs: vec![],
            now: 1_700_000_000_000_000_000,
            mono: 1_000_000_000_000,
            tz: "UTC".into(),
            tape,
            tracing: false,
            trace: vec![],
            hash: 0,
            stats: Stats::default(),
            broken: None,
            twin: false,
        }
    }
    /// What is printed, without the name of this world's directory, even
    /// where only a part of the name is printed at once.
    fn unnamed(&self, before: &[u8], data: &[u8]) -> String {
        let root = self.root.to_string_lossy().to_string().into_bytes();
        let mut all = before[before.len().saturating_sub(root.len())..].to_vec();
        let from = all.len();
        all.extend_from_slice(data);
        let mut at = 0;
        while at < all.len() {
            let n = root.iter().zip(&all[at..]).take_while(|(a, b)| a == b).count();
            if n == root.len() || n > 1 && at + n == all.len() {
                all[at..at + n].fill(b'~');
                at += n;
            } else {
                at += 1;
            }
        }
        String::from_utf8_lossy(&all[from..]).replace(&"~".repeat(root.len()), "/ROOT")
    }
    pub fn add_db(&mut self, mut db: Db) -> usize {
        db.order = self.tape.draw(1 << 16);
        let name = format!("db{}", self.dbs.len());
        let dir = self.base.join("pg").join(&name);
        std::fs::create_dir_all(&dir).expect("socket directory");
        let path = dir.join(".s.PGSQL.5432");
        let _ = std::fs::remove_file(&path);
        let listener = UnixListener::bind(&path).expect("socket");
        listener.set_nonblocking(true).ok();
        self.dbs.push(DbHost { name, srv: Server::new(db), listener });
        self.dbs.len() - 1
    }
    pub fn url(&self, db: usize) -> String {
        format!("host=/pg/db{} user=podo dbname=app", db)
    }
    /// a copy of the whole world that draws nothing
    pub fn fork(&self, name: &str) -> World {
        let base = self.base.parent().unwrap().join(name);
        let mut w = World::new(&self.bins, &base, Tape::replay(vec![]));
        copy_tree(&self.root, &w.root);
        w.disk.settle();
        for d in &self.dbs {
            let k = w.add_db(d.srv.db.clone());
            w.dbs[k].srv.db.order = d.srv.db.order;
        }
        w.now = self.now;
        w.mono = self.mono;
        w.tz = self.tz.clone();
        w.twin = true;
        w
    }
    /// goes back to what a fork has kept
    pub fn restore(&mut self, s: &World) {
        wipe(&self.root);
        copy_tree(&s.root, &self.root);
        self.disk.settle();
        let dbs: Vec<_> = s.dbs.iter().map(|d| d.srv.db.clone()).collect();
        for (d, x) in self.dbs.iter_mut().zip(dbs) {
            d.srv.db = x;
        }
        self.now = s.now;
        self.note(|| "-- back to the state before".to_string());
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.tracing {
            let s = f();
            self.trace.push(format!("[{:.3}s] {}", (self.mono - 1_000_000_000_000) as f64 / 1e9, s));
        }
    }
    pub fn fold(&mut self, x: u64) {
        self.hash = mix(self.hash ^ x);
    }
    pub fn files(&self) -> Files {
        scan(&self.root)
    }
    /// the user edits a file; that is durable
    pub fn put(&mut self, rel: &str, c: impl AsRef<[u8]>) {
        let p = self.root.join(rel);
        if let Some(d) = p.parent() {
            let _ = std::fs::create_dir_all(d);
        }
        std::fs::write(&p, c.as_ref()).expect("write file");
        self.disk.settle();
    }
    pub fn del(&mut self, rel: &str) {
        let p = self.root.join(rel);
        if p.is_dir() && !p.is_symlink() {
            rm(&p);
        } else {
            let _ = std::fs::remove_file(&p);
        }
        self.disk.settle();
    }
    pub fn get(&self, rel: &str) -> Option<Vec<u8>> {
        std::fs::read(self.root.join(rel)).ok()
    }
    pub fn sleep(&mut self, ns: i64) {
        self.now += ns;
        self.mono += ns;
        self.stats.sim_ns += ns;
    }
    fn tick(&mut self, ns: i64) {
        self.sleep(ns);
    }
    pub fn fault(&mut self, name: &str) {
        *self.stats.faults.entry(name.to_string()).or_default() += 1;
    }

    fn spawn(&mut self, cmd: &Cmd, plan: &Plan) -> Live {
        let (a, b) = UnixStream::pair().expect("socketpair");
        let fd = b.as_raw_fd();
        let mut c = Command::new(&self.bins.podo);
        c.args(&cmd.args).env_clear().stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
        c.env("LD_PRELOAD", &self.bins.shim)
            .env("PODOSIM_FD", "200")
            .env("PODOSIM_ROOT", &self.root)
            .env("PODOSIM_PG", &self.base)
            .env("PODOSIM_SEED", cmd.seed.to_string())
            .env("PODOSIM_DIRSEED", cmd.dirseed.to_string())
            .env("TZ", cmd.tz.as_ref().unwrap_or(&self.tz))
            .env("NO_COLOR", "1")
            .env("HOME", "/nonexistent")
            .env("PATH", "/nonexistent");
        if cmd.dtunknown {
            c.env("PODOSIM_DTUNKNOWN", "1");
        }
        for (k, v) in &cmd.env {
            c.env(k, v);
        }
        c.current_dir(self.root.join(&cmd.cwd));
        unsafe {
            c.pre_exec(move || {
                if libc::dup2(fd, 200) < 0 {
                    return Err(std::io::Error::last_os_error());
                }
                let l = libc::rlimit { rlim_cur: 10, rlim_max: 12 };
                libc::setrlimit(libc::RLIMIT_CPU, &l);
                let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                libc::setrlimit(libc::RLIMIT_CORE, &l);
                Ok(())
            });
        }
        let child = c.spawn().expect("podo starts");
        drop(b);
        self.stats.commands += 1;
        Live {
            cmd: cmd.clone(),
            plan: plan.clone(),
            child,
            ctl: a,
            pend: None,
            conn: None,
            connecting: None,
            nops: 0,
            o: Outcome::default(),
            done: false,
            sticky: vec![],
            db_fired: BTreeSet::new(),
        }
    }
    fn recv(&mut self, l: &mut Live) -> Option<Req> {
        fn full(s: &mut UnixStream, b: &mut [u8]) -> bool {
            s.read_exact(b).is_ok()
        }
        let mut p = libc::pollfd { fd: l.ctl.as_raw_fd(), events: libc::POLLIN, revents: 0 };
        if unsafe { libc::poll(&mut p, 1, 30_000) } == 0 {
            self.broken = Some("a process ran for 30 s without a system call the simulator sees".into());
            let _ = l.child.kill();
        }
        let mut h = [0u8; 40];
        if !full(&mut l.ctl, &mut h) {
            return None;
        }
        let u = |i: usize| u32::from_ne_bytes(h[i..i + 4].try_into().unwrap());
        let q = |i: usize| i64::from_ne_bytes(h[i..i + 8].try_into().unwrap());
        let mut rest = vec![0u8; (u(24) + u(28) + u(32)) as usize];
        if !full(&mut l.ctl, &mut rest) {
            return None;
        }
        let (x, y) = (u(24) as usize, (u(24) + u(28)) as usize);
        let root = self.root.to_string_lossy().to_string();
        Some(Req {
            op: u(0),
            a: q(8),
            b: q(16),
            p1: find(&String::from_utf8_lossy(&rest[..x]), &root),
            p2: find(&String::from_utf8_lossy(&rest[x..y]), &root),
            data: rest[y..].to_vec(),
        })
    }
    /// gives a verdict and lets the process run to its next request
    fn reply(&mut self, i: usize, l: &mut Live, mut r: Rep) {
        r.now = self.now;
        r.mono = self.mono;
        let b: [u8; 32] = unsafe { std::mem::transmute(r) };
        let _ = l.ctl.write_all(&b);
        self.advance(i, l);
    }
    fn advance(&mut self, i: usize, l: &mut Live) {
        match self.recv(l) {
            Some(q) => l.pend = Some(q),
            None => {
                l.pend = None;
                l.done = true;
                let st = l.child.wait().expect("wait");
                l.o.code = st.code().unwrap_or(128 + st.signal().unwrap_or(0));
                l.o.signal = st.signal();
                if st.signal() == Some(libc::SIGXCPU) || st.signal() == Some(libc::SIGKILL) {
                    l.o.stuck = true;
                }
                let (code, killed) = (l.o.code, l.o.killed);
                self.fold(0x1000 + code as u64);
                self.note(|| format!("p{} ends: {}", i, if killed { "killed".to_string() } else { format!("exit {}", code) }));
            }
        }
        // a connection made in the meantime
        if let Some(d) = l.connecting.take() {
            if let Ok((s, _)) = self.dbs[d].listener.accept() {
                s.set_nonblocking(true).ok();
                let sid = self.dbs[d].srv.connect();
                l.conn = Some(Conn { db: d, sid, sock: Some(s), nmsg: 0, closing: false });
            }
        }
        self.pull(l);
    }
    fn pull(&mut self, l: &mut Live) {
        if let Some(c) = &mut l.conn {
            if let Some(s) = &mut c.sock {
                let mut b = [0u8; 65536];
                loop {
                    match s.read(&mut b) {
                        Ok(0) => {
                            self.dbs[c.db].srv.sess[c.sid].eof = true;
                            break;
                        }
                        Ok(n) => self.dbs[c.db].srv.sess[c.sid].inbuf.extend(&b[..n]),
                        Err(e) if e.kind() == std::io::ErrorKind::WouldBlock => break,
                        Err(_) => {
                            self.dbs[c.db].srv.sess[c.sid].eof = true;
                            break;
                        }
                    }
                }
                if l.done {
                    self.dbs[c.db].srv.sess[c.sid].eof = true;
                }
            }
        }
    }
    fn kill(&mut self, i: usize, l: &mut Live) {
        l.o.killed = true;
        self.reply(i, l, Rep { act: 2, ..Rep::default() });
    }
    /// one request of a process that is not waiting for the network
    fn exec(&mut self, i: usize, l: &mut Live) {
        let q = l.pend.take().unwrap();
        let n = l.nops;
        l.nops += 1;
        self.stats.ops += 1;
        self.fold(q.op as u64 ^ (crate::tape::hash(q.p1.as_bytes()) << 8));
        l.o.ops.push((q.op, q.p1.clone(), if q.op == OPEN { q.a } else { q.b }));
        self.tick(20_000 + l.plan.soft.slow);
        for k in 0..l.plan.soft.jumps.len() {
            let (at, d) = l.plan.soft.jumps[k];
            if at == n {
                self.now += d;
                self.fault("clock-jump");
                self.note(|| format!("clock jumps by {} s", d as f64 / 1e9));
            }
        }
        let mut hit: Option<What> = None;
        for (w, op) in &l.sticky {
            if *op == q.op {
                hit = Some(w.clone());
            }
        }
        if hit.is_none() {
            for f in &l.plan.fs {
                if f.at == n && f.what.fits(q.op) {
                    hit = Some(f.what.clone());
                    if f.sticky {
                        let class: &[u32] = match f.what {
                            What::Errno(libc::ENOSPC) | What::Errno(libc::EDQUOT) => &[WRITE, MKDIR, FSYNC],
                            _ => &[],
                        };
                        for c in class {
                            l.sticky.push((f.what.clone(), *c));
                        }
                        if class.is_empty() {
                            l.sticky.push((f.what.clone(), q.op));
                        }
                    }
                }
            }
            if let Some(w) = &hit {
                let name = format!("{}:{}", opname(q.op), w.name());
                self.fault(&name);
                self.note(|| format!("p{} FAULT {} {}", i, name, q.p1));
                l.o.fired.push(name);
            }
        }
        let mut r = Rep::default();
        let s = &l.plan.soft;
        let h = mix(s.seed ^ mix(n));
        if hit.is_none() && s.seed != 0 {
            let small = |len: i64| 1 + (h >> 16) as i64 % len.max(1);
            if s.eintr && h % 5 == 0 && matches!(q.op, OPEN | READ | WRITE | FSYNC) {
                hit = Some(What::Errno(libc::EINTR));
                self.fault("EINTR");
            } else if s.short && (h >> 8) % 3 == 0 && q.op == READ && q.a > 1 {
                // a read may return less than there is
                hit = Some(What::Short(small(q.a.min(64)) as u64));
                self.fault("short-read");
            } else if s.short && (h >> 8) % 3 == 0 && matches!(q.op, WRITE | OUT) && q.a > 1 {
                hit = Some(What::Short(small(q.a) as u64));
                self.fault("short-write");
            }
        }
        if self.tracing && q.op != CLOSE {
            let what = match q.op {
                OUT => format!("fd {} {:?}", q.b, self.unnamed(&l.o.raw[(q.b == 2) as usize], &q.data)),
                WRITE => format!("{} +{} {} bytes", q.p1, q.b, q.a),
                RENAME | LINK => format!("{} -> {}", q.p1, q.p2),
                _ => q.p1.clone(),
            };
            let v = hit.as_ref().map_or(String::new(), |w| format!("  [{}]", w.name()));
            self.note(|| format!("p{} {} {}{}", i, opname(q.op), what, v));
        }
        if q.op != OUT {
            self.fold(crate::tape::hash(&q.data));
        }
        let mut data: &[u8] = &q.data;
        match &hit {
            None => {}
            Some(What::Errno(e)) => {
                r.act = 1;
                r.err = *e;
            }
            Some(What::Short(k)) => {
                r.act = 3;
                r.val = (*k).max(if q.op == WRITE && l.plan.soft.seed == 0 { 0 } else { 1 }) as i64;
                if data.len() > r.val as usize {
                    data = &data[..r.val as usize];
                }
            }
            Some(What::DirErr(e, at)) => {
                r.act = 6;
                r.err = *e;
                r.val = *at;
            }
            Some(What::Crash) | Some(What::Power) => {
                l.o.killed = true;
                l.o.power = matches!(hit, Some(What::Power));
                r.act = 2;
                return self.reply(i, l, r);
            }
            Some(What::CrashAfter) | Some(What::PowerAfter) => {
                l.o.killed = true;
                l.o.power = matches!(hit, Some(What::PowerAfter));
                r.act = 4;
            }
            Some(What::ShortCrash(k)) => {
                l.o.killed = true;
                r.act = 5;
                r.val = *k as i64;
                if data.len() > r.val as usize {
                    data = &data[..r.val as usize];
                }
            }
        }
        if r.act != 1 {
            match q.op {
                OPEN => self.disk.opened(i, &q.p1, q.a),
                WRITE => self.disk.wrote(i, &q.p1, q.b, data),
                TRUNC => self.disk.truncated(i, &q.p1, q.a),
                FSYNC => self.disk.synced(i, &q.p1),
                RENAME => self.disk.renamed(&q.p1, &q.p2),
                UNLINK => self.disk.unlinked(&q.p1),
                MKDIR => self.disk.mkdired(&q.p1),
                RMDIR => self.disk.rmdired(&q.p1),
                LINK => self.disk.linked(&q.p1, &q.p2),
                OUT => {
                    // the file descriptor travels in the request
                    l.o.raw[(q.b == 2) as usize].extend_from_slice(data);
                }
                CONNECT => {
                    let d = q.p1.strip_prefix("/pg/db").and_then(|s| s.split('/').next()).and_then(|s| s.parse::<usize>().ok()).filter(|d| *d < self.dbs.len());
                    match d {
                        Some(d) if !l.plan.db.contains(&DbFault::Refuse) => l.connecting = Some(d),
                        _ => {
                            if d.is_some() {
                                self.fault("connection-refused");
                                l.o.fired.push("connection-refused".into());
                            }
                            r.act = 1;
                            r.err = libc::ECONNREFUSED;
                            self.note(|| format!("p{} connection refused", i));
                        }
                    }
                }
                _ => {}
            }
        } else if q.op == OUT && q.b == 2 && r.err != libc::EINTR {
            l.o.err_broken = true;
        }
        self.reply(i, l, r)
    }
    fn drop_conn(&mut self, l: &mut Live) {
        if let Some(c) = &mut l.conn {
            hang_up(&mut c.sock);
            self.dbs[c.db].srv.kill(c.sid, false);
            self.dbs[c.db].srv.sess[c.sid].out.clear();
        }
    }
    fn crash_db(&mut self, d: usize, ls: &mut [Live], orphans: &mut Vec<(usize, usize)>) {
        for l in ls.iter_mut() {
            if l.conn.as_ref().map_or(false, |c| c.db == d) {
                self.drop_conn(l);
            }
        }
        for s in 0..self.dbs[d].srv.sess.len() {
            self.dbs[d].srv.kill(s, false);
        }
        orphans.retain(|o| o.0 != d);
    }
    fn server_step(&mut self, i: usize, ls: &mut [Live], orphans: &mut Vec<(usize, usize)>) {
        let (d, sid, at) = {
            let c = ls[i].conn.as_ref().unwrap();
            (c.db, c.sid, c.nmsg)
        };
        self.tick(200_000 + ls[i].plan.soft.slow);
        let peek = self.dbs[d].srv.peek(sid);
        let mut after = vec![];
        if peek.is_some() {
            for k in 0..ls[i].plan.db.len() {
                if ls[i].db_fired.contains(&k) {
                    continue;
                }
                let f = ls[i].plan.db[k].clone();
                let here = match &f {
                    DbFault::Refuse => false,
                    DbFault::Drop { at: a, .. } | DbFault::Inject { at: a, .. } | DbFault::Crash { at: a, .. } | DbFault::Fatal { at: a } | DbFault::Stall { at: a, .. } => *a == at,
                };
                if !here {
                    continue;
                }
                ls[i].db_fired.insert(k);
                self.fault(&f.name());
                ls[i].o.fired.push(f.name());
                let p = peek.clone();
                self.note(|| format!("p{} FAULT {} at {:?}", i, f.name(), p));
                match f {
                    DbFault::Drop { after: false, .. } => return self.drop_conn(&mut ls[i]),
                    DbFault::Crash { after: false, .. } => return self.crash_db(d, ls, orphans),
                    DbFault::Fatal { .. } => {
                        self.dbs[d].srv.kill(sid, true);
                        ls[i].conn.as_mut().unwrap().closing = true;
                        return;
                    }
                    DbFault::Inject { code, .. } => self.dbs[d].srv.sess[sid].inject = Some(PgErr { code, msg: format!("injected failure {}", code) }),
                    DbFault::Stall { ns, .. } => self.tick(ns),
                    _ => after.push(f),
                }
            }
        }
        let srv = &mut self.dbs[d].srv;
        srv.db.now = (self.now - 946_684_800_000_000_000) / 1000;
        let (csn, nlog) = (srv.db.csn, srv.log.len());
        let r = srv.step(sid);
        let logged: Vec<_> = srv.log[nlog..].to_vec();
        if srv.db.csn != csn {
            ls[i].o.commit_csn = Some(srv.db.csn);
        }
        let srv = &mut self.dbs[d].srv;
        if srv.sess[sid].closed {
            ls[i].conn.as_mut().unwrap().closing = true;
        }
        self.fold(0x2000 + r as u64);
        for e in logged {
            self.fold(crate::tape::hash(e.result.as_bytes()) ^ crate::tape::hash(e.text.as_bytes()));
            if let Some(x) = e.result.strip_prefix("ERROR ") {
                ls[i].o.sqlerr.push(x.split(' ').next().unwrap_or("").to_string());
                if ls[i].o.sqlmsg.is_none() {
                    ls[i].o.sqlmsg = x.split_once(' ').map(|(_, m)| m.to_string());
                }
                if x.contains("not modelled") {
                    self.broken = Some(format!("the simulated server does not know: {} ({})", e.text, x));
                }
            }
            self.note(|| format!("db{} s{} {} -> {}", d, sid, e.text.split_whitespace().collect::<Vec<_>>().join(" "), e.result));
        }
        match r {
            Step::Progress | Step::Closed => {
                if let Some(p) = peek {
                    ls[i].o.msgs.push(p);
                    self.stats.msgs += 1;
                    ls[i].conn.as_mut().unwrap().nmsg += 1;
                }
            }
            Step::Blocked => self.note(|| format!("db{} s{} waits for a lock", d, sid)),
            Step::NeedInput => {}
        }
        for f in after {
            if r == Step::Blocked {
                continue;
            }
            match f {
                DbFault::Drop { .. } => return self.drop_conn(&mut ls[i]),
                DbFault::Crash { .. } => return self.crash_db(d, ls, orphans),
                _ => {}
            }
        }
    }
    fn deliver(&mut self, i: usize, l: &mut Live) {
        let q = l.pend.take().unwrap();
        let n = l.nops;
        l.nops += 1;
        self.stats.ops += 1;
        l.o.ops.push((q.op, String::new(), 0));
        self.tick(50_000 + l.plan.soft.slow);
        for f in &l.plan.fs {
            if f.at == n && matches!(f.what, What::Crash | What::Power) {
                let name = format!("block:{}", f.what.name());
                l.o.power = f.what == What::Power;
                self.fault(&name);
                self.note(|| format!("p{} FAULT {}", i, name));
                l.o.fired.push(name);
                return self.kill(i, l);
            }
        }
        let soft = l.plan.soft.clone();
        let h = mix(soft.seed ^ mix(n));
        if soft.seed != 0 && soft.eintr && h % 7 == 0 {
            self.fault("EINTR");
            return self.reply(i, l, Rep { act: 1, err: libc::EINTR, ..Rep::default() });
        }
        let c = l.conn.as_mut().unwrap();
        let out = &mut self.dbs[c.db].srv.sess[c.sid].out;
        if let Some(s) = &mut c.sock {
            let mut k = out.len();
            if soft.seed != 0 && soft.fragment && k > 1 && (h >> 8) % 2 == 0 {
                k = 1 + (h >> 16) as usize % (k - 1);
            }
            if k < out.len() {
                *self.stats.faults.entry("fragmented-reply".into()).or_default() += 1;
            }
            let b: Vec<u8> = out.drain(..k).collect();
            s.set_nonblocking(false).ok();
            let _ = s.write_all(&b);
            s.set_nonblocking(true).ok();
            if c.closing && out.is_empty() {
                hang_up(&mut c.sock);
            }
        }
        self.fold(0x3000 + i as u64);
        self.reply(i, l, Rep::default())
    }

    pub fn run(&mut self, cmd: &Cmd, plan: &Plan) -> Outcome {
        self.run_many(vec![(cmd.clone(), plan.clone())], Sched::Fifo).pop().unwrap()
    }
    pub fn run_many(&mut self, cmds: Vec<(Cmd, Plan)>, sched: Sched) -> Vec<Outcome> {
        let mut ls: Vec<Live> = vec![];
        for (i, (c, p)) in cmds.iter().enumerate() {
            self.note(|| format!("p{} starts: podo {}  (in /{})", i, c.args.join(" "), c.cwd));
            for a in &c.args {
                self.fold(crate::tape::hash(a.as_bytes()));
            }
            let mut l = self.spawn(c, p);
            self.advance(i, &mut l);
            match l.pend.as_ref().map(|q| q.op) {
                Some(START) => {
                    l.pend = Some(Req { op: START, a: 0, b: 0, p1: String::new(), p2: String::new(), data: vec![] });
                }
                _ => self.broken = Some(format!("the process did not start under the simulator: {}", l.o.code)),
            }
            ls.push(l);
        }
        let mut orphans: Vec<(usize, usize)> = vec![];
        let mut seq = 0u64;
        let mut steps = 0u64;
        let mut cur = 0usize;
        loop {
            // enabled actors: clients are 0..n, their sessions n..2n, orphaned sessions after that
            let n = ls.len();
            let mut en: Vec<usize> = vec![];
            for i in 0..n {
                if let Some(c) = &ls[i].conn {
                    if ls[i].done {
                        if !self.dbs[c.db].srv.sess[c.sid].closed && !orphans.contains(&(c.db, c.sid)) {
                            orphans.push((c.db, c.sid));
                        }
                    } else if self.dbs[c.db].srv.runnable(c.sid) {
                        en.push(n + i);
                    }
                }
            }
            for (k, o) in orphans.iter().enumerate() {
                if self.dbs[o.0].srv.runnable(o.1) {
                    en.push(2 * n + k);
                }
            }
            for i in 0..n {
                if ls[i].done {
                    continue;
                }
                match ls[i].pend.as_ref() {
                    Some(q) if q.op == BLOCK => {
                        let ready = match &ls[i].conn {
                            Some(c) => c.sock.is_none() || !self.dbs[c.db].srv.sess[c.sid].out.is_empty() || c.closing,
                            None => false,
                        };
                        if ready {
                            en.push(i);
                        }
                    }
                    Some(_) => en.push(i),
                    None => {}
                }
            }
            if en.is_empty() {
                if ls.iter().all(|l| l.done) {
                    break;
                }
                // nothing can happen but a timeout
                let t = (0..n).filter(|i| !ls[*i].done).filter_map(|i| ls[i].pend.as_ref().filter(|q| q.op == BLOCK && q.a >= 0).map(|q| (q.a, i))).min();
                match t {
                    Some((ms, i)) => {
                        self.tick(ms * 1_000_000 + 1_000_000);
                        ls[i].pend = None;
                        ls[i].nops += 1;
                        self.reply(i, &mut ls[i], Rep { act: 3, ..Rep::default() });
                    }
                    None => {
                        for i in 0..n {
                            if !ls[i].done {
                                self.note(|| format!("p{} is stuck", i));
                                ls[i].o.stuck = true;
                                ls[i].pend = None;
                                self.kill(i, &mut ls[i]);
                                ls[i].o.killed = false;
                            }
                        }
                    }
                }
                continue;
            }
            steps += 1;
            let a = match sched {
                _ if en.len() == 1 => en[0],
                Sched::Fifo => en[0],
                Sched::Uniform => {
                    let k = self.tape.idx(en.len());
                    en[k]
                }
                Sched::Bursts(n) => {
                    let stay = en.contains(&cur);
                    if stay && !self.tape.chance(1, n) {
                        cur
                    } else {
                        let k = self.tape.idx(en.len());
                        en[k]
                    }
                }
            };
            cur = a;
            if !matches!(sched, Sched::Fifo) {
                seq = mix(seq ^ a as u64);
            }
            if steps > 60_000 {
                for i in 0..n {
                    if !ls[i].done {
                        ls[i].o.stuck = true;
                        ls[i].pend = None;
                        self.kill(i, &mut ls[i]);
                        ls[i].o.killed = false;
                    }
                }
                continue;
            }
            if a < n {
                if ls[a].pend.as_ref().unwrap().op == BLOCK {
                    self.deliver(a, &mut ls[a]);
                } else if ls[a].pend.as_ref().unwrap().op == START {
                    ls[a].pend = None;
                    self.reply(a, &mut ls[a], Rep::default());
                } else {
                    self.exec(a, &mut ls[a]);
                }
                if ls[a].done && ls[a].o.power {
                    // the machine goes down: everything running on it dies
                    for i in 0..n {
                        if !ls[i].done {
                            ls[i].o.power = true;
                            ls[i].pend = None;
                            self.kill(i, &mut ls[i]);
                        }
                    }
                    let mut t = std::mem::take(&mut self.tape);
                    let s = self.disk.power_loss(&mut t);
                    self.tape = t;
                    self.note(|| format!("power lost: {}", s));
                }
            } else if a < 2 * n {
                self.server_step(a - n, &mut ls, &mut orphans);
            } else {
                let o = orphans[a - 2 * n];
                self.tick(200_000);
                let srv = &mut self.dbs[o.0].srv;
                let (csn, nlog) = (srv.db.csn, srv.log.len());
                let r = srv.step(o.1);
                let logged: Vec<_> = srv.log[nlog..].to_vec();
                let now = srv.db.csn;
                for e in logged {
                    self.note(|| format!("db{} s{} (client gone) {} -> {}", o.0, o.1, e.text.split_whitespace().collect::<Vec<_>>().join(" "), e.result));
                }
                if now != csn {
                    for l in ls.iter_mut() {
                        if l.conn.as_ref().map_or(false, |c| (c.db, c.sid) == o) {
                            l.o.commit_csn = Some(now);
                        }
                    }
                }
                if r == Step::Closed {
                    orphans.retain(|x| *x != o);
                }
            }
        }
        if !matches!(sched, Sched::Fifo) {
            self.stats.schedules.insert(seq);
        }
        for d in 0..self.dbs.len() {
            let s = &mut self.dbs[d].srv;
            self.stats.deadlocks += s.deadlocks;
            self.stats.lock_waits += s.waits;
            s.deadlocks = 0;
            s.waits = 0;
            s.log.clear();
            s.sess.clear();
        }
        self.disk.check();
        if !self.lazy && ls.iter().any(|l| !l.o.ok()) && ls.iter().all(|l| !l.o.power) {
            // what a failed command left unsynced is written back before anything else happens
            self.disk.settle();
        }
        self.stats.fs_resyncs += std::mem::take(&mut self.disk.resyncs);
        let _ = ls.iter().map(|l| l.cmd.args.len()).sum::<usize>();
        let root = self.root.to_string_lossy().to_string();
        let v: Vec<Outcome> = ls
            .into_iter()
            .map(|mut l| {
                // where the simulation itself runs is not part of the result
                l.o.out = String::from_utf8_lossy(&l.o.raw[0]).replace(&root, "/ROOT");
                l.o.err = String::from_utf8_lossy(&l.o.raw[1]).replace(&root, "/ROOT");
                l.o
            })
            .collect();
        for o in &v {
            self.fold(crate::tape::hash(o.out.as_bytes()) ^ mix(crate::tape::hash(o.err.as_bytes())));
        }
        v
    }
    /// the machine loses power while nothing runs
    pub fn power_loss(&mut self) {
        let mut t = std::mem::take(&mut self.tape);
        let s = self.disk.power_loss(&mut t);
        self.tape = t;
        self.fault("power-loss-after-exit");
        self.note(|| format!("power lost: {}", s));
    }
}
fn wipe(a: &Path) {
    let Ok(rd) = std::fs::read_dir(a) else { return };
    for e in rd.flatten() {
        let Ok(t) = e.file_type() else { continue };
        if t.is_dir() {
            wipe(&e.path());
            let _ = std::fs::remove_dir(e.path());
        } else {
            let _ = std::fs::remove_file(e.path());
        }
    }
}
pub fn copy_tree(a: &Path, b: &Path) {
    let Ok(rd) = std::fs::read_dir(a) else { return };
    for e in rd.flatten() {
        let (p, q) = (e.path(), b.join(e.file_name()));
        let Ok(t) = e.file_type() else { continue };
        if t.is_dir() {
            let _ = std::fs::create_dir_all(&q);
            copy_tree(&p, &q);
        } else if t.is_symlink() {
            if let Ok(to) = std::fs::read_link(&p) {
                let _ = std::os::unix::fs::symlink(to, &q);
            }
        } else {
            let _ = std::fs::copy(&p, &q);
        }
    }
}
