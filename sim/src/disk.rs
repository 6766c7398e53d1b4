//! What of the files written so far is durable. Metadata operations are journalled in order; an fsync makes the
//! file's data and all earlier metadata durable. A power loss keeps a prefix of the rest of the journal and, of data
//! that was not synced, the new bytes, the old ones, or a part.
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Default)]
struct Ino {
    cur: Vec<u8>,
    synced: Vec<u8>,
    dirty: bool,
}
#[derive(Clone, Debug)]
enum Meta {
    Create(String, usize),
    Mkdir(String),
    Rename(String, String),
    Unlink(String),
    Rmdir(String),
    Link(String, String),
}
#[derive(Clone, Debug, Default, PartialEq)]
struct Tree {
    files: BTreeMap<String, usize>,
    dirs: BTreeSet<String>,
}
impl Tree {
    fn apply(&mut self, m: &Meta) {
        match m {
            Meta::Create(p, i) => {
                self.files.insert(p.clone(), *i);
            }
            Meta::Mkdir(p) => {
                self.dirs.insert(p.clone());
            }
            Meta::Rename(a, b) => {
                if let Some(i) = self.files.remove(a) {
                    self.files.insert(b.clone(), i);
                } else if self.dirs.contains(a) {
                    let pre = format!("{}/", a);
                    let mv = |k: &String| if k == a { Some(b.clone()) } else { k.strip_prefix(&pre).map(|r| format!("{}/{}", b, r)) };
                    self.dirs = self.dirs.iter().map(|k| mv(k).unwrap_or_else(|| k.clone())).collect();
                    self.files = self.files.iter().map(|(k, v)| (mv(k).unwrap_or_else(|| k.clone()), *v)).collect();
                }
            }
            Meta::Unlink(p) => {
                self.files.remove(p);
            }
            Meta::Rmdir(p) => {
                self.dirs.remove(p);
            }
            Meta::Link(a, b) => {
                if let Some(i) = self.files.get(a).copied() {
                    self.files.insert(b.clone(), i);
                }
            }
        }
    }
    fn has_dir(&self, p: &str) -> bool {
        p.is_empty() || self.dirs.contains(p)
    }
}

#[derive(Clone, Default)]
pub struct Disk {
    root: PathBuf,
    ino: Vec<Ino>,
    now: Tree,
    durable: Tree,
    journal: Vec<Meta>,
    open: BTreeMap<(usize, String), (usize, bool)>,
    pub resyncs: u64,
}
fn parent(p: &str) -> &str {
    p.rfind('/').map_or("", |i| &p[..i])
}
pub type Files = BTreeMap<String, Vec<u8>>;
/// all regular files and directories (with a trailing slash) below a directory
pub fn scan(root: &Path) -> Files {
    fn go(root: &Path, pre: &str, out: &mut Files) {
        let Ok(rd) = std::fs::read_dir(root) else { return };
        for e in rd.flatten() {
            let n = format!("{}{}", pre, e.file_name().to_string_lossy());
            let Ok(t) = e.file_type() else { continue };
            if t.is_dir() {
                out.insert(format!("{}/", n), vec![]);
                go(&e.path(), &format!("{}/", n), out);
            } else if t.is_file() {
                out.insert(n, std::fs::read(e.path()).unwrap_or_default());
            } else if t.is_symlink() {
                let to = std::fs::read_link(e.path()).map(|p| p.to_string_lossy().to_string()).unwrap_or_default();
                out.insert(format!("{}@", n), to.into_bytes());
            }
        }
    }
    let mut out = Files::new();
    go(root, "", &mut out);
    out
}
impl Disk {
    pub fn new(root: &Path) -> Disk {
        let mut d = Disk { root: root.to_path_buf(), ..Disk::default() };
        d.settle();
        d
    }
    /// takes what is in the directory as durable
    pub fn settle(&mut self) {
        self.ino.clear();
        self.now = Tree::default();
        for (p, c) in scan(&self.root) {
            if let Some(d) = p.strip_suffix('/') {
                self.now.dirs.insert(d.to_string());
            } else if !p.ends_with('@') {
                self.now.files.insert(p, self.ino.len());
                self.ino.push(Ino { synced: c.clone(), cur: c, dirty: false });
            }
        }
        self.durable = self.now.clone();
        self.journal.clear();
        self.open.clear();
    }
    fn meta(&mut self, m: Meta) {
        self.now.apply(&m);
        self.journal.push(m);
    }
    pub fn opened(&mut self, pid: usize, p: &str, flags: i64) {
        let fl = flags as i32;
        if !self.now.files.contains_key(p) && fl & libc::O_CREAT != 0 && self.now.has_dir(parent(p)) && !self.now.has_dir(p) {
            self.ino.push(Ino::default());
            let i = self.ino.len() - 1;
            self.meta(Meta::Create(p.to_string(), i));
        } else if let Some(i) = self.now.files.get(p).copied() {
            if fl & libc::O_TRUNC != 0 && fl & libc::O_ACCMODE != libc::O_RDONLY && !(fl & libc::O_EXCL != 0 && fl & libc::O_CREAT != 0) {
                self.ino[i].cur.clear();
                self.ino[i].dirty = true;
            }
        }
        if let Some(i) = self.now.files.get(p).copied() {
            self.open.insert((pid, p.to_string()), (i, fl & libc::O_APPEND != 0));
        }
    }
    pub fn wrote(&mut self, pid: usize, p: &str, off: i64, data: &[u8]) {
        if let Some((i, app)) = self.open.get(&(pid, p.to_string())).copied() {
            let f = &mut self.ino[i];
            let o = if app { f.cur.len() } else { off.max(0) as usize };
            if f.cur.len() < o + data.len() {
                f.cur.resize(o + data.len(), 0);
            }
            f.cur[o..o + data.len()].copy_from_slice(data);
            f.dirty = true;
        }
    }
    pub fn truncated(&mut self, pid: usize, p: &str, len: i64) {
        if let Some((i, _)) = self.open.get(&(pid, p.to_string())).copied() {
            self.ino[i].cur.resize(len.max(0) as usize, 0);
            self.ino[i].dirty = true;
        }
    }
    pub fn synced(&mut self, pid: usize, p: &str) {
        if let Some((i, _)) = self.open.get(&(pid, p.to_string())).copied() {
            let f = &mut self.ino[i];
            f.synced = f.cur.clone();
            f.dirty = false;
        }
        for m in std::mem::take(&mut self.journal) {
            self.durable.apply(&m);
        }
    }
    pub fn renamed(&mut self, a: &str, b: &str) {
        if (self.now.files.contains_key(a) && !self.now.dirs.contains(b) || self.now.dirs.contains(a)) && self.now.has_dir(parent(b)) {
            self.meta(Meta::Rename(a.into(), b.into()));
        }
    }
    pub fn unlinked(&mut self, p: &str) {
        if self.now.files.contains_key(p) {
            self.meta(Meta::Unlink(p.into()));
        }
    }
    pub fn mkdired(&mut self, p: &str) {
        if self.now.has_dir(parent(p)) && !self.now.dirs.contains(p) && !self.now.files.contains_key(p) {
            self.meta(Meta::Mkdir(p.into()));
        }
    }
    pub fn rmdired(&mut self, p: &str) {
        let pre = format!("{}/", p);
        if self.now.dirs.contains(p) && !self.now.files.keys().chain(self.now.dirs.iter()).any(|k| k.starts_with(&pre)) {
            self.meta(Meta::Rmdir(p.into()));
        }
    }
    pub fn linked(&mut self, a: &str, b: &str) {
        if self.now.files.contains_key(a) && !self.now.files.contains_key(b) && self.now.has_dir(parent(b)) {
            self.meta(Meta::Link(a.into(), b.into()));
        }
    }
    /// the model agrees with the directory
    pub fn check(&mut self) {
        let real = scan(&self.root);
        let mut model = Files::new();
        for d in &self.now.dirs {
            model.insert(format!("{}/", d), vec![]);
        }
        for (p, i) in &self.now.files {
            model.insert(p.clone(), self.ino[*i].cur.clone());
        }
        if real.iter().filter(|x| !x.0.ends_with('@')).ne(model.iter()) {
            if std::env::var("PODOSIM_DEBUG").is_ok() {
                for (k, v) in &real {
                    if model.get(k) != Some(v) {
                        eprintln!("disk model differs at {}", k);
                    }
                }
            }
            self.resyncs += 1;
            self.settle();
        }
    }
    pub fn unsynced(&self) -> usize {
        self.journal.len() + self.now.files.values().filter(|i| self.ino[**i].dirty).count()
    }
    /// returns what survived, for the trace
    pub fn power_loss(&mut self, t: &mut Tape) -> String {
        let n = self.journal.len();
        let kept = n - t.idx(n + 1);
        let mut tree = self.durable.clone();
        for m in &self.journal[..kept] {
            tree.apply(m);
        }
        let mut note = format!("kept {} of {} metadata operations", kept, n);
        let mut content: BTreeMap<usize, Vec<u8>> = BTreeMap::new();
        for (p, i) in &tree.files {
            let f = &self.ino[*i];
            if content.contains_key(i) {
                continue;
            }
            let c = if !f.dirty {
                f.cur.clone()
            } else {
                match t.draw(4) {
                    0 => f.cur.clone(),
                    1 => f.synced.clone(),
                    2 => {
                        let k = t.idx(f.cur.len() + 1);
                        f.cur[..k].to_vec()
                    }
                    _ => vec![],
                }
            };
            if f.dirty {
                note.push_str(&format!(", {} has {} of {} bytes", p, c.len(), f.cur.len()));
            }
            content.insert(*i, c);
        }
        // links are left alone
        for (p, _) in scan(&self.root) {
            if !p.ends_with('/') && !p.ends_with('@') {
                let _ = std::fs::remove_file(self.root.join(&p));
            }
        }
        let mut gone: Vec<&String> = self.now.dirs.iter().filter(|d| !tree.dirs.contains(*d)).collect();
        gone.sort_by_key(|d| std::cmp::Reverse(d.len()));
        for d in gone {
            let _ = std::fs::remove_dir(self.root.join(d));
        }
        for d in &tree.dirs {
            let _ = std::fs::create_dir_all(self.root.join(d));
        }
        for (p, i) in &tree.files {
            let _ = std::fs::write(self.root.join(p), &content[i]);
        }
        self.settle();
        note
    }
}
