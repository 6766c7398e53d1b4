//! Scenarios about the files of a project: P01-P06, P16, P17, P19.
use crate::disk::Files;
use crate::model::*;
use crate::pg::dump;
use crate::proj::*;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

/// a project with some history; what is staged and defined may be ahead of it
pub fn project(c: &mut Ctx, versions: u64, edits: u64) -> Res<Hist> {
    let db = c.w.add_db(fresh_db());
    let p = Proj::create(c, "", db)?;
    let mut h = Hist::new(p);
    if c.chance(1, 40) {
        h.plain_version(c, 0)?;
        let n = 8 + c.draw(16) as usize;
        h.many(c, n)?;
    }
    for _ in 0..c.draw(versions + 1) {
        h.version(c, 1, edits)?;
        c.w.sleep(3_000_000_000);
    }
    Ok(h)
}
/// leaves something to stage, to make or to reset
fn prepare(c: &mut Ctx, h: &mut Hist) -> Res {
    if c.chance(2, 3) {
        let n = 1 + c.draw(3);
        h.edit(c, n);
        h.stage(c)?;
        if c.chance(1, 10) {
            h.by_hand(c)?;
        }
    }
    if c.chance(2, 3) {
        let n = 1 + c.draw(3);
        h.edit(c, n);
    }
    c.w.sleep(5_000_000_000);
    Ok(())
}
fn whole(files: &Files, hist: &str, known: &BTreeSet<String>) -> Result<Vec<Ver>, String> {
    Ok(normal(&chain(files, hist, true)?, known))
}
fn listing(ch: &[Ver]) -> String {
    ch.iter().map(|v| format!("{}({})", v.name, v.up.len())).collect::<Vec<_>>().join(" -> ")
}

pub fn p01(c: &mut Ctx) -> Res {
    c.w.lazy = true;
    let kind = c.draw(5);
    let mut h = project(c, 2, 2)?;
    if kind != 4 {
        prepare(c, &mut h)?;
    }
    let label = Hist::label(c);
    let mut p = h.p.clone();
    let mut args: Vec<&str> = match kind {
        0 => vec!["make"],
        1 => vec!["stage"],
        2 => vec!["reset"],
        3 => vec!["clone"],
        _ => {
            // a second project next to the first
            std::fs::create_dir_all(c.w.root.join("new")).ok();
            p.dir = "../".into();
            vec!["init"]
        }
    };
    if let ("make", Some(l)) = (args[0], &label) {
        args.extend(["--version", l.as_str()]);
    }
    let init = args[0] == "init";
    if init {
        // init needs a tree without a project above it
        c.w.del(".podo.yaml");
        c.w.del("database");
        c.w.put("new/unrelated.txt", "keep me");
        if c.chance(1, 3) {
            c.w.put("new/database/definitions/other.yaml", "schema extra: {}\n");
        }
        p = Proj { dir: "new".into(), hist: "new/database/history".into(), defs: "new/database/definitions".into(), ..h.p.clone() };
    }
    let cmd = p.cmd(c, &args);
    let before = c.w.files();
    let known = chain(&before, &p.hist, true).map(|v| names(&v)).unwrap_or_default();
    let (d, mut twin) = dry(c, &cmd);
    if !d.ok() {
        return Err(stopped(&args.join(" "), &d));
    }
    let after = twin.files();
    let want = whole(&after, &p.hist, &known).map_err(Fail::Setup)?;
    // clone replaces one file of definitions, which the others need not agree with
    let fits = args[0] != "clone" || {
        std::mem::swap(&mut c.w, &mut twin);
        let o = p.go(c, &["stage"]);
        std::mem::swap(&mut c.w, &mut twin);
        o.ok()
    };
    let mut cur = before.clone();
    let attempts = 1 + c.draw(2);
    let mut done = false;
    for k in 0..attempts {
        let plan = c.with(|t| {
            let mut pl = Plan::default();
            pl.fs.extend(fs_fault(t, &d, true));
            pl
        });
        let o = run(c, &cmd, &plan);
        ensure!(!o.stuck, "podo {} did not terminate after {:?}", args.join(" "), o.fired);
        if o.ok() && o.fired.is_empty() && c.chance(1, 2) {
            c.w.power_loss();
        }
        let now = c.w.files();
        let what = format!("after podo {} with {:?} ({})", args.join(" "), o.fired, o.brief());
        if k == 0 {
            for path in before.keys().chain(after.keys()).collect::<BTreeSet<_>>() {
                if path.ends_with('/') || !counts(path) && !before.contains_key(path) {
                    continue;
                }
                let (b, a, n) = (before.get(path), after.get(path), now.get(path));
                // the name of a version depends on when it is made
                ensure!(
                    n == b || n == a || (b.is_none() && n.is_none()),
                    "{} the file {} has neither its old nor its new content: {:?}",
                    what,
                    path,
                    n.map(|x| String::from_utf8_lossy(x).to_string())
                );
            }
            if o.ok() && !o.fired.iter().any(|f| f.starts_with("fsync")) {
                ensure!(meaningful(&now) == meaningful(&after), "{} the command reported success but its effect is not there: {}", what, diff_files(&after, &now));
            }
        }
        // nothing that was there before may disappear, whatever the number of attempts
        for (path, b) in &before {
            if path.ends_with('/') || path.starts_with(&p.hist) || path.starts_with(&p.defs) && args[0] == "clone" {
                continue;
            }
            ensure!(now.get(path) == Some(b), "{} the file {} was changed or lost", what, path);
        }
        if !init {
            let ch = match chain(&now, &p.hist, true) {
                Ok(v) => normal(&v, &known),
                Err(e) => return Err(Fail::Violation(format!("{} the history is damaged: {}", what, e))),
            };
            let old = whole(&before, &p.hist, &known).map_err(Fail::Setup)?;
            ensure!(ch == old || ch == want, "{} the history is neither the old nor the new one: {}; old {}; new {}", what, listing(&ch), listing(&old), listing(&want));
            done |= ch == want && o.ok();
            ensure!(!done || ch == want, "{} an effect that had been reported as done is gone", what);
        }
        c.decided();
        cur = now;
    }
    let _ = cur;
    // once the fault is gone the command works again
    let o = run(c, &cmd, &Plan::default());
    ensure!(o.ok(), "podo {} can not be run again after the faults: {}", args.join(" "), o.brief());
    let now = c.w.files();
    let ch = match whole(&now, &p.hist, &known) {
        Ok(v) => v,
        Err(e) => return Err(Fail::Violation(format!("after running podo {} again the history is damaged: {}", args.join(" "), e))),
    };
    ensure!(ch == want, "after running podo {} again the history is {} instead of {}", args.join(" "), listing(&ch), listing(&want));
    for (path, a) in &after {
        if !path.starts_with(&p.hist) && !path.ends_with('/') && counts(path) {
            ensure!(now.get(path) == Some(a), "after running podo {} again the file {} differs from that of an undisturbed run", args.join(" "), path);
        }
    }
    // and so does every other one
    if init {
        let cfg = config(&[("database", &c.w.url(p.db), "database/history", "database/definitions", "podo")]);
        c.w.put("new/.podo.yaml", cfg);
    }
    let mut seq: Vec<&[&str]> = vec![&["stage"], &["make", "--version", "again"], &["status"], &["reset"]];
    if c.chance(1, 2) {
        seq.swap(0, 1);
    }
    for a in seq {
        c.w.sleep(2_000_000_000);
        let o = p.go(c, a);
        ensure!(o.ok() || !fits && a[0] != "reset", "after an interrupted podo {} and a clean rerun, podo {} fails: {}", args.join(" "), a.join(" "), o.brief());
        let f = c.w.files();
        if let Err(e) = chain(&f, &p.hist, true) {
            return Err(Fail::Violation(format!("after an interrupted podo {}, podo {} leaves a damaged history: {}", args.join(" "), a.join(" "), e)));
        }
    }
    c.decided();
    Ok(())
}

/// time zones and instants around which local time repeats itself
const ZONES: &[&str] = &["UTC", "EST5EDT,M3.2.0,M11.1.0", "<+0545>-5:45", "CET-1CEST,M3.5.0,M10.5.0/3"];
const FOLDS: &[i64] = &[1_699_164_000, 1_698_541_200];

fn clock_event(c: &mut Ctx) {
    match c.draw(7) {
        0 => c.w.sleep(60_000_000_000),
        1 => {} // nothing passes but what the command itself takes
        2 => {
            let s = [1, 2, 3600, 86_400][c.w.tape.idx(4)];
            c.w.now -= s * 1_000_000_000;
            c.w.fault("clock-back");
            c.w.note(|| format!("the clock is set back by {} s", s));
        }
        3 => {
            // back to a full second already used
            c.w.now = c.w.now / 1_000_000_000 * 1_000_000_000 - 2_000_000_000;
            c.w.fault("clock-back");
        }
        4 => {
            let z = c.t().pick(ZONES).to_string();
            c.w.tz = z.clone();
            c.w.fault("time-zone-change");
            c.w.note(|| format!("the time zone becomes {}", z));
        }
        5 => {
            let f = FOLDS[c.w.tape.idx(FOLDS.len())];
            let back = c.draw(2) as i64;
            c.w.now = (f + back * 3600) * 1_000_000_000;
            c.w.tz = ZONES[if f == FOLDS[0] { 1 } else { 3 }].into();
            c.w.fault("dst-fold");
            c.w.note(|| format!("local time is in the repeated hour, pass {}", back + 1));
        }
        _ => c.w.sleep(500_000_000),
    }
}

/// labels that are no part of a file name, or an odd one
const ODD_LABELS: &[&str] = &["", "a/b", "../x", "../stage", "/", "a/../stage", "a\nb", "\t", ".", "..", "a\\b"];

/// one command of a random history; returns what was run and its outcome
fn some_command(c: &mut Ctx, h: &mut Hist, faulty: bool, fixed: Option<&[&str]>) -> (Vec<String>, Outcome) {
    let p = h.p.clone();
    let mut args: Vec<String> = match fixed.map_or_else(|| c.draw(12), |_| 99) {
        99 => fixed.unwrap().iter().map(|s| s.to_string()).collect(),
        0 | 1 | 2 => {
            let mut v = vec!["make".to_string()];
            if c.chance(2, 3) {
                v.push("--version".into());
                // mostly few labels, that come again
                let l = if c.chance(1, 2) { &LABELS[..4] } else { LABELS };
                v.push(c.t().pick(l).to_string());
            }
            v
        }
        3 | 4 | 5 => vec!["stage".into()],
        6 => vec!["reset".into()],
        7 => vec!["status".into()],
        8 => vec!["up".into()],
        9 => vec!["down".into()],
        10 => vec!["init".into()],
        _ => vec!["clone".into()],
    };
    if fixed.is_none() && args[0] == "make" && c.chance(1, 12) {
        args.truncate(1);
        args.push("--version".into());
        args.push(match c.draw(3) {
            0 => c.t().pick(ODD_LABELS).to_string(),
            1 => "é漢😀".repeat(10 + c.draw(40) as usize),
            _ => "x".repeat(100 + c.draw(40) as usize),
        });
    }
    let v: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let cmd = p.cmd(c, &v);
    let mut plan = Plan::default();
    if faulty && args[0] == "make" && c.chance(1, 3) {
        // it can not find out what there is
        let (d, _) = dry(c, &cmd);
        let stats: Vec<usize> = (0..d.ops.len()).filter(|i| d.ops[*i].0 == STAT && d.ops[*i].1.starts_with(&p.hist)).collect();
        if !stats.is_empty() {
            let at = stats[c.w.tape.idx(stats.len())] as u64;
            let what = What::Errno(*c.t().pick(&[libc::EIO, libc::EACCES, libc::ENOMEM]));
            plan.fs.push(FsFault { at, what, sticky: false });
        }
    } else if faulty && c.chance(1, 4) {
        let (d, _) = dry(c, &cmd);
        plan = c.with(|t| faults(t, &d, true, true));
    } else if c.chance(1, 8) {
        plan.soft = c.with(soft);
    }
    let o = c.w.run(&cmd, &plan);
    seen(c);
    (args, o)
}

pub fn p02(c: &mut Ctx) -> Res {
    let mut h = project(c, 1, 2)?;
    let faulty = c.chance(1, 3);
    let mut made_files: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    let mut last = c.w.files();
    for v in made(&h.p.the_chain(&c.w)?) {
        let k = format!("{}/{}.yaml", h.p.hist, v.name);
        made_files.insert(k.clone(), last[&k].clone());
    }
    // a clock that stands still while one version after the other is made, with the same label
    let frozen = if c.chance(1, 3) { Some(c.w.now) } else { None };
    for round in 0..4 + c.draw(8) {
        c.t().begin();
        if frozen.is_none() {
            clock_event(c);
        }
        let step = frozen.filter(|_| c.chance(5, 6)).map(|t| {
            if round == 4 {
                // a version in between that is not of that second
                c.w.now = t + 5_000_000_000;
            } else {
                c.w.now = t;
            }
            round % 2
        });
        let fixed: Option<&[&str]> = match step {
            Some(0) => Some(&["stage"]),
            Some(_) => Some(&["make", "--version", "v"]),
            None => None,
        };
        if step == Some(0) || step.is_none() && c.chance(1, 2) {
            let n = 1 + c.draw(2);
            let d = h.defs.clone();
            // what is staged does not matter here, only that there is something to stage
            h.staged = d.clone();
            h.edit(c, n);
        }
        let stage_before = last.get(&format!("{}/stage.yaml", h.p.hist)).and_then(|b| Ver::parse(b).ok());
        let eff_before = chain(&last, &h.p.hist, true).ok();
        let (args, o) = some_command(c, &mut h, faulty, fixed);
        let now = c.w.files();
        let what = format!("podo {} ({}) at local second {} in {}", args.join(" "), o.brief(), c.w.now / 1_000_000_000, c.w.tz);
        for (k, b) in &made_files {
            ensure!(now.get(k).is_some(), "{} removed the made version {}", what, k);
            ensure!(now.get(k) == Some(b), "{} changed the made version {}", what, k);
        }
        let pre = format!("{}/", h.p.hist);
        let new: Vec<String> = now
            .keys()
            .filter(|k| k.starts_with(&pre) && !k[pre.len()..].contains('/') && k.ends_with(".yaml") && !made_files.contains_key(*k) && !k.ends_with("/stage.yaml") && !k.ends_with("/init.yaml"))
            .cloned()
            .collect();
        if args[0] == "make" && o.ok() {
            let full = eff_before.as_ref().and_then(|e| e.last()).map_or(false, |s| !s.empty());
            if full {
                ensure!(new.len() == 1, "{} reported success and added {} versions", what, new.len());
                let v = Ver::parse(&now[&new[0]]).map_err(|e| Fail::Violation(format!("{} wrote an unreadable version: {}", what, e)))?;
                ensure!(stage_before.as_ref().map_or(false, |s| s.same_content(&v)), "{} did not make what was staged", what);
                c.decided();
            } else {
                ensure!(new.is_empty(), "{} made a version out of an empty stage", what);
            }
        } else if args[0] == "make" {
            ensure!(new.len() <= 1, "{} added {} versions", what, new.len());
        } else {
            ensure!(new.is_empty(), "{} added the version {:?}", what, new);
        }
        for k in new {
            made_files.insert(k.clone(), now[&k].clone());
        }
        last = now;
        c.t().end();
    }
    c.decided();
    Ok(())
}

pub fn p03(c: &mut Ctx) -> Res {
    c.w.lazy = true;
    let mut h = project(c, 1, 2)?;
    let mut order: Vec<String> = made(&h.p.the_chain(&c.w)?).into_iter().map(|v| v.name).collect();
    let mut lenient = false;
    // made by a command that reported success; what an interrupted make has made may still be lost with the power
    let mut sure = order.len();
    for _ in 0..4 + c.draw(8) {
        c.t().begin();
        if c.chance(3, 4) {
            c.w.sleep(2_000_000_000);
        } else {
            clock_event(c);
        }
        if c.chance(1, 2) {
            let d = h.defs.clone();
            h.staged = d;
            let n = 1 + c.draw(2);
            h.edit(c, n);
        }
        let (args, o) = some_command(c, &mut h, true, None);
        ensure!(!o.stuck, "podo {} did not terminate", args.join(" "));
        let disturbed = o.killed || !o.fired.is_empty();
        if args[0] == "make" && disturbed {
            lenient = true;
        }
        let f = c.w.files();
        let what = format!("after podo {} ({}{})", args.join(" "), o.brief(), if o.fired.is_empty() { String::new() } else { format!(", {:?}", o.fired) });
        let ch = match chain(&f, &h.p.hist, lenient) {
            Ok(v) => v,
            Err(e) => return Err(Fail::Violation(format!("{} the version files are not one chain from init to stage: {}", what, e))),
        };
        let now: Vec<String> = made(&ch).into_iter().map(|v| v.name).collect();
        let firm = if o.fired.iter().any(|f| f.contains("power-loss")) { &order[..sure] } else { &order[..] };
        ensure!(now.starts_with(firm), "{} the made versions are {:?}, before they were {:?}", what, now, order);
        if o.ok() && args[0] == "make" {
            sure = now.len();
        }
        sure = sure.min(now.len());
        ensure!(now.len() <= order.len() + (args[0] == "make") as usize, "{} there are new versions: {:?} after {:?}", what, now, order);
        if lenient && chain(&f, &h.p.hist, false).is_ok() && c.w.disk.unsynced() == 0 {
            // not even a power loss brings the interrupted make back
            lenient = false;
        }
        order = now;
        c.decided();
        c.t().end();
    }
    Ok(())
}

pub fn p04(c: &mut Ctx) -> Res {
    let mut h = project(c, 1, 2)?;
    for _ in 0..4 + c.draw(8) {
        c.t().begin();
        c.w.sleep(2_000_000_000);
        if c.chance(1, 8) {
            h.by_hand(c)?;
        }
        let b = h.p.the_chain(&c.w)?;
        let bf = c.w.files();
        let st = b.last().unwrap().clone();
        let op = c.draw(6);
        let run = |c: &mut Ctx, a: &[&str]| -> Res<(Vec<Ver>, Files, String)> {
            let o = h.p.go_linked(c, a)?;
            if !o.ok() {
                return Err(stopped(a[0], &o));
            }
            let f = c.w.files();
            let ch = chain(&f, &h.p.hist, false).map_err(|e| Fail::Violation(format!("after podo {}: {}", a[0], e)))?;
            Ok((ch, f, o.out))
        };
        let others = |f: &Files, hist: &str| -> Files { meaningful(f).into_iter().filter(|(k, _)| *k != format!("{}/stage.yaml", hist)).collect() };
        match op {
            0 | 1 | 2 => {
                let mut d = h.defs.clone();
                if c.chance(4, 5) {
                    let n = 1 + c.draw(3);
                    let s = if c.chance(1, 5) { d.clone() } else { h.staged.clone() };
                    h.staged = s;
                    h.edit(c, n);
                    d = h.defs.clone();
                }
                let bf = c.w.files();
                let (a, f, out) = {
                    let o = h.p.go_linked(c, &["stage"])?;
                    if !o.ok() {
                        return Err(stopped("stage", &o));
                    }
                    let f = c.w.files();
                    let out = o.out.clone();
                    let (a, f) = (chain(&f, &h.p.hist, false).map_err(|e| Fail::Violation(format!("after podo stage: {}", e)))?, f);
                    (a, f, out)
                };
                h.staged = d;
                let new = a.last().unwrap();
                ensure!(others(&f, &h.p.hist) == others(&bf, &h.p.hist), "stage changed other files: {}", diff_files(&others(&bf, &h.p.hist), &others(&f, &h.p.hist)));
                ensure!(new.previous == st.previous, "stage changed the predecessor of the stage");
                ensure!(new.up.starts_with(&st.up), "stage did not keep the staged up statements in front: {:?} became {:?}", st.up, new.up);
                ensure!(new.down.ends_with(&st.down), "stage did not keep the staged down statements at the end: {:?} became {:?}", st.down, new.down);
                ensure!(new.changes.starts_with(&st.changes), "stage did not keep the staged changes");
                let (u, d, k) = (new.up.len() - st.up.len(), new.down.len() - st.down.len(), new.changes.len() - st.changes.len());
                ensure!(u == k && d == k, "stage added {} changes, {} up and {} down statements", k, u, d);
                // what it says it staged
                ensure!(out.lines().any(|l| l.trim() == "No changes to stage.") == (u == 0), "stage added {} statements and says {:?}", u, out);
                let mut rest = &out[..];
                for s in &new.up[st.up.len()..] {
                    let Some(i) = rest.find(s.as_str()) else {
                        return Err(Fail::Violation(format!("stage added {:?} and does not say so: {:?}", s, out)));
                    };
                    rest = &rest[i + s.len()..];
                }
                c.decided();
            }
            3 | 4 => {
                let l = Hist::label(c);
                let (a, f, out) = match &l {
                    Some(l) => run(c, &["make", "--version", l])?,
                    None => run(c, &["make"])?,
                };
                if st.empty() {
                    ensure!(meaningful(&f) == meaningful(&bf), "make on an empty stage changed files: {}", diff_files(&bf, &f));
                } else {
                    ensure!(a.len() == b.len() + 1, "make did not add exactly one version");
                    let v = &a[a.len() - 2];
                    ensure!(v.changes == st.changes, "make changed the list of changes");
                    ensure!(v.up == st.up, "make changed the up statements: {:?} became {:?}", st.up, v.up);
                    ensure!(v.down == st.down, "make changed the down statements: {:?} became {:?}", st.down, v.down);
                    ensure!(v.previous == st.previous, "make changed the predecessor");
                    ensure!(a.last().unwrap().empty(), "make left statements in the stage: {:?}", a.last().unwrap().up);
                    if let Some(l) = &l {
                        ensure!(v.name.ends_with(&format!("-{}", l)), "make was given the label {} and made {}", l, v.name);
                    }
                    ensure!(out.contains(&v.name), "make made {} and says {:?}", v.name, out);
                    let own = format!("{}/{}.yaml", h.p.hist, v.name);
                    let mut rest = others(&f, &h.p.hist);
                    rest.remove(&own);
                    ensure!(rest == others(&bf, &h.p.hist), "make changed other files: {}", diff_files(&others(&bf, &h.p.hist), &rest));
                }
                c.decided();
            }
            _ => {
                let (a, f, _) = run(c, &["reset"])?;
                ensure!(a.last().unwrap().empty(), "reset left statements in the stage");
                ensure!(a.last().unwrap().previous == st.previous, "reset changed the predecessor of the stage");
                ensure!(others(&f, &h.p.hist) == others(&bf, &h.p.hist), "reset changed other files: {}", diff_files(&others(&bf, &h.p.hist), &others(&f, &h.p.hist)));
                // what the versions build is what the next stage starts from
                h.staged = h.steps_model(&made(&a));
                c.decided();
            }
        }
        c.t().end();
    }
    Ok(())
}
impl Hist {
    /// the model of the last made version known; the whole definitions if it is not known
    fn steps_model(&self, _made: &[Ver]) -> Model {
        self.defs.clone()
    }
}

/// what the statements build in an empty database
pub fn executed(ch: &[Ver]) -> Result<dump::Dump, String> {
    let mut s = bare_server();
    for v in ch {
        s.batch(&v.up).map_err(|e| format!("{} in {}", e.msg, v.name))?;
    }
    Ok(dump::catalog(&s.db, &[]))
}
fn unstaged(out: &str) -> String {
    out.split("Changes not staged:\n").nth(1).unwrap_or("").to_string()
}

pub fn p05(c: &mut Ctx) -> Res {
    let mut h = project(c, 1, 4)?;
    for _ in 0..2 + c.draw(3) {
        c.t().begin();
        // often a single edit, so that nothing else gives a difference away
        let n = if c.chance(1, 2) { 1 } else { 1 + c.draw(6) };
        h.edit(c, n);
        let before = h.p.the_chain(&c.w)?;
        let differs = h.defs.catalog().map_err(Fail::Setup)? != h.staged.catalog().map_err(Fail::Setup)?;
        let o = h.p.go(c, &["stage"]);
        ensure!(o.ok(), "stage fails on valid definitions: {}", o.brief());
        h.staged = h.defs.clone();
        let ch = h.p.the_chain(&c.w)?;
        let grew = ch.last().unwrap().up.len() - before.last().unwrap().up.len();
        ensure!(grew > 0 || !differs, "the definitions changed but stage added nothing");
        if let Ok(got) = executed(&ch) {
            let want = h.defs.catalog().map_err(Fail::Setup)?;
            ensure!(got == want, "what was staged does not lead to the definitions: {}", few(dump::diff(&want, &got)));
        }
        let mut rounds = 1 + c.draw(2);
        if c.chance(1, 2) {
            h.make(c)?;
            rounds += 1;
        }
        for _ in 0..rounds {
            let ch = h.p.the_chain(&c.w)?;
            if c.chance(1, 3) {
                let m = h.defs.clone();
                let l = 1 + c.draw(1 << 16);
                h.p.write_defs(c, &m, l);
            }
            let o = h.p.go(c, &["status"]);
            ensure!(o.ok(), "status fails: {}", o.brief());
            ensure!(!o.out.contains("Changes not staged"), "status reports unstaged changes right after stage: {}", unstaged(&o.out).trim());
            let o = h.p.go(c, &["stage"]);
            ensure!(o.ok(), "a second stage fails: {}", o.brief());
            let ch2 = h.p.the_chain(&c.w)?;
            ensure!(ch2 == ch, "a second stage, with unchanged definitions, added {:?}", &ch2.last().unwrap().up[ch.last().unwrap().up.len().min(ch2.last().unwrap().up.len())..]);
            c.decided();
        }
        c.w.sleep(2_000_000_000);
        c.t().end();
    }
    Ok(())
}

pub fn p06(c: &mut Ctx) -> Res {
    let mut h = project(c, 2, 4)?;
    let n = 2 + c.draw(8);
    h.edit(c, n);
    if c.chance(1, 4) {
        h.stage(c)?;
        let n = 1 + c.draw(4);
        h.edit(c, n);
    }
    let m = h.defs.clone();
    let base_layout = 0;
    h.p.write_defs(c, &m, base_layout);
    let cmd = h.p.cmd(c, &["stage"]);
    let (o, twin) = dry(c, &cmd);
    if !o.ok() {
        return Err(stopped("stage", &o));
    }
    let want = setup(h.p.chain(&twin, false))?;
    for _ in 0..2 + c.draw(2) {
        c.t().begin();
        let mut w = c.fork();
        let layout = if c.chance(2, 3) { 1 + c.draw(1 << 20) } else { 0 };
        write_defs_to(&mut w, &h.p.defs, &m.render(layout));
        let mut v = h.p.cmd(c, &["stage"]);
        v.cwd = cmd.cwd.clone();
        let (a, b) = (c.draw(1 << 30), c.draw(1 << 30));
        v.seed = crate::tape::mix(a);
        v.dirseed = b;
        v.dtunknown = c.chance(1, 3);
        w.now += c.draw(1 << 30) as i64 * 1_000_000;
        w.tz = c.t().pick(ZONES).to_string();
        let mut plan = Plan::default();
        if c.chance(1, 4) {
            plan.soft = c.with(soft);
        }
        let o2 = w.run(&v, &plan);
        for (k, n) in std::mem::take(&mut w.stats.faults) {
            *c.w.stats.faults.entry(k).or_default() += n;
        }
        c.w.stats.commands += 1;
        c.w.note(|| format!("twin with hash seed {}, directory seed {}, layout {}", v.seed, v.dirseed, layout));
        ensure!(o2.ok(), "stage fails under another hash seed, directory order or layout: {}", o2.brief());
        let got = setup(h.p.chain(&w, false))?;
        let (g, x) = (got.last().unwrap(), want.last().unwrap());
        ensure!(g.up == x.up, "stage recorded {:?} in one run and {:?} in another with the same definitions and history", first_diff(&x.up, &g.up).0, first_diff(&x.up, &g.up).1);
        ensure!(g.down == x.down, "stage recorded the way down {:?} in one run and {:?} in another", first_diff(&x.down, &g.down).0, first_diff(&x.down, &g.down).1);
        ensure!(g.changes == x.changes, "stage recorded different changes in two runs");
        ensure!(o2.out == o.out, "stage printed different statements in two runs");
        if !x.up.is_empty() {
            c.decided();
        }
        c.t().end();
    }
    Ok(())
}
fn first_diff(a: &[String], b: &[String]) -> (Vec<String>, Vec<String>) {
    let k = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    (a[k..].iter().take(3).cloned().collect(), b[k..].iter().take(3).cloned().collect())
}

// ---- P16

/// what no schema can contain
const MISFITS: &[&str] = &[
    "view zzv: {as: SELECT 1 AS a, using: btree}",
    "view zzv: {as: SELECT 1 AS a, bogus: 1}",
    "view zzv: {as: [SELECT 1 AS a]}",
    "view: {as: SELECT 1 AS a}",
    "table: {column a: int4}",
    "table zz: {column: int4}",
    "table zz: {column a: int4, as: x}",
    "table zz: {column a: int4, bogus: x}",
    "table zz: {column a: {type: int4, bogus: x}}",
    "table zz: {column a: {default: 1}}",
    "table zz: {column a: int4, constraint k: {unique: a, check: a > 1}}",
    "table zz: {column a: int4, constraint k: {unique: a, bogus: 1}}",
    "table zz: {column a: int4, constraint k: {check: a > 1, bogus: 1}}",
    "table zz: {column a: int4, constraint k: {check: a > 1, using: btree}}",
    "table zz: {column a: int4, constraint k: {check: 5}}",
    "table zz: {column a: int4, constraint: {check: a > 1}}",
    "table zz: {column a: int4, constraint k: {primary key: [a], using: 1}}",
    "table zz: {column a: int4, constraint k: {primary key: {}}}",
    "table zz: {column a: int4, constraint k: {unique: []}}",
    "table zz: {column a: int4, constraint k: {unique: a, deferrable: 3}}",
    "table zz: {column a: int4, constraint k: {unique: a, initially deferred: often}}",
    "table zz: {column a: int4, constraint k: {foreign key: a, references: b}}",
    "table zz: {column a: int4, constraint k: {foreign key: a, references zz: a, bogus: 1}}",
    "table zz: {column a: int4, constraint k: {foreign key: a, references zz: a, using: btree}}",
    "table zz: {column a: int4, constraint k: {foreign key: a, references zz: a, on delete: 5}}",
    "table zz: {column a: int4, constraint k: {foreign key: a, references a.b.c: a}}",
    "sequence zzq: {increment: 1.5}",
    "sequence zzq: {increment: 2, column a: int4}",
    "sequence zzq: {increment: 2, bogus: 1}",
    "sequence zzq: {cycle: 1}",
    "sequence zzq: {as: foo}",
    "sequence zzq: {cache: lots}",
    "sequence zzq: {start: [1]}",
    "sequence zzq: []",
    "sequence: {increment: 2}",
    "function zzf: {as: SELECT 1, returns: int4, language: sql, bogus: 1}",
    "function zzf: {as: SELECT 1, returns: int4, language: sql, using: x}",
    "function zzf: {as: SELECT 1, returns: [int4], language: sql}",
    "function zzf: {returns: int4, language: sql}",
    "function: {as: SELECT 1, returns: int4, language: sql}",
    "table zz: {column a: int4}, index zzi: {on zz: a, bogus: 1}",
    "table zz: {column a: int4}, index zzi: {on zz: a, as: 1}",
    "table zz: {column a: int4}, index zzi: {on: a}",
    "table zz: {column a: int4}, index zzi: {on zz: a, unique: 3}",
    "table zz: {column a: int4}, index zzi: {on zz: a, using: [btree]}",
    "table zz: {column a: int4}, index: {on zz: a}",
    "column a: int4",
    "bogus a: int4",
    "schema a: {}",
    "5: {}",
    "table zz: []",
    "table zz: [{column a: int4}]",
    "table zz: {[a]: int4}",
    "table zz: hello",
    "view zzv: hello",
    "index zzi: hello",
    "function zzf: hello",
    "sequence zzq: hello",
    "table zz: {column a: 5}",
    "table zz: {column a: true}",
    "table zz: {column a: !t int4}",
    "table zz: {column a: int4, constraint k: {primary key: []}}",
    "table zz: {column a: int4, constraint k: {foreign key: [], references zz: a}}",
    "table zz: {column a: int4, constraint k: {foreign key: a, references zz: []}}",
    "table zz: {column a: int4, constraint k: {check: ''}}",
    "table zz: {column a: int4}, index zzi: {on zz: []}",
    "view zzv: {as: ' '}",
    "table zz: {column a: ''}",
    "table zz: {column a: '!'}",
    "table zz: {column a: '= 3'}",
];
enum Bad {
    Defs,
    Hist,
    /// the versions contradict each other
    Snap,
}
/// makes one file wrong in a way that leaves no doubt
fn corrupt(c: &mut Ctx, h: &Hist) -> Option<(Bad, String)> {
    let files = c.w.files();
    let defs: Vec<String> = under(&files, &h.p.defs).into_keys().filter(|k| k.ends_with(".yaml")).collect();
    let hist: Vec<String> = under(&files, &h.p.hist).into_keys().filter(|k| k.ends_with(".yaml")).collect();
    let some_table = h.defs.schemas.iter().find_map(|(s, x)| x.tables.iter().next().map(|(n, t)| (s.clone(), n.clone(), t.clone())));
    let some_schema = h.defs.schemas.keys().next().cloned()?;
    let extra = ["zz.yaml", "sub/zz.yaml", "aa.yaml"][c.w.tape.idx(3)];
    let extra = format!("{}/{}", h.p.defs, extra);
    let kind = c.draw(42);
    let obj = |body: &str| format!("schema {}:\n{}", some_schema, body);
    let yes = |c: &mut Ctx, f: &str, t: &[u8], d: &str| {
        c.w.put(f, t);
        Some((Bad::Defs, format!("{} in {}", d, f)))
    };
    match kind {
        0 => yes(c, &extra, b"schema public: {table x: [}\n", "invalid YAML"),
        1 => yes(c, &extra, b"- a\n- list\n", "a list instead of schemas"),
        2 => yes(c, &extra, b"\xff\xfe not text", "bytes that are not text"),
        3 => yes(c, &extra, b"shcema public: {}\n", "an unknown keyword"),
        4 => yes(c, &extra, obj("  tabel x:\n    column a: int4\n").as_bytes(), "an unknown keyword"),
        5 => yes(c, &extra, obj("  table zz:\n    colum a: int4\n").as_bytes(), "an unknown keyword"),
        6 => yes(c, &extra, obj("  table zz: 5\n").as_bytes(), "a number instead of a table"),
        7 => yes(c, &extra, obj("  table zz:\n    column a: [int4]\n").as_bytes(), "a list instead of a column type"),
        8 => yes(c, &extra, obj("  table zz:\n    column a: int4\n    constraint k: {}\n").as_bytes(), "a constraint without a kind"),
        9 => yes(c, &extra, obj("  table zz:\n    column a: int4\n    constraint k:\n      foreign key: a\n").as_bytes(), "a foreign key without a target"),
        10 => yes(c, &extra, obj("  sequence zzq:\n    increment: many\n").as_bytes(), "a word instead of a number"),
        11 => yes(c, &extra, obj("  sequence zzq:\n    incremnt: 2\n").as_bytes(), "an unknown key"),
        12 => yes(c, &extra, obj("  index zzi:\n    unique: true\n").as_bytes(), "an index without a table"),
        13 => yes(c, &extra, obj("  function zzf: {}\n").as_bytes(), "a function without a body"),
        14 => yes(c, &extra, obj("  view zzv: {}\n").as_bytes(), "a view without a query"),
        15 | 16 => {
            // the same object twice
            let (s, n, t) = some_table?;
            let col = t.cols.first().map(|c| format!("\n    {}: {}", yaml_str(&format!("column {}", c.name)), c.ty)).unwrap_or(" {}".into());
            let txt = format!("{}:\n  {}:{}\n", yaml_str(&format!("schema {}", s)), yaml_str(&format!("table {}", n)), col);
            yes(c, &extra, txt.as_bytes(), "a second definition of a table")
        }
        17 | 22..=26 => {
            // what else there is, a second time
            let mut have = vec![];
            for (s, x) in &h.defs.schemas {
                have.extend(x.seqs.keys().map(|n| (s, "sequence", n)));
                have.extend(x.funcs.keys().map(|n| (s, "function", n)));
                have.extend(x.views.keys().map(|n| (s, "view", n)));
                have.extend(x.indexes.keys().map(|n| (s, "index", n)));
                // a relation of another kind with the name
                have.extend(x.tables.keys().map(|n| (s, "sequence", n)));
                have.extend(x.seqs.keys().map(|n| (s, "table", n)));
                have.extend(x.indexes.keys().map(|n| (s, "view", n)));
                have.extend(x.views.keys().map(|n| (s, "index", n)));
            }
            if have.is_empty() {
                return None;
            }
            let (s, key, n) = have[c.w.tape.idx(have.len())];
            let body = match key {
                "function" => "{as: SELECT 1, returns: int4, language: sql}".to_string(),
                "view" => "{as: SELECT 1 AS a}".to_string(),
                "index" => {
                    let (n, t) = h.defs.schemas[s].tables.iter().find(|(_, t)| !t.cols.is_empty())?;
                    format!("{{{}: {}}}", yaml_str(&format!("on {}", n)), yaml_str(&t.cols[0].name))
                }
                _ => "{}".to_string(),
            };
            let txt = format!("{}:\n  {}: {}\n", yaml_str(&format!("schema {}", s)), yaml_str(&format!("{} {}", key, n)), body);
            yes(c, &extra, txt.as_bytes(), &format!("a second definition of a {}", key))
        }
        27 | 28 => {
            // twice in one file
            let txt = match c.draw(7) {
                4 => "  table zz:\n    column a: int4\n    COLUMN a: int8\n",
                5 => "  table zz:\n    column a: int4\n    constraint k:\n      unique: a\n    constraint  k:\n      primary key: a\n",
                6 => "  sequence zzq:\n    increment: 2\n  sequence   zzq:\n    increment: 3\n",
                0 => "  table zz:\n    column a: int4\n    column a: int8\n",
                1 => "  table zz:\n    column a: int4\n  table zz:\n    column b: int4\n",
                2 => "  table zz:\n    column a: int4\n    constraint k:\n      unique: a\n    constraint k:\n      primary key: a\n",
                _ => "  sequence zzq:\n    increment: 2\n  sequence zzq:\n    increment: 3\n",
            };
            yes(c, &extra, obj(txt).as_bytes(), "something defined twice in one file")
        }
        40 | 41 => {
            // a change that was recorded twice, as a merge by hand leaves it
            let mut can = vec![];
            for f in &hist {
                if let Ok(v) = Ver::parse(&files[f]) {
                    for (i, x) in v.changes.iter().enumerate() {
                        let t = x["type"].as_str().unwrap_or("");
                        if t.starts_with("Create") || t.starts_with("Add") {
                            can.push((f.clone(), v.clone(), i));
                        }
                    }
                }
            }
            let (f, mut v, i) = c.t().pick(&can).clone();
            let x = v.changes[i].clone();
            v.changes.insert(i, x);
            c.w.put(&f, version_yaml(&v));
            Some((Bad::Snap, format!("a change twice in {}", f)))
        }
        29..=39 => {
            let x = MISFITS[c.w.tape.idx(MISFITS.len())];
            let txt = format!("{}: {{{}}}\n", yaml_str(&format!("schema {}", some_schema)), x);
            yes(c, &extra, txt.as_bytes(), &format!("what no schema can contain: {}", x))
        }
        18 => {
            if defs.is_empty() {
                return None;
            }
            // the end of a file is garbage
            let f = c.t().pick(&defs).clone();
            let mut t = files[&f].clone();
            t.extend_from_slice(b"\n\t]: }{\n");
            c.w.put(&f, t);
            Some((Bad::Defs, format!("garbage at the end of {}", f)))
        }
        19 | 20 => {
            let f = c.t().pick(&hist).clone();
            let mut t = files[&f].clone();
            match c.draw(6) {
                // a version file without one of its entries, or with one that is not a list
                k @ (4 | 5) => {
                    let mut v: serde_yaml::Mapping = serde_yaml::from_slice(&t).ok()?;
                    let key = *c.t().pick(&["name", "changes", "up", "down"]);
                    if k == 4 {
                        v.remove(key);
                    } else {
                        v.insert(key.into(), serde_yaml::from_str("{a: 5}").unwrap());
                    }
                    t = serde_yaml::to_string(&v).unwrap().into_bytes();
                }
                0 => t.truncate(0),
                1 => {
                    // a version file that was cut before its last list
                    let s = String::from_utf8_lossy(&t).to_string();
                    let cut = s.rfind("\ndown:")?;
                    t.truncate(cut + 1);
                }
                2 => t.extend_from_slice(b"\n\t]: }{\n"),
                _ => t = b"name: 5\n".to_vec(),
            }
            c.w.put(&f, t);
            Some((Bad::Hist, format!("{} is damaged", f)))
        }
        _ => {
            // an entry for a change nobody knows
            let f = hist.iter().find(|f| Ver::parse(&files[*f]).map_or(false, |v| !v.changes.is_empty()))?.clone();
            let mut v = Ver::parse(&files[&f]).unwrap();
            let k = c.w.tape.idx(v.changes.len());
            v.changes[k]["type"] = format!("X{}", v.changes[k]["type"].as_str().unwrap_or("")).into();
            c.w.put(&f, version_yaml(&v));
            Some((Bad::Hist, format!("an unknown change in {}", f)))
        }
    }
}
pub fn p16(c: &mut Ctx) -> Res {
    let mut h = project(c, 2, 3)?;
    prepare(c, &mut h)?;
    if c.chance(1, 2) {
        let m = h.defs.clone();
        let l = 1 + c.draw(1 << 16);
        h.p.write_defs(c, &m, l);
    }
    let p = h.p.clone();
    if c.chance(1, 2) && !h.steps.is_empty() {
        let k = c.w.tape.idx(h.steps.len());
        p.go(c, &["up", "--version", &h.steps[k].0.clone()]);
    }
    if c.chance(1, 6) {
        return beside(c, &h);
    }
    // one thing after the other, each for itself
    let keep = c.fork();
    for k in 0..1 + c.draw(6) {
        c.t().begin();
        if k > 0 {
            c.w.restore(&keep);
        }
        if c.chance(3, 5) {
            wrong(c, &h)?;
        } else {
            unreadable(c, &h)?;
        }
        c.t().end();
    }
    Ok(())
}
/// a file that is wrong
fn wrong(c: &mut Ctx, h: &Hist) -> Res {
    let p = h.p.clone();
    let Some((bad, what)) = corrupt(c, h) else { return Ok(()) };
    c.w.note(|| format!("now there is {}", what));
    c.w.stats.count(&format!("defect: {}", what.split(" in ").next().unwrap_or("").split(&['/', ':']).next().unwrap_or("")));
    let which = c.draw(6);
    let args: &[&str] = match (&bad, which) {
        (_, 0 | 1 | 2) => &["stage"],
        (Bad::Defs | Bad::Snap, _) => &["status"],
        (Bad::Hist, 3) => &["status"],
        (Bad::Hist, 4) => &["up"],
        (Bad::Hist, _) => &["make"],
    };
    let (f, s) = (c.w.files(), p.state(&c.w));
    let cmd = p.cmd(c, args);
    let o = run(c, &cmd, &Plan::default());
    ensure!(!o.ok(), "podo {} succeeds although there is {}", args[0], what);
    ensure!(!o.err.is_empty() && !o.err.contains("panicked at"), "podo {} does not say why it failed on {}: {}", args[0], what, o.err.trim());
    ensure!(meaningful(&c.w.files()) == meaningful(&f), "podo {} failed on {} but changed files: {}", args[0], what, diff_files(&f, &c.w.files()));
    let s2 = p.state(&c.w);
    ensure!(s2 == s, "podo {} failed on {} but changed the database: {}", args[0], what, s.diff(&s2));
    c.decided();
    Ok(())
}
/// files that can not be read
fn unreadable(c: &mut Ctx, h: &Hist) -> Res {
    let p = h.p.clone();
    // files that can not be read
    let args: &[&str] = match c.draw(6) {
        0 | 1 | 2 => &["stage"],
        3 => &["make"],
        4 => &["up"],
        _ => &["status"],
    };
    let cmd = p.cmd(c, args);
    let (d, twin) = dry(c, &cmd);
    let reads: Vec<usize> = (0..d.ops.len())
        .filter(|i| {
            let (op, path, fl) = &d.ops[*i];
            (path.starts_with("database") || path.starts_with(".podo")) && (matches!(*op, READ | OPENDIR | STAT) || *op == OPEN && !mutating(&(*op, path.clone(), *fl)))
        })
        .collect();
    // opening a directory to sync it comes after the work
    let last_write = d.ops.iter().position(mutating).unwrap_or(d.ops.len());
    let reads: Vec<usize> = reads.into_iter().filter(|i| *i < last_write).collect();
    if reads.is_empty() || !d.ok() {
        return Ok(());
    }
    let at = reads[c.w.tape.idx(reads.len())];
    let what = match d.ops[at].0 {
        OPENDIR => {
            let k = c.draw(5) as i64;
            match c.draw(4) {
                0 => What::Errno(libc::EACCES),
                1 => What::Errno(libc::EMFILE),
                _ => What::DirErr(libc::EIO, k),
            }
        }
        READ => What::Errno(libc::EIO),
        STAT => What::Errno(*c.t().pick(&[libc::EIO, libc::EACCES])),
        _ => What::Errno(*c.t().pick(&[libc::EACCES, libc::EIO, libc::EMFILE, libc::ENFILE])),
    };
    let plan = Plan { fs: vec![FsFault { at: at as u64, what: what.clone(), sticky: false }], ..Plan::default() };
    let (f, s) = (c.w.files(), p.state(&c.w));
    let o = run(c, &cmd, &plan);
    if o.fired.is_empty() {
        return Ok(());
    }
    let where_ = format!("{} at {} of {}", what.name(), opname(d.ops[at].0), d.ops[at].1);
    let (f2, s2) = (c.w.files(), p.state(&c.w));
    if o.ok() {
        // then it must have done everything
        let known = names(&p.the_chain(&c.w)?);
        let (a, b) = (setup(p.chain(&c.w, true))?, setup(p.chain(&twin, true))?);
        ensure!(normal(&a, &known) == normal(&b, &known) || args[0] == "make", "podo {} succeeded after {} with another result: stage has {} statements instead of {}", args[0], where_, a.last().unwrap().up.len(), b.last().unwrap().up.len());
        ensure!(s2 == p.state(&twin), "podo {} succeeded after {} with another result: {}", args[0], where_, p.state(&twin).diff(&s2));
        ensure!(args[0] != "status" || o.out == d.out, "status reports something else after {}", where_);
    } else {
        ensure!(meaningful(&f2) == meaningful(&f), "podo {} failed because of {} but changed files: {}", args[0], where_, diff_files(&f, &f2));
        ensure!(s2 == s, "podo {} failed because of {} but changed the database: {}", args[0], where_, s.diff(&s2));
    }
    c.decided();
    Ok(())
}

/// a command reads the files while another one writes them: it sees them as they were before or as they are after, or it
/// refuses
fn beside(c: &mut Ctx, h: &Hist) -> Res {
    let p = h.p.clone();
    for _ in 0..1 + c.draw(3) {
        c.t().begin();
        let (reader, writer): (Vec<&str>, &str) = match c.draw(8) {
            0 | 1 => (vec!["stage"], "clone"),
            k => (if k < 6 { vec!["up"] } else { vec!["down"] }, *c.t().pick(&["make", "make", "stage", "reset"])),
        };
        let (r, w) = (p.cmd(c, &reader), p.cmd(c, &[writer]));
        let quiet = |c: &mut Ctx, cmds: &[&Cmd]| {
            let mut t = c.fork();
            let outs: Vec<Outcome> = cmds.iter().map(|x| t.run(x, &Plan::default())).collect();
            c.w.stats.commands += outs.len() as u64;
            (outs, t)
        };
        let (alone, twin_alone) = quiet(c, &[&w]);
        if !alone[0].ok() {
            return Err(Fail::Setup(format!("{}: {}", writer, alone[0].brief())));
        }
        let (first, twin_first) = quiet(c, &[&r, &w]);
        let (then, twin_then) = quiet(c, &[&w, &r]);
        let mut plans = vec![Plan::default(), Plan::default()];
        if c.chance(1, 4) {
            plans[0].soft = c.with(soft);
            plans[1].soft = c.with(soft);
        }
        let sched = match c.draw(5) {
            0 | 1 => Sched::Uniform,
            2 => Sched::Bursts(4),
            3 => Sched::Bursts(12),
            _ => Sched::Bursts(40),
        };
        let s = p.state(&c.w);
        let mut plans = plans.into_iter();
        let outs = c.w.run_many(vec![(r.clone(), plans.next().unwrap()), (w.clone(), plans.next().unwrap())], sched);
        seen(c);
        let line = format!("podo {} while podo {} runs", reader.join(" "), writer);
        ensure!(!outs[0].stuck && !outs[1].stuck, "{}: it never ends", line);
        ensure!(outs[1].ok(), "{}: podo {} fails ({})", line, writer, outs[1].brief());
        // the files: what one after the other would have left, the name of a version made aside
        let plain = |w: &World| -> Result<Vec<(Vec<serde_json::Value>, Vec<String>, Vec<String>)>, String> { Ok(chain(&w.files(), &p.hist, false)?.into_iter().map(|v| (v.changes, v.up, v.down)).collect()) };
        let now = plain(&c.w).map_err(|e| Fail::Violation(format!("{}: the history is broken: {}", line, e)))?;
        let one_of: Vec<_> = [(&first[0], &twin_first), (&then[1], &twin_then)].into_iter().filter(|x| x.0.ok()).map(|x| x.1).collect();
        let s2 = p.state(&c.w);
        if outs[0].ok() {
            c.w.stats.count("read beside a writer");
            let mut fits = false;
            for t in &one_of {
                let st = p.state(t);
                fits |= plain(t).map_or(false, |x| x == now) && st.cat == s2.cat && st.rows == s2.rows && p.ledger_names(t).len() == p.ledger_names(&c.w).len();
            }
            ensure!(fits, "{}: it does something it would do neither before nor after it: {}", line, s.diff(&s2));
            let all: Vec<String> = std::iter::once("init".to_string()).chain(made(&p.the_chain(&c.w)?).into_iter().map(|v| v.name)).collect();
            let led = p.ledger_names(&c.w);
            ensure!(all.starts_with(&led), "{}: the ledger is {:?}, the versions are {:?}", line, led, all);
        } else {
            c.w.stats.count("refused beside a writer");
            ensure!(!outs[0].err.is_empty() && !outs[0].err.contains("panicked at"), "{}: it does not say why it fails: {}", line, outs[0].err.trim());
            ensure!(s2 == s, "{}: it fails but changes the database: {}", line, s.diff(&s2));
            ensure!(plain(&twin_alone).map_or(false, |x| x == now), "{}: it fails but changes the history", line);
        }
        c.decided();
        c.t().end();
        if writer == "clone" {
            // the definitions are no longer those of the model, and may not fit together
            break;
        }
        c.w.sleep(2_000_000_000);
    }
    Ok(())
}

// ---- P17

pub fn p17(c: &mut Ctx) -> Res {
    let db = c.w.add_db(fresh_db());
    let p = Proj::create(c, "", db)?;
    let mut h = Hist::new(p);
    if c.chance(1, 25) {
        h.plain_version(c, 0)?;
        let n = 8 + c.draw(40) as usize;
        h.many(c, n)?;
    }
    for _ in 0..1 + c.draw(4) {
        h.version(c, 1, 2)?;
        c.w.sleep(3_000_000_000);
    }
    prepare(c, &mut h)?;
    let p = h.p.clone();
    let ch = p.the_chain(&c.w)?;
    let mds = made(&ch);
    if mds.is_empty() {
        return Ok(());
    }
    if c.chance(2, 3) {
        let k = c.w.tape.idx(mds.len() + 1);
        if k < mds.len() {
            p.go(c, &["up", "--version", &mds[k].name.clone()]);
        }
    }
    let file = |n: &str| format!("{}/{}.yaml", p.hist, n);
    let yaml = |v: &Ver| serde_yaml::to_string(&serde_json::json!({"name": v.name, "previous": v.previous, "changes": v.changes, "up": v.up, "down": v.down})).unwrap();
    let pickv = |c: &mut Ctx| {
        let k = c.w.tape.idx(mds.len());
        mds[k].clone()
    };
    // negative control: things that do not break the history
    let harmless = c.chance(1, 5);
    let what = if harmless {
        match c.draw(5) {
            4 => {
                let v = pickv(c);
                let t = c.w.get(&file(&v.name)).unwrap_or_default();
                c.w.put("elsewhere/version", t);
                c.w.del(&file(&v.name));
                std::os::unix::fs::symlink(c.w.root.join("elsewhere/version"), c.w.root.join(file(&v.name))).map_err(|e| Fail::Setup(e.to_string()))?;
                c.w.disk.settle();
                "a version that is a link".to_string()
            }
            0 => {
                c.w.put(&format!("{}/README.md", p.hist), "notes");
                "a text file in the history directory".to_string()
            }
            1 => {
                let v = pickv(c);
                let ext = c.t().pick(&["yaml.bak", "yml", "YAML", "yaml~", "json"]).to_string();
                c.w.put(&format!("{}/{}.{}", p.hist, v.name, ext), yaml(&v));
                "a backup copy of a version".into()
            }
            2 => {
                let v = pickv(c);
                c.w.put(&format!("{}/old/{}.yaml", p.hist, v.name), yaml(&v));
                "a directory with old versions".into()
            }
            _ => {
                // a make that was interrupted before the new stage was written
                let st = ch.last().unwrap().clone();
                if st.empty() {
                    return Ok(());
                }
                let v = Ver { name: "20990101_000000-half".into(), ..st };
                c.w.put(&file(&v.name), yaml(&v));
                "a history an interrupted make left behind".into()
            }
        }
    } else {
        match c.draw(12) {
            0 => {
                let v = pickv(c);
                c.w.del(&file(&v.name));
                format!("{} was deleted", v.name)
            }
            1 => {
                c.w.del(&file("stage"));
                "the stage was deleted".into()
            }
            2 => {
                c.w.del(&file("init"));
                "init was deleted".into()
            }
            3 | 4 => {
                // a second successor, as a merge of two branches leaves it
                let v = pickv(c);
                let mut x = v.clone();
                x.name = format!("{}-copy", v.name);
                // also one that is like the other in part
                match c.draw(4) {
                    0 => x.up = vec!["CREATE SCHEMA branch;".into()],
                    1 => x.down.push("SELECT 'branch';".into()),
                    2 => x.up.push("SELECT 'branch';".into()),
                    _ => {}
                }
                c.w.put(&file(&x.name), yaml(&x));
                format!("{} has the same predecessor as {}", x.name, v.name)
            }
            5 => {
                let mut v = pickv(c);
                v.previous = Some("20000101_000000-gone".into());
                c.w.put(&file(&v.name), yaml(&v));
                format!("the predecessor of {} does not exist", v.name)
            }
            6 => {
                let (a, mut b) = (pickv(c), pickv(c));
                b.previous = Some(a.name.clone());
                if mds.iter().any(|v| *v == b) {
                    return Ok(());
                }
                c.w.put(&file(&b.name), yaml(&b));
                format!("{} was linked to {}", b.name, a.name)
            }
            7 => {
                let v = pickv(c);
                let t = c.w.get(&file(&v.name)).unwrap_or_default();
                c.w.del(&file(&v.name));
                c.w.put(&file(&format!("{}-renamed", v.name)), t);
                format!("the file of {} was renamed", v.name)
            }
            8 => {
                let v = pickv(c);
                let t = c.w.get(&file(&v.name)).unwrap_or_default();
                let k = c.w.tape.idx(2);
                let s = String::from_utf8_lossy(&t).to_string();
                let cut = if k == 0 { 0 } else { s.rfind("\ndown:").unwrap_or(0) };
                c.w.put(&file(&v.name), &t[..cut]);
                format!("{} was truncated", v.name)
            }
            9 => {
                // an orphan that leads nowhere
                let v = Ver { name: "20990101_000000-orphan".into(), previous: Some("20990101_000000-orphan2".into()), ..mds[0].clone() };
                c.w.put(&file(&v.name), yaml(&v));
                let u = Ver { name: "20990101_000000-orphan2".into(), previous: Some("20990101_000000-orphan".into()), ..mds[0].clone() };
                c.w.put(&file(&u.name), yaml(&u));
                "two versions name each other as predecessor".into()
            }
            10 => {
                // the stage of another branch: same predecessor as a made version, other content
                let v = mds.last().unwrap();
                let mut st = Ver { name: "stage".into(), ..v.clone() };
                // also one that is like the other in part
                match c.draw(4) {
                    0 => st.down.push("SELECT 'branch';".into()),
                    1 => st.up.push("SELECT 'branch';".into()),
                    2 => st = Ver { changes: vec![], down: vec![], ..st },
                    _ => st = Ver { changes: vec![], up: vec!["CREATE SCHEMA other;".into()], down: vec!["DROP SCHEMA other;".into()], ..st },
                }
                if st.same_content(v) {
                    return Ok(());
                }
                c.w.put(&file("stage"), yaml(&st));
                "the stage follows an older version".into()
            }
            _ => {
                let mut v = ch[0].clone();
                v.previous = Some(if c.chance(1, 3) { "stage".into() } else { mds.last().unwrap().name.clone() });
                c.w.put(&file("init"), yaml(&v));
                "init was given a predecessor".into()
            }
        }
    };
    c.w.note(|| what.clone());
    let broken = chain(&c.w.files(), &p.hist, true).is_err();
    if broken == harmless && what != "a version that is a link" {
        return Ok(()); // the edit did not have the intended effect
    }
    c.w.stats.count(&format!("{}: {}", if harmless { "harmless" } else { "broken" }, what.split(|x: char| x.is_ascii_digit()).next().unwrap_or("").trim()));
    let args: Vec<&str> = match c.draw(6) {
        0 | 1 => vec!["up"],
        2 => vec!["stage"],
        3 => vec!["make"],
        4 => vec!["up", "--version", &mds[mds.len() - 1].name],
        _ => vec!["status"],
    };
    let (f, s) = (c.w.files(), p.state(&c.w));
    let o = p.go(c, &args);
    let (f2, s2) = (c.w.files(), p.state(&c.w));
    if harmless {
        let behind = p.ledger_names(&c.w);
        ensure!(o.ok() || args[0] == "up", "{}: podo {} refuses to work: {}", what, args.join(" "), o.brief());
        let _ = behind;
    } else {
        ensure!(!o.ok(), "{}: podo {} does not report it", what, args.join(" "));
        ensure!(!o.err.is_empty(), "{}: podo {} fails without saying why", what, args.join(" "));
        ensure!(meaningful(&f2) == meaningful(&f), "{}: podo {} changed files: {}", what, args.join(" "), diff_files(&f, &f2));
        ensure!(s2 == s, "{}: podo {} changed the database: {}", what, args.join(" "), s.diff(&s2));
    }
    c.decided();
    Ok(())
}

// ---- P19

pub fn p19(c: &mut Ctx) -> Res {
    c.w.add_db(fresh_db());
    // where init is run
    let depth = c.w.tape.idx(3);
    let cwd = ["", "work", "work/sub dir"][depth].to_string();
    std::fs::create_dir_all(c.w.root.join(&cwd)).ok();
    c.w.disk.settle();
    let j = |a: &str| if cwd.is_empty() { a.to_string() } else { format!("{}/{}", cwd, a) };
    for _ in 0..c.draw(3) {
        match c.draw(4) {
            0 => c.w.put(&j("src/main.c"), "int main(){}"),
            1 => c.w.put(&j("podo.yaml"), "not a configuration"),
            2 => c.w.put(&j("database/README"), "hello"),
            _ => c.w.put("notes.txt", "text"),
        }
    }
    // an existing project
    let exists = c.chance(1, 2);
    let mut readable = true;
    if exists {
        let at = ["", "work", "work/sub dir"][c.w.tape.idx(depth + 1)].to_string();
        let at = |a: &str| if at.is_empty() { a.to_string() } else { format!("{}/{}", at, a) };
        let text: Vec<u8> = match c.draw(6) {
            0 | 1 => config(&[("database", &c.w.url(0), "database/history", "database/definitions", "podo")]).into_bytes(),
            2 => config(&[("other", &c.w.url(0), "hist", "defs", "podo")]).into_bytes(),
            3 => {
                readable = false;
                b"profiles: [\n".to_vec()
            }
            4 => {
                readable = false;
                vec![]
            }
            _ => {
                readable = false;
                b"\xff\xfe".to_vec()
            }
        };
        c.w.put(&at(".podo.yaml"), text);
        if c.chance(2, 3) {
            c.w.put(&at("database/history/init.yaml"), "name: init\nprevious: null\nchanges: []\nup: []\ndown: []\n");
            c.w.put(&at("database/history/stage.yaml"), "name: stage\nprevious: init\nchanges: []\nup: []\ndown: []\n");
            c.w.put(&at("database/definitions/public.yaml"), "schema public:\n  table precious:\n    column id: int4\n");
        }
    }
    let p = Proj { dir: cwd.clone(), profile: "database".into(), hist: j("database/history"), defs: j("database/definitions"), meta: "podo_meta".into(), db: 0, env: vec![] };
    // the user may have written definitions or kept a history already
    let mut own_defs = false;
    if !exists && c.chance(1, 4) {
        own_defs = true;
        c.w.put(&j("database/definitions/public.yaml"), "schema public:\n  table mine:\n    column id: int4\n");
    }
    // ... also written in a way of their own
    if !exists && c.chance(1, 4) {
        c.w.put(&j("database/history/init.yaml"), "# where it starts\nname: init\nprevious:\nchanges: [{change: {schema_name: public}, type: CreateSchemaChange}]\nup: ['CREATE SCHEMA public;']\ndown: ['DROP SCHEMA public;']\n");
        if c.chance(1, 2) {
            c.w.put(&j("database/history/stage.yaml"), "# nothing yet\nname: stage\nprevious: init\nchanges: []\nup: []\ndown: []\n");
        }
    }
    let cmd = p.cmd(c, &["init"]);
    let before = c.w.files();
    let (d, twin) = dry(c, &cmd);
    let attempts = c.draw(3);
    for _ in 0..attempts {
        let plan = c.with(|t| Plan { fs: fs_fault(t, &d, true).into_iter().collect(), ..Plan::default() });
        let o = run(c, &cmd, &plan);
        let now = c.w.files();
        for (k, v) in &before {
            if !k.ends_with('/') {
                ensure!(now.get(k) == Some(v), "init ({}, {:?}) changed the existing file {}", o.brief(), o.fired, k);
            }
        }
        if exists {
            ensure!(meaningful(&now) == meaningful(&before), "init ({}, {:?}) in an existing project changed files: {}", o.brief(), o.fired, diff_files(&before, &now));
            c.decided();
        }
    }
    let o = run(c, &cmd, &Plan::default());
    let now = c.w.files();
    for (k, v) in &before {
        if !k.ends_with('/') {
            ensure!(now.get(k) == Some(v), "init changed the existing file {}", k);
        }
    }
    if exists {
        ensure!(meaningful(&now) == meaningful(&before), "init in an existing project changed files: {}", diff_files(&before, &now));
        ensure!(o.ok() || !readable, "init in a tree with a project fails: {}", o.brief());
        c.decided();
        return Ok(());
    }
    let _ = twin;
    ensure!(o.ok(), "init fails in a tree without a project: {}", o.brief());
    ensure!(now.contains_key(&j(".podo.yaml")), "init left no configuration");
    let ch = chain(&now, &p.hist, false).map_err(|e| Fail::Violation(format!("init left a history that is not complete: {}", e)))?;
    ensure!(ch.len() == 2 && ch[1].empty(), "init left a history that is not init and an empty stage: {}", listing(&ch));
    ensure!(under(&now, &p.defs).keys().any(|k| k.ends_with(".yaml")), "init left no definitions");
    let o = p.go(c, &["stage"]);
    ensure!(o.ok(), "stage fails right after init: {}", o.brief());
    let ch2 = chain(&c.w.files(), &p.hist, false).map_err(Fail::Violation)?;
    if !own_defs {
        ensure!(ch2.last().unwrap().empty(), "stage finds something to do right after init: {:?}", ch2.last().unwrap().up);
    }
    // a second init finds the project
    let before = c.w.files();
    let o = run(c, &cmd, &Plan::default());
    ensure!(o.ok() && meaningful(&c.w.files()) == meaningful(&before), "a second init changed files or failed: {} {}", o.brief(), diff_files(&before, &c.w.files()));
    c.decided();
    Ok(())
}
