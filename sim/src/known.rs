//! Findings that are recorded, not repaired. Each one is shown by a fixed project in a simulated world without faults;
//! what fails is compared with the entry, so that the search stays responsible for everything else.
use crate::model::fresh_db;
use crate::pg::dump;
use crate::pg::store::Db;
use crate::proj::*;
use crate::runner::Scratch;
use crate::tape::Tape;
use crate::world::*;

/// identifies the entry in known_findings.txt
type Probe = (&'static str, &'static str, fn(&mut Ctx) -> Res<bool>);
const PROBES: &[Probe] = &[
    ("P07", "unique-deferrability", |c| migrates(c, &["schema public:\n  table t:\n    column a: int4\n    constraint k:\n      unique: a\n", "schema public:\n  table t:\n    column a: int4\n    constraint k:\n      unique: a\n      deferrable: true\n"])),
    ("P07", "function-before-default", |c| migrates(c, &["schema public:\n  function f():\n    as: SELECT 1\n    returns: int4\n    language: sql\n  table t:\n    column a: int4 = f()\n"])),
    ("P07", "function-before-check", |c| {
        migrates(c, &["schema public:\n  function f(x int4):\n    as: SELECT true\n    returns: boolean\n    language: sql\n  table t:\n    column a: int4\n    constraint k:\n      check: f(a)\n"])
    }),
    ("P07", "view-on-later-view", |c| migrates(c, &["schema public:\n  table t:\n    column a: int4\n  view a:\n    as: SELECT a FROM public.b\n  view b:\n    as: SELECT a FROM public.t\n"])),
    ("P07", "default-moves-between-sequences", |c| {
        migrates(
            c,
            &[
                "schema public:\n  sequence s1: {}\n  sequence s2: {}\n  table t:\n    column a: int8 = nextval('public.s1'::regclass)\n",
                "schema public:\n  sequence s2: {}\n  table t:\n    column a: int8 = nextval('public.s2'::regclass)\n",
            ],
        )
    }),
    ("P07", "referenced-key-replaced", |c| {
        migrates(
            c,
            &[
                "schema public:\n  table a:\n    column x: int4\n    constraint k:\n      unique: x\n  table b:\n    column y: int4\n    constraint f:\n      foreign key: y\n      references a: x\n",
                "schema public:\n  table a:\n    column x: int4\n    constraint k:\n      primary key: x\n  table b:\n    column y: int4\n    constraint f:\n      foreign key: y\n      references a: x\n",
            ],
        )
    }),
    ("P08", "index-takes-over-foreign-key", |c| {
        let p = project(c, fresh_db())?;
        let fk = "    constraint k:\n      unique: x\n    constraint f:\n      foreign key: y\n      references t: x\n";
        let t = "schema public:\n  table t:\n    column x: int4\n    column y: int4\n";
        let ix = "  index i:\n    on t: x\n    unique: true\n";
        for d in [format!("{}{}", t, fk), format!("{}{}{}", t, fk, ix), format!("{}{}", t, ix)] {
            c.w.put("database/definitions/public.yaml", &d);
            for a in ["stage", "make", "up"] {
                p.must(c, &[a])?;
            }
        }
        let o = p.go(c, &["down", "--version", "init"]);
        Ok(o.ok())
    }),
    ("P05", "sequence-owned-by", |c| {
        let p = project(c, fresh_db())?;
        c.w.put("database/definitions/public.yaml", "schema public:\n  table t:\n    column id: int8\n  sequence s:\n    owned by t: id\n");
        p.must(c, &["stage"])?;
        let a = p.the_chain(&c.w)?.last().unwrap().up.len();
        p.must(c, &["stage"])?;
        Ok(a > 0 && p.the_chain(&c.w)?.last().unwrap().up.len() == a)
    }),
    ("P18", "clone-of-owned-sequence", |c| {
        let mut s = crate::pg::wire::Server::new(fresh_db());
        setup(s.sql("CREATE TABLE public.t (id serial)").map_err(|e| e.msg))?;
        let p = project(c, s.db.clone())?;
        let want = p.catalog(&c.w);
        p.must(c, &["clone"])?;
        c.w.dbs[p.db].srv = crate::pg::wire::Server::new(fresh_db());
        for a in ["stage", "make", "up"] {
            if !p.go(c, &[a]).ok() {
                return Ok(false);
            }
        }
        Ok(dump::diff(&want, &p.catalog(&c.w)).is_empty())
    }),
];

fn project(c: &mut Ctx, db: Db) -> Res<Proj> {
    let db = c.w.add_db(db);
    Proj::create(c, "", db)
}
/// whether the definitions can be reached one after the other
fn migrates(c: &mut Ctx, defs: &[&str]) -> Res<bool> {
    let p = project(c, fresh_db())?;
    for d in defs {
        c.w.put("database/definitions/public.yaml", d);
        p.must(c, &["stage"])?;
        p.must(c, &["make"])?;
        let o = p.go(c, &["up"]);
        if !o.ok() {
            c.w.note(|| o.brief());
            return Ok(false);
        }
    }
    Ok(true)
}

pub struct Finding {
    pub id: String,
    pub text: String,
    /// None: there is no probe of that name, or it could not be set up
    pub holds: Option<bool>,
}
/// the findings listed for a property and whether the property holds for their inputs now
pub fn probes(b: &Bins, p: &str) -> Vec<Finding> {
    let file = crate::runner::home().join("known_findings.txt");
    let mut out = vec![];
    let scratch = Scratch::new();
    for l in std::fs::read_to_string(file).unwrap_or_default().lines() {
        let Some(rest) = l.strip_prefix(&format!("known: property={} ", p)) else { continue };
        let (id, text) = rest.split_once(' ').unwrap_or((rest, ""));
        let holds = PROBES.iter().find(|x| x.0 == p && x.1 == id).and_then(|x| {
            let mut c = Ctx::new(World::new(b, &scratch.worker(0), Tape::replay(vec![])), false);
            c.soft = false;
            (x.2)(&mut c).ok()
        });
        out.push(Finding { id: id.into(), text: text.into(), holds });
    }
    out
}
