use crate::model::*;
use crate::tape::Tape;
use crate::world::*;
use std::path::Path;
pub fn smoke(seed: u64) {
    let bins = Bins { podo: "/verif/target/podo/release/podo".into(), shim: "/verif/build/shim.so".into() };
    let t0 = std::time::Instant::now();
    let mut w = World::new(&bins, Path::new("/dev/shm/podosim-smoke/run0"), Tape::seeded(seed));
    w.tracing = true;
    w.add_db(fresh_db());
    {
        let d = &mut w.dbs[0].srv;
        d.sql("DROP SCHEMA public").unwrap();
    }
    let c = |a: &[&str]| Cmd { args: a.iter().map(|s| s.to_string()).collect(), ..Cmd::default() };
    let o = w.run(&c(&["init"]), &Plan::default());
    println!("{:?}", o.brief());
    for f in w.files() { println!("{} {}", f.0, String::from_utf8_lossy(&f.1)); }
    let cfg = format!("profiles:\n  database:\n    database_url: {}\n    history: database/history\n    definitions: database/definitions\n    metadata_schema: podo\n", w.url(0));
    w.put(".podo.yaml", cfg);
    let base = Model::public();
    let mut t = std::mem::take(&mut w.tape);
    let (m, kinds) = mutate(&mut t, &base, &base, 8);
    println!("{:?}", kinds);
    for (f, c) in m.render(0) { println!("{} {}", f, c); w.put(&format!("database/definitions/{}", f), c); }
    w.tape = t;
    for a in [&["status"][..], &["stage"], &["make", "--version", "x"], &["up"], &["status"], &["clone"], &["stage"], &["down"], &["down"]] {
        let o = w.run(&c(a), &Plan::default());
        println!("{} {}\n{}", a[0], o.brief(), o.out);
    }
    for l in &w.trace { println!("{}", l); }
    println!("hash {:x} {:?} ops {} commands {}", w.hash, t0.elapsed(), w.stats.ops, w.stats.commands);
}
