#![allow(dead_code)]
#[macro_use]
mod proj;
mod disk;
mod info;
mod known;
mod model;
mod pg;
mod props_db;
mod props_fs;
mod runner;
mod smoke;
mod tape;
mod world;
use std::io::{Read, Write};
fn serve(path: &str) {
    let _ = std::fs::remove_file(path);
    let l = std::os::unix::net::UnixListener::bind(path).unwrap();
    let mut srv = pg::wire::Server::new(pg::store::Db::new());
    for c in l.incoming() {
        let mut c = c.unwrap();
        let sid = srv.connect();
        let mut buf = [0u8; 65536];
        loop {
            match srv.step(sid) {
                pg::wire::Step::NeedInput => {
                    let o = std::mem::take(&mut srv.sess[sid].out);
                    c.write_all(&o).ok();
                    match c.read(&mut buf) {
                        Ok(n) if n > 0 => srv.sess[sid].inbuf.extend(&buf[..n]),
                        _ => srv.sess[sid].eof = true,
                    }
                }
                pg::wire::Step::Closed => break,
                _ => {}
            }
        }
        for l in srv.log.drain(..) {
            eprintln!("[{}] {} -> {}", l.sid, l.text, l.result);
        }
        for (k, v) in pg::dump::catalog(&srv.db, &[]) {
            eprintln!("   {} {}", k, v);
        }
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("serve") => serve(&a[2]),
        Some("sql") => {
            let mut srv = pg::wire::Server::new(pg::store::Db::new());
            for f in &a[2..] {
                let t = std::fs::read_to_string(f).unwrap();
                match srv.sql(&t) {
                    Err(e) => println!("{}: ERROR {} {}", f, e.code, e.msg),
                    Ok(r) => {
                        for rows in r {
                            println!("{}: {} rows", f, rows.len());
                            for r in rows {
                                println!("  {:?}", r);
                            }
                        }
                    }
                }
            }
        }
        Some("check") => {
            let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
            let tier = get("--tier").or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let o = runner::Opts {
                prop: a[2].clone(),
                seed: get("--seed").or(std::env::var("VERIF_SEED").ok()).and_then(|s| s.parse().ok()).unwrap_or(1),
                secs: get("--secs").and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 600 } else { 50 }),
                max_runs: get("--runs").and_then(|s| s.parse().ok()).unwrap_or(u64::MAX),
                keep_going: a.iter().any(|x| x == "--all"),
                tier,
            };
            std::panic::set_hook(Box::new(|i| {
                eprintln!("{}", i);
                runner::note_panic(i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default())
            }));
            std::process::exit(runner::check(&o));
        }
        Some("scan") => {
            std::panic::set_hook(Box::new(|i| runner::note_panic(i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default())));
            let v: Vec<&str> = a[2].split(',').collect();
            std::process::exit(runner::scan(&v, a[3].parse().unwrap(), a.get(4).and_then(|s| s.parse().ok()).unwrap_or(1)))
        }
        Some("replay") => std::process::exit(runner::replay(&a[2])),
        Some("one") => std::process::exit(runner::one(&a[2], u64::from_str_radix(&a[3], 16).unwrap(), a.len() > 4)),
        Some("selftest") => std::process::exit(runner::selftest(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(10), a.get(3).and_then(|s| s.parse().ok()).unwrap_or(1))),
        Some("smoke") => smoke::smoke(a[2].parse().unwrap()),
        _ => {}
    }
}
