mod big;
mod checks_after;
mod checks_any;
mod checks_cli;
mod checks_compile;
mod checks_disk;
mod checks_graph;
mod checks_hist;
mod checks_out;
mod checks_grow;
mod checks_parse;
mod checks_same;
mod cmp;
mod drive;
mod gen;
mod judge;
mod lex;
mod prog;
mod registry;
mod rng;
mod spec;
use std::io::Read;
use drive::{Env, Tier};
use std::path::{Path, PathBuf};
use std::time::Duration;

#[global_allocator]
static ALLOC: checks_grow::Counting = checks_grow::Counting;

fn tier(s: &str) -> Tier {
    match s {
        "thorough" => Tier::Thorough,
        _ => Tier::Quick,
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let the_check = |id: &str| {
        registry::checks().into_iter().find(|c| c.id == id).unwrap_or_else(|| {
            eprintln!("no check {id}");
            std::process::exit(2)
        })
    };
    match a[1].as_str() {
        // check <id> <tier> <seed> <cap seconds> <verif>
        "check" => {
            let c = the_check(&a[2]);
            let code = drive::check(
                &c,
                tier(&a[3]),
                a[4].parse().unwrap(),
                Path::new(&a[6]),
                Duration::from_secs(a[5].parse().unwrap()),
            );
            std::process::exit(code);
        }
        "work" => {
            let c = the_check(&a[2]);
            let dir = PathBuf::from(&a[5]);
            let env = Env {
                id: c.id,
                seed: a[4].parse().unwrap(),
                tier: tier(&a[3]),
                scratch: dir.join("scratch"),
            };
            judge::EXPECTATIONS.store(c.id == "C13", std::sync::atomic::Ordering::Relaxed);
            drive::work(&c, &env, &dir, Duration::from_secs(a[6].parse().unwrap()));
        }
        "case" => {
            let c = the_check(&a[2]);
            let own = a.len() <= 7;
            let dir = if own {
                drive::scratch_base().join(format!("vmon-case-{}", std::process::id()))
            } else {
                PathBuf::from(&a[7])
            };
            std::fs::create_dir_all(dir.join("scratch")).unwrap();
            let env = Env {
                id: c.id,
                seed: a[4].parse().unwrap(),
                tier: tier(&a[3]),
                scratch: dir.join("scratch"),
            };
            judge::EXPECTATIONS.store(c.id == "C13", std::sync::atomic::Ordering::Relaxed);
            let code = drive::case(&c, &env, &a[5], a[6].parse().unwrap(), &dir);
            if own {
                let _ = std::fs::remove_dir_all(&dir);
            }
            std::process::exit(code);
        }
        "outcomes" => {
            drive::install_hook();
            checks_same::outcomes(&a[2..])
        }
        "down" => checks_any::down(&a[2]),
        "list" => {
            for c in registry::checks() {
                println!("{}", c.id);
            }
        }
        "parse" => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            println!("{:#?}", protox_parse::parse("t.proto", &s));
        }
        "judge" => {
            for f in &a[2..] {
                let s = std::fs::read_to_string(f).unwrap();
                let j = judge::judge(f, &s);
                println!("{f}: accepted {} want {} gray {} fuzzy {} toks {} attached {}", j.accepted, j.want_accept, j.gray, j.model.fuzzy_comments, j.model.ntoks, j.model.attached);
                for d in &j.diffs { println!("  {:?} {}", d.facet, d.what); }
            }
        }
        "fuzz" => {
            let seed: u64 = a[2].parse().unwrap();
            let n: u64 = a[3].parse().unwrap();
            let mut c = gen::Cfg::default();
            if a.len() > 4 { c.bytes = 50; }
            let (mut acc, mut rej, mut gray, mut bad) = (0, 0, 0, 0);
            let mut classes = std::collections::BTreeMap::new();
            for i in 0..n {
                let mut r = rng::Rng::new(seed, i);
                let s = gen::make(&mut r, &c);
                let j = judge::judge("f.proto", &s);
                if j.gray { gray += 1 } else if j.accepted { acc += 1 } else { rej += 1 }
                for c in &j.classes { *classes.entry(*c).or_insert(0) += 1; }
                if !j.diffs.is_empty() {
                    bad += 1;
                    std::fs::create_dir_all("/tmp/fz").unwrap();
                    std::fs::write(format!("/tmp/fz/{i}.proto"), &s).unwrap();
                    if bad < 20 { println!("{i}: {:?} {}", j.diffs[0].facet, j.diffs[0].what); }
                }
            }
            println!("acc {acc} rej {rej} gray {gray} bad {bad} {classes:?}");
        }
        "gen" => {
            let mut r = rng::Rng::new(a[2].parse().unwrap(), 0);
            print!("{}", gen::make(&mut r, &gen::Cfg::default()));
        }
        _ => {}
    }
}
