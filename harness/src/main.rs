mod engine;
mod eval;
mod gen;
mod poly;
mod props;
mod report;
mod space;
mod tree;

use engine::*;
use std::path::PathBuf;
use std::time::Duration;

fn tier(s: &str) -> Tier {
    match s {
        "quick" => Tier::Quick,
        "thorough" => Tier::Thorough,
        _ => panic!("tier {s}"),
    }
}

fn main() {
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "worker" => {
            limit_memory();
            let dir = PathBuf::from(&a[6]);
            let known = std::fs::read_to_string(dir.join("known")).unwrap_or_default().lines().map(|s| s.to_string()).collect();
            let args = WorkerArgs {
                tier: tier(&a[3]),
                shard: a[4].parse().unwrap(),
                nshards: a[5].parse().unwrap(),
                skip: a[7].split(',').filter_map(|s| s.parse().ok()).collect(),
                dir,
                known,
            };
            let p = props::find(&a[2]);
            std::thread::Builder::new().stack_size(64 << 20).spawn(move || worker(p, &args)).unwrap().join().map_err(|_| std::process::exit(101)).unwrap();
        }
        "raw" => {
            let p = props::find(&a[2]);
            let s = explore(p, tier(&a[3]), &std::env::temp_dir().join(format!("mc-{}", std::process::id())), &Default::default(), Duration::from_secs(600));
            println!("states {} transitions {} compared {} vacuous {} cases {} initial {} followed {} notes {:?} complete {} {:?}", s.states, s.transitions, s.compared, s.vacuous, s.cases, s.initial, s.followed, s.notes, s.complete, s.why_incomplete);
            println!("violations {}", s.violations.len());
            let lim: usize = std::env::var("SHOW").ok().and_then(|s| s.parse().ok()).unwrap_or(25);
            for v in s.violations.iter().take(lim) {
                println!("{} | {} | {}", v.kind, v.case, v.detail);
            }
        }
        "check" => std::process::exit(report::check(props::find(&a[2]), tier(&a[3]))),
        "replay" => {
            limit_memory();
            let f = a[2].clone();
            let r = std::thread::Builder::new().stack_size(64 << 20).spawn(move || report::replay_file(&f)).unwrap().join();
            std::process::exit(r.unwrap_or(3));
        }
        // apply operations one after the other and show every step
        "eval" => {
            let mut t = tree::parse(&a[2]);
            for op in &a[3..] {
                t = tree::read(&props::value::apply(op, &tree::build(&t)));
                println!("{op}: {t}");
            }
        }
        "sizes" => {
            for (n, a) in [("rational", space::rational()), ("algebraic", space::algebraic()), ("trig", space::trig()), ("explog", space::explog()), ("undef", space::undef()), ("functions", space::functions()), ("numbers", space::numbers())] {
                println!("{n}: {} {} {} {}", a.l1().len(), a.two().len(), a.two_full().len(), a.three().len());
            }
            for big in [false, true] {
                println!("{big}: expansion {} fraction {} trig {} explog {} collection {}", space::expansion_family(big).len(), space::fraction_family(big).len(), space::trig_family(big).len(), space::explog_family(big).len(), space::collection_family(big).len());
            }
        }
        "list" => {
            for p in props::all() {
                println!("{}", p.id);
            }
        }
        "replay1" => {
            let p = props::find(&a[2]);
            let r = replay(p, &Case::parse(&a[3]));
            println!("{}", if r { "VIOLATED" } else { "holds" });
        }
        o => panic!("unknown command {o}"),
    }
}
