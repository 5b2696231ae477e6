mod arith;
mod check;
mod env;
mod exec;
mod explore;
mod laws;
mod mon;
mod parts;
mod plan;
mod rt;
mod suites;
mod timing;
mod types;
mod world;

fn main() {
    rt::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("try") => {
            // try SUITES FATES K [prune]
            let k: usize = a[4].parse().unwrap();
            let names: Vec<&str> = a[2].split(',').collect();
            let mut cfgs = vec![];
            for (n, v) in suites::all_named() {
                for c in v {
                    if names.contains(&n) || names.contains(&c.name.as_str()) || names == ["all"] {
                        cfgs.push(c);
                    }
                }
            }
            let mut cfgs = suites::with(cfgs, suites::fates_named(&a[3]), k);
            if a.iter().any(|x| x == "var") {
                cfgs = suites::variants(cfgs);
            }
            let t = std::time::Instant::now();
            let r = explore::explore(&cfgs, &[], std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or(8), a.iter().any(|s| s == "prune"), 2_000_000, false, "try");
            println!(
                "execs {:?} pruned {:?} excluded {:?} states {} deliveries {:?} in {:?}",
                r.stats.execs, r.stats.pruned, r.stats.excluded, r.states, r.stats.deliveries, t.elapsed()
            );
            println!("{}", r.by_cfg.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(" "));
            let mut seen = std::collections::HashMap::new();
            for f in r.found.iter() {
                let key = (f.prop.clone(), f.cfg);
                let c = seen.entry(key).or_insert(0);
                *c += 1;
                if *c <= 2 {
                    let d: Vec<String> = f.dev.iter().map(|d| format!("{},{}", d.0, d.1)).collect();
                    println!("{} {} [{}] {}", f.prop, cfgs[f.cfg].name, d.join(" "), f.msg.chars().take(300).collect::<String>());
                }
            }
        }
        Some("one") => {
            // one SCENARIO FATES [i,a ...]
            let mut cfg = suites::all_named().into_iter().flat_map(|x| x.1).find(|c| c.name == a[2]).expect("scenario");
            cfg.fates = suites::fates_named(&a[3]);
            if let Some(v) = a.iter().find_map(|x| x.strip_prefix("v=")) {
                cfg.variant = v.parse().unwrap();
            }
            let dev: Vec<(u32, u8)> = a[4..]
                .iter()
                .filter_map(|s| s.split_once(','))
                .map(|(x, y)| (x.parse().unwrap(), y.parse().unwrap()))
                .collect();
            let t = std::time::Instant::now();
            let o = exec::run(&cfg, &dev, None, true);
            for l in &o.log {
                println!("{l}");
            }
            println!("{:?} {:?} polls {} excluded {:?}", o.viols, t.elapsed(), o.polls, o.excluded);
        }
        Some("parts") => {
            // parts ID TIER: the enumerations of parts on their own
            for x in plan::extras(&a[2], &a[3]) {
                println!("{}: {} states, {} transitions, {:.1}s {:?} {:?}", x.name, x.states, x.transitions, x.seconds, x.note, x.found);
            }
        }
        Some("check") => std::process::exit(check::main(&a[2..])),
        Some("replay") => std::process::exit(check::replay(&a[2])),
        _ => {
            eprintln!("usage: mc check --property ID --tier quick|thorough | mc replay FILE | mc try .. | mc one ..");
            std::process::exit(2);
        }
    }
}
