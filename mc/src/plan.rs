//! What is explored for which property, at which tier.

use crate::exec::Op::*;
use crate::exec::*;
use crate::suites::{self as s, *};
use crate::world::{F, F::*, K};

pub struct Stage {
    pub name: String,
    pub what: &'static str,
    pub cfgs: Vec<Cfg>,
    pub prune: bool,
    pub max: u64,
}

const MAX: u64 = 40_000_000;

fn stage(name: &str, what: &'static str, cfgs: Vec<Cfg>) -> Stage {
    Stage { name: name.into(), what, cfgs, prune: false, max: MAX }
}

fn named(names: &[&str]) -> Vec<Cfg> {
    let all: Vec<Cfg> = all_named().into_iter().flat_map(|x| x.1).collect();
    names
        .iter()
        .map(|n| all.iter().find(|c| c.name == *n).unwrap_or_else(|| panic!("no scenario {n}")).clone())
        .collect()
}

fn everything() -> Vec<Cfg> {
    let v = all_named().into_iter().filter(|x| x.0 != "stops" && x.0 != "chunks").flat_map(|x| x.1);
    v.chain(named(&["chunk-fork/16", "chunk-v1/16"])).collect()
}

fn base() -> Cfg {
    Cfg { open: (1, usize::MAX), ..Default::default() }
}

/// Operation sequences explored for a property: (name, base, prefix, alphabet, depth quick, depth thorough).
fn progs(prop: &str) -> Vec<(&'static str, Cfg, Vec<Op>, Vec<Op>, usize, usize)> {
    let elect = || {
        (
            "seq-elect",
            base(),
            vec![Init(1), W],
            vec![ElectNow(2), ElectNow(3), Elect(1), Iso(1), Mute(2), Heal, Restart(3), W],
            6,
            7,
        )
    };
    let fork = || {
        (
            "seq-fork",
            Cfg { max_payload: 2, ..base() },
            vec![Init(1), W],
            vec![Elect(1), Elect(2), Elect(3), Mute(1), Mute(2), Heal, WriteN(1, 2), Write(2)],
            6,
            7,
        )
    };
    let crash = || {
        (
            "seq-crash",
            base(),
            vec![Init(1), W],
            vec![Elect(2), Elect(3), Mute(1), Heal, Write(1), Crash(1), Restart(1), Restart(2), CrashAll, RestartAll],
            6,
            7,
        )
    };
    let snap = || {
        (
            "seq-snap",
            base(),
            vec![Init(1), W],
            vec![Snap(1), Purge(1), Iso(3), Mute(1), Heal, Write(1), Elect(2), Restart(3)],
            6,
            7,
        )
    };
    let snapfork = || {
        (
            "seq-snapfork",
            Cfg { keep: 1, ..base() },
            vec![Init(1), W, Iso(1), WriteN(1, 2), Elect(2), W],
            vec![Snap(2), Purge(2), Heal, Write(2), Elect(1), Elect(3), Restart(1), Restart(2)],
            6,
            7,
        )
    };
    let memb = || {
        (
            "seq-memb",
            Cfg { n: 4, ..base() },
            vec![Init(1), AddL(1, 4, true)],
            vec![
                Change(1, vec![1, 2, 4], false),
                Change(1, vec![2, 3], true),
                Change(2, vec![2, 3, 4], false),
                Mute(1),
                Heal,
                Elect(2),
                W,
                Restart(4),
            ],
            6,
            7,
        )
    };
    let membsnap = || {
        (
            "seq-membsnap",
            Cfg { keep: 100, ..base() },
            vec![Init(1), W, Mute(3), Elect(3), Change(3, vec![2, 3], true), Heal, Iso(3)],
            vec![
                Elect(1),
                Elect(2),
                W,
                Seq(vec![Snap(1), Purge(1)]),
                Seq(vec![Snap(2), Purge(2)]),
                Change(1, vec![1, 2], true),
                Heal,
                Restart(3),
            ],
            6,
            7,
        )
    };
    let read = || {
        (
            "seq-read",
            base(),
            vec![Init(1), W],
            vec![Read(1), Read(2), Par(vec![Read(1), Write(1)]), Iso(1), Mute(2), Heal, Elect(2), Write(2)],
            6,
            7,
        )
    };
    let lease = || {
        (
            "seq-lease",
            base(),
            vec![Init(1), W],
            vec![ElectNow(2), ElectNow(3), Adv(100), Adv(210), Hb(1), Xfer(1, 2), Iso(1), Heal],
            6,
            7,
        )
    };
    let lease2 = || {
        (
            "seq-lease-behind",
            base(),
            vec![Init(1), W, Cut(1, 3), W, Heal],
            vec![ElectNow(2), ElectNow(3), Adv(100), Adv(210), Hb(1), Iso(2), Restart(3), W],
            5,
            6,
        )
    };
    let leaseread = || {
        (
            "seq-lease-read",
            base(),
            vec![Init(1), W],
            vec![ElectNow(2), Iso(1), Cut(1, 3), Restart(3), Adv(310), Write(2), Read(1), Xfer(1, 2)],
            6,
            7,
        )
    };
    let init = || {
        (
            "seq-init",
            Cfg { open: (0, usize::MAX), ..base() },
            vec![],
            vec![
                Init(1),
                Init(2),
                InitWith(2, vec![1, 3]),
                InitWith(1, vec![1]),
                Par(vec![Init(1), Init(3)]),
                Restart(1),
                Iso(1),
                Heal,
                ElectNow(2),
                W,
            ],
            5,
            6,
        )
    };
    let auto = || {
        (
            "seq-auto",
            base(),
            vec![Init(1), Autopilot(true), W],
            vec![Iso(1), Iso(2), Cut(1, 2), Heal, Crash(1), Restart(1), Adv(400), W],
            5,
            6,
        )
    };
    let timers = || {
        (
            "seq-timers",
            base(),
            vec![Init(1), Autopilot(true), W],
            vec![
                Iso(1),
                Heal,
                Crash(1),
                Restart(1),
                ElectNow(2),
                Switch(2, true, false, true),
                Switch(3, true, true, false),
                Autopilot(true),
                Adv(200),
                Adv(1450),
                Stable(300),
            ],
            4,
            5,
        )
    };
    let policy = || {
        (
            "seq-policy",
            Cfg { snap_logs: Some(3), keep: 1, ..base() },
            vec![Init(1)],
            vec![W, WriteN(1, 2), WriteN(2, 4), Snap(1), Snap(2), Iso(3), Heal, Restart(2), Elect(2)],
            5,
            6,
        )
    };
    let chunk = || {
        (
            "seq-chunk",
            Cfg { chunk: Some(16), ..base() },
            vec![Init(1), Iso(3), W, W, Snap(1), Cut(1, 2), Mend(1, 2), W, Snap(1), Purge(1)],
            vec![Chunk(3, 0, 0), Chunk(3, 0, 1), Chunk(3, 0, 2), Chunk(3, 1, 0), Chunk(3, 1, 1), Chunk(3, 1, 2), Restart(3), Elect(2)],
            5,
            6,
        )
    };
    match prop {
        "C01" | "C07" => vec![elect(), init()],
        "C02" | "C04" => vec![fork(), snapfork()],
        "C03" | "C05" => vec![fork(), crash()],
        "C06" => vec![read(), leaseread()],
        "C08" => vec![memb(), membsnap()],
        "C21" => vec![memb()],
        "C09" | "C10" => vec![snap(), snapfork()],
        "C11" => vec![crash(), snapfork()],
        "C12" => vec![fork(), memb()],
        "C13" => vec![elect(), auto()],
        "C14" => vec![snapfork(), fork()],
        "C15" => vec![lease(), lease2()],
        "C16" => vec![fork(), read()],
        "C17" => vec![fork(), snap()],
        "C22" => vec![init()],
        "C18" => vec![chunk()],
        "C24" => vec![timers(), policy()],
        _ => vec![],
    }
}

/// Scenarios explored with two deviations: (scenarios, fates).
fn pairs(prop: &str, quick: bool) -> (Vec<&'static str>, Fates) {
    if quick {
        match prop {
            "C01" => return (vec!["init-race"], plus(net(), only(plus(io(), crash()), &[K::IoVote]))),
            "C05" => return (vec!["crash-follower"], plus(only(late(), &[K::AeReq, K::AeRep]), plus(io(), crash()))),
            "C08" => return (vec!["early-change", "memb-fork"], only(late(), &[K::AeReq])),
            "C10" => return (vec!["snap"], plus(only(net(), &[K::SnapReq, K::AeReq]), only(plus(io(), crash()), &[K::IoPurge, K::Build, K::SnapGet, K::Read]))),
            "C13" => return (vec!["xfer", "fork"], plus(only(net(), &[K::VoteReq, K::AeReq]), only(io(), &[K::IoVote, K::IoTrunc]))),
            "C14" => return (vec!["snapfork"], plus(only(net(), &[K::AeReq, K::SnapReq]), only(io(), &[K::IoAppend, K::IoTrunc, K::IoPurge, K::Apply, K::Install]))),
            "C24" => return (vec!["auto-split"], only(net(), &[K::AeReq, K::VoteReq, K::VoteRep])),
            "C22" => return (vec!["init-race"], plus(net(), only(plus(io(), crash()), &[K::IoVote, K::IoAppend]))),
            _ => {}
        }
    }
    match prop {
        "C01" => (vec!["compete", "init-race"], s::fates_named("all")),
        "C02" => (vec!["fork2", "overwrite"], plus(late(), only(io(), &[K::IoAppend, K::IoTrunc]))),
        "C03" => (vec!["overwrite", "behind"], plus(late(), only(plus(io(), crash()), &[K::IoAppend]))),
        "C04" => (vec!["fork", "snap"], plus(late(), only(io(), &[K::Apply, K::Install]))),
        "C05" => (vec!["crash-leader", "crash-follower"], plus(only(late(), &[K::AeReq, K::AeRep]), plus(io(), crash()))),
        "C06" => (vec!["read-stale", "read-new-leader"], plus(late(), only(io(), &[K::Read, K::Apply]))),
        "C07" => (vec!["compete"], plus(only(net(), &[K::VoteReq, K::VoteRep]), plus(io(), crash()))),
        "C08" => (vec!["memb-fork", "early-change"], late()),
        "C09" => (vec!["snapfork", "snap"], plus(only(net(), &[K::SnapReq, K::SnapRep]), only(plus(io(), crash()), &[K::Install, K::Build, K::Apply, K::SnapGet]))),
        "C10" => (vec!["snap-auto", "snap"], plus(only(net(), &[K::SnapReq, K::AeReq]), only(plus(io(), crash()), &[K::IoPurge, K::Build, K::SnapGet, K::Read]))),
        "C11" => (vec!["fork-crash", "snap-auto-restart"], crash()),
        "C12" => (vec!["fork2", "leader-leaves"], plus(only(late(), &[K::AeReq, K::AeRep]), only(io(), &[K::IoAppend, K::Apply, K::IoTrunc]))),
        "C13" => (vec!["fork", "xfer"], plus(net(), io())),
        "C14" => (vec!["fork2", "snapfork"], plus(only(net(), &[K::AeReq, K::SnapReq]), io())),
        "C15" => (vec!["lease", "xfer-lost"], late()),
        "C16" => (vec!["fork2", "read-joint"], late()),
        "C17" => (vec!["fork", "snap"], io()),
        "C19" => (vec!["payload2"], plus(payload(), only(net(), &[K::AeReq, K::AeRep]))),
        "C24" => (vec!["timers", "auto", "auto-split"], plus(only(net(), &[K::AeReq, K::VoteReq, K::VoteRep]), only(crash(), &[K::IoVote]))),
        "C22" => (vec!["init", "init-race"], plus(net(), plus(io(), crash()))),
        _ => (vec![], vec![]),
    }
}

pub fn stages(prop: &str, tier: &str) -> Vec<Stage> {
    let quick = tier == "quick";
    let mut v = vec![];
    let single = "every scenario; every single departure from the fault-free course (delay, loss, duplication, slow I/O, crash before or after a store operation, short or refused requests) at every choice point";
    match prop {
        "C20" => {
            v.push(stage("failures", "every scenario with every single store operation failing", with(with_stops(), fail(), 1)));
            v.push(stage("stops", "stop and shutdown scenarios with every single departure of any kind", with(s::stops(), plus(fail(), s::fates_named("all")), 1)));
            let pairs = if quick { with([named(&["snap"]), s::stops()].concat(), fail(), 2) } else { with(with_stops(), fail(), 2) };
            v.push(stage("failures-pairs", "scenarios with every pair of failing store operations", pairs));
            v.push(stage(
                "failures-2",
                "stop and crash scenarios with every pair of a failing store operation and another departure",
                with([named(&["basic"]), if quick { vec![] } else { named(&["fork2", "snap"]) }, s::stops()].concat(), plus(fail(), net()), 2),
            ));
            return v;
        }
        _ => {}
    }
    if prop == "C18" {
        let sizes: &[u64] = if quick { &[5, 16, 30, 1000] } else { &[1, 2, 3, 5, 7, 8, 12, 16, 17, 24, 30, 35, 36, 37, 1000] };
        v.push(stage("chunks", "every snapshot transfer scenario and chunk size with every single departure", with(chunks(sizes), plus(chunk_fates(), s::fates_named("all")), 1)));
        v.push(stage("chunk-schedules", "every snapshot transfer scenario fault-free under four task scheduling orders", variants(with(chunks(sizes), vec![], 0))));
        for (name, b, prefix, alphabet, dq, dt) in progs(prop) {
            let what = "every sequence of chunk deliveries, restarts and elections over the alphabet up to the depth, after the prefix";
            v.push(stage(name, what, programs(name, &b, &prefix, &alphabet, if quick { dq } else { dt })));
        }
        let z: &[u64] = if quick { &[16] } else { &[5, 16] };
        v.push(stage("chunk-pairs", "snapshot transfer scenarios with every pair of departures in the transfer", with(chunks(z), chunk_fates(), 2)));
        return v;
    }
    let every = || everything().into_iter().filter(|c| prop == "C24" || !c.name.starts_with("timers")).collect::<Vec<_>>();
    v.push(stage("single", single, with(every(), s::fates_named("all"), 1)));
    v.push(stage("schedules", "every scenario fault-free under four task scheduling orders", variants(with(every(), vec![], 0))));
    if prop == "C24" || (prop == "C13" && !quick) {
        let v4: Vec<Cfg> = s::timers().into_iter().filter(|c| c.name.starts_with("timers")).chain(s::autos()).collect();
        let q: &[u8] = if quick { &[0, 2] } else { &[0, 1, 2, 3] };
        v.push(stage(
            "timeouts",
            "scenarios running on their own timers with every assignment of quarters of the range of election timeouts to nodes",
            variants(s::timeouts(v4, q)),
        ));
    }
    for (name, b, prefix, alphabet, dq, dt) in progs(prop) {
        v.push(stage(
            name,
            "every sequence of operations over the alphabet up to the depth, after the prefix",
            programs(name, &b, &prefix, &alphabet, if quick { dq } else { dt }),
        ));
    }
    let (names, fates) = pairs(prop, quick);
    if !names.is_empty() {
        v.push(stage("pairs", "selected scenarios with every pair of departures", with(named(&names), fates, 2)));
    }
    if !quick {
        v.push(stage("single-schedules", "every scenario and single departure under four task scheduling orders", variants(with(every(), s::fates_named("all"), 1))));
    }
    v
}

/// Properties that are explored with a single leader per term too.
pub fn has_single_term(prop: &str) -> bool {
    matches!(prop, "C01" | "C02" | "C03" | "C04" | "C07" | "C15" | "C17")
}
/// The stages of it.
pub fn in_single_term(prop: &str, tier: &str, stage: &str) -> bool {
    match prop {
        "C01" | "C07" => tier != "quick" || stage != "pairs",
        _ => stage == "single" || (tier != "quick" && stage != "pairs" && stage != "single-schedules"),
    }
}

/// Enumerations of parts of the code on their own.
pub fn extras(prop: &str, tier: &str) -> Vec<crate::arith::Extra> {
    match prop {
        "C21" => crate::arith::run(tier == "quick"),
        "C11" => crate::parts::starts(tier == "quick"),
        "C02" | "C14" => crate::parts::lists(tier == "quick"),
        "C13" | "C19" => crate::parts::searches(tier == "quick"),
        "C17" => crate::laws::waits(tier == "quick"),
        "C01" | "C07" => crate::laws::votes(tier == "quick"),
        "C24" => crate::laws::configs(tier == "quick"),
        _ => vec![],
    }
}

fn with_stops() -> Vec<Cfg> {
    all_named().into_iter().flat_map(|x| x.1).collect()
}

/// How a listed finding shows: a scenario and its deviations.
pub fn demo(id: &str, prop: &str) -> Option<(Cfg, Vec<(u32, u8)>)> {
    match (id, prop) {
        ("K1", _) => {
            let mut c = s("k1", vec![Init(1), W, Write(1), Crash(1), Restart(1), Write(1), W, W]);
            c.exclude = false;
            c.fates = vec![(K::IoAppend, vec![Hold2])];
            c.focus = vec![1];
            c.open = (2, 3);
            Some((c, vec![(0, 1)]))
        }
        ("K3", "C12") => {
            let mut c = named(&["snapfork"]).remove(0);
            c.fates = s::fates_named("all");
            Some((c, vec![(226, 1)]))
        }
        _ => None,
    }
}

fn s(name: &str, ops: Vec<Op>) -> Cfg {
    Cfg { name: name.into(), ops, open: (1, usize::MAX), ..Default::default() }
}

pub fn assumptions(prop: &str) -> Vec<String> {
    let mut v: Vec<String> = [
        "Nodes are openraft's own code (openraft crate of /repo, single-threaded runtime plugged in through AsyncRuntime); storage and network are the checker's, per the documented trait contracts.",
        "Real time is virtual: clocks of all nodes advance together.",
        "Stores are reliable unless the stage injects failures; a crash keeps what was reported flushed and a prefix of what was not.",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect();
    if prop == "C02" || prop == "C03" || prop == "C11" {
        v.push("Executions are cut short where the listed finding K1 takes effect (a leader restarted after losing unflushed entries).".into());
    }
    v
}
#[allow(unused)]
fn _unused() -> F {
    Hold1
}
