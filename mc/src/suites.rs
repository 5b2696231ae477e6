//! The scenarios: what is done to the cluster, and where the environment may deviate.

use crate::exec::Op::*;
use crate::exec::*;
use crate::world::{F, F::*, K};

pub type Fates = Vec<(K, Vec<F>)>;

pub fn net() -> Fates {
    vec![
        (K::AeReq, vec![HoldQ, Hold1, Drop, Dup1]),
        (K::AeRep, vec![Hold1, Drop]),
        (K::VoteReq, vec![Hold1, Drop, Dup1]),
        (K::VoteRep, vec![Hold1, Drop]),
        (K::SnapReq, vec![HoldQ, Hold1, Drop, Dup1]),
        (K::SnapRep, vec![Hold1, Drop]),
        (K::XferReq, vec![Hold1, Drop, Dup1]),
    ]
}
/// Delays long enough to span an election.
pub fn late() -> Fates {
    vec![
        (K::AeReq, vec![Hold1, Hold2, Dup1]),
        (K::AeRep, vec![Hold1, Hold2]),
        (K::VoteReq, vec![Hold1, Hold2, Dup1]),
        (K::VoteRep, vec![Hold1, Hold2]),
        (K::SnapReq, vec![Hold1, Hold2, Dup1]),
        (K::SnapRep, vec![Hold1, Hold2]),
    ]
}
pub fn io() -> Fates {
    vec![
        (K::IoAppend, vec![HoldQ, Hold1, Hold2]),
        (K::IoVote, vec![HoldQ, Hold1]),
        (K::IoTrunc, vec![HoldQ, Hold1]),
        (K::IoPurge, vec![HoldQ, Hold1]),
        (K::Apply, vec![HoldQ, Hold1]),
        (K::Build, vec![HoldQ, Hold1]),
        (K::Install, vec![HoldQ, Hold1]),
        (K::SnapGet, vec![HoldQ]),
        (K::Read, vec![HoldQ, Hold1, Hold2]),
    ]
}
pub fn crash() -> Fates {
    vec![
        (K::IoAppend, vec![CrashB, CrashA]),
        (K::IoVote, vec![CrashB, CrashA]),
        (K::IoTrunc, vec![CrashB, CrashA]),
        (K::IoPurge, vec![CrashB, CrashA]),
        (K::Apply, vec![CrashB, CrashA]),
        (K::Build, vec![CrashB, CrashA]),
        (K::Install, vec![CrashB, CrashA]),
        (K::CrashKeep, vec![Keep1, KeepAll]),
    ]
}
pub fn fail() -> Fates {
    vec![
        (K::IoAppend, vec![F::Err, ErrCb]),
        (K::IoVote, vec![F::Err]),
        (K::IoTrunc, vec![F::Err]),
        (K::IoPurge, vec![F::Err]),
        (K::Apply, vec![F::Err]),
        (K::Build, vec![F::Err]),
        (K::Install, vec![F::Err]),
        (K::SnapGet, vec![F::Err]),
        (K::Read, vec![F::Err]),
    ]
}
pub fn payload() -> Fates {
    vec![(K::Limited, vec![Short, Big1, Big2])]
}
pub fn plus(a: Fates, b: Fates) -> Fates {
    let mut v = a;
    for (k, f) in b {
        match v.iter_mut().find(|x| x.0 == k) {
            Some(x) => {
                for y in f {
                    if !x.1.contains(&y) {
                        x.1.push(y);
                    }
                }
            }
            None => v.push((k, f)),
        }
    }
    v
}
pub fn only(f: Fates, ks: &[K]) -> Fates {
    f.into_iter().filter(|x| ks.contains(&x.0)).collect()
}

fn s(name: &str, ops: Vec<Op>) -> Cfg {
    Cfg { name: name.into(), ops, open: (1, usize::MAX), ..Default::default() }
}

/// Elections, competing candidates.
pub fn elections() -> Vec<Cfg> {
    vec![
        s("basic", vec![Init(1), W, Write(1), Elect(2), W, R]),
        s("compete", vec![Init(1), W, Adv(310), Par(vec![ElectNow(2), ElectNow(3)]), ElectNow(1), W, R]),
        s("twice", vec![Init(1), W, Elect(2), ElectNow(2), Elect(3), W]),
        s("behind", vec![Init(1), W, Iso(3), W, Heal, Elect(3), W, Elect(2), W]),
        s("oldleader", vec![Init(1), Iso(1), Write(1), Elect(2), W, Heal, Elect(1), W]),
        Cfg { n: 2, init: vec![1, 2], ..s("two", vec![Init(1), W, Elect(2), W, Elect(1), W]) },
        Cfg { n: 4, init: vec![1, 2, 3, 4], ..s("four", vec![Init(1), W, Cut(1, 2), Cut(1, 3), Cut(4, 2), Cut(4, 3), Elect(2), Write(1), W, Heal, Elect(4), W]) },
        s("restart", vec![Init(1), W, Elect(2), Restart(2), Restart(1), W, ElectNow(3), W]),
        s("candrestart", vec![Init(1), W, Iso(2), Elect(2), Restart(2), Heal, Elect(3), W, Elect(2), W]),
    ]
}

/// Diverging logs.
pub fn forks() -> Vec<Cfg> {
    vec![
        s("fork", vec![Init(1), W, Iso(1), Write(1), Write(1), Elect(2), W, Heal, W, R]),
        s("fork2", vec![Init(1), W, Iso(1), WriteN(1, 3), Elect(2), Heal, W, Elect(1), W]),
        Cfg {
            max_payload: 1,
            ..s(
                "fig8",
                vec![Init(1), W, Mute(1), Write(1), Mute(2), Elect(2), Heal, Iso(2), Elect(1), Crash(1), Heal, Elect(2), W, Restart(1), W],
            )
        },
        Cfg {
            n: 5,
            init: vec![1, 2, 3, 4, 5],
            max_payload: 1,
            ..s(
                "fig8-5",
                vec![
                    Init(1),
                    Cut(1, 3),
                    Cut(1, 4),
                    Cut(1, 5),
                    Write(1),
                    Crash(1),
                    Mute(5),
                    Elect(5),
                    Write(5),
                    Crash(5),
                    Restart(1),
                    Heal,
                    Cut(1, 4),
                    Cut(1, 5),
                    Elect(1),
                    Crash(1),
                    Heal,
                    Restart(5),
                    Elect(5),
                    W,
                    Restart(1),
                    W,
                ],
            )
        },
        s("overwrite", vec![Init(1), Mute(1), WriteN(1, 2), Mute(2), Elect(2), WriteN(2, 2), Heal, Elect(3), W, R]),
        s("pingpong", vec![Init(1), Mute(1), Write(1), Elect(2), Mute(2), Write(2), Heal, Elect(1), Write(1), Elect(3), W]),
        Cfg { max_payload: 2, ..s("catchup", vec![Init(1), Iso(3), WriteN(1, 5), Elect(2), Heal, WriteN(2, 2), Elect(3), W]) },
    ]
}

/// Crashes and restarts.
pub fn crashes() -> Vec<Cfg> {
    vec![
        s("crash-leader", vec![Init(1), W, Par(vec![Write(1), Write(1)]), Crash(1), Elect(2), W, Restart(1), W, R]),
        s("crash-all", vec![Init(1), W, W, CrashAll, RestartAll, R, Elect(2), W]),
        s("crash-follower", vec![Init(1), W, Crash(2), W, Restart(2), W, Elect(2), W]),
        Cfg {
            store_committed: false,
            ..s("crash-all-nocommitted", vec![Init(1), W, W, CrashAll, RestartAll, R, W, Elect(2), W])
        },
        Cfg { sm_durable: true, ..s("crash-sm", vec![Init(1), W, W, CrashAll, RestartAll, R, W, Elect(3), W]) },
        Cfg {
            sm_durable: true,
            store_committed: false,
            ..s("crash-sm-nocommitted", vec![Init(1), W, Restart(2), W, Restart(3), Restart(1), W, R])
        },
        s("fork-crash", vec![Init(1), W, Iso(1), Write(1), Crash(1), Elect(2), W, Restart(1), Heal, W, Elect(1), W]),
    ]
}

/// Snapshots, purges, installs.
pub fn snaps() -> Vec<Cfg> {
    let base = vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Heal, W, Elect(3), W];
    let fork = vec![Init(1), W, Iso(1), WriteN(1, 2), Elect(2), W, W, Snap(2), Purge(2), Heal, W, Elect(1), W];
    vec![
        s("snap", base.clone()),
        s("snapfork", fork.clone()),
        Cfg { sm_durable: true, ..s("snap-sm", base.clone()) },
        Cfg { sm_durable: true, ..s("snapfork-sm", fork.clone()) },
        Cfg { keep: 1, snap_logs: Some(2), ..s("snap-auto", vec![Init(1), W, Iso(3), W, W, W, Heal, W, Elect(2), W, W]) },
        Cfg {
            keep: 1,
            snap_logs: Some(2),
            ..s("snap-auto-restart", vec![Init(1), W, W, Restart(1), W, Restart(2), W, W, CrashAll, RestartAll, R, W])
        },
        Cfg {
            sm_durable: true,
            snap_durable: false,
            ..s("snap-volatile", vec![Init(1), W, W, Snap(1), Purge(1), Restart(1), Iso(3), W, Heal, W, Crash(3), Restart(3), W])
        },
        s("snap-install-twice", vec![Init(1), Iso(3), W, Snap(1), Purge(1), Heal, W, Iso(3), W, Snap(1), Purge(1), Heal, W, R]),
        s("snap-memb", vec![Init(1), AddL(1, 4, false), Iso(3), Change(1, vec![1, 2, 4], true), Snap(1), Purge(1), Heal, W, Elect(2), W]).n4(),
        Cfg { purge_batch: 3, keep: 1, ..s("purge-batch", vec![Init(1), W, W, Snap(1), W, Snap(1), W, W, Snap(1), Restart(1), W]) },
        Cfg { keep: 100, ..s("purge-busy", vec![Init(1), Iso(3), W, W, Heal, W, Seq(vec![Snap(1), Purge(1)]), W, Elect(2), W]) },
        Cfg { lag: 1, ..s("snap-lag", vec![Init(1), W, Snap(1), Iso(3), W, W, W, Heal, W, Elect(3), W]) },
    ]
}

impl Cfg {
    fn n4(self) -> Cfg {
        Cfg { n: 4, ..self }
    }
}

/// Membership changes.
pub fn membs() -> Vec<Cfg> {
    vec![
        Cfg {
            init: vec![1],
            ..s("grow", vec![Init(1), W, AddL(1, 2, true), AddL(1, 3, true), Change(1, vec![1, 2, 3], false), W, Elect(2), W])
        },
        s("replace", vec![Init(1), W, AddL(1, 4, true), Change(1, vec![1, 2, 4], false), W, Elect(4), W]).n4(),
        s("shrink", vec![Init(1), W, Change(1, vec![1, 2], true), W, Change(1, vec![1], false), W, R]),
        s("leader-leaves", vec![Init(1), W, Change(1, vec![2, 3], false), W, Elect(2), W, R]),
        s("leader-demoted", vec![Init(1), W, Change(1, vec![2, 3], true), W, Elect(3), W, R]),
        s(
            "memb-fork",
            vec![
                Init(1),
                AddL(1, 4, false),
                Iso(1),
                Change(1, vec![1, 2, 4], false),
                Elect(2),
                W,
                Change(2, vec![2, 3, 4], false),
                Heal,
                W,
                Elect(3),
                W,
            ],
        )
        .n4(),
        s(
            "joint-handover",
            vec![Init(1), AddL(1, 4, true), Mute(1), Change(1, vec![1, 4], false), Heal, Elect(2), W, Change(2, vec![2, 3], false), Elect(3), W],
        )
        .n4(),
        s(
            "busy",
            vec![
                Init(1),
                AddL(1, 4, true),
                Par(vec![Change(1, vec![1, 2, 4], false), Change(1, vec![1, 3], false), Write(1)]),
                W,
                Elect(2),
                Change(2, vec![1, 2, 3], true),
                W,
            ],
        )
        .n4(),
        s("early-change", vec![Init(1), W, Mute(2), Elect(2), Change(2, vec![2, 3], false), Heal, W, Elect(1), W]),
        s(
            "ops",
            vec![
                Init(1),
                AddL(1, 4, true),
                Memb(1, MembOp::AddVoters(vec![4], true)),
                Memb(1, MembOp::RemoveVoters(vec![3], true)),
                W,
                Memb(1, MembOp::RemoveNodes(vec![3])),
                Elect(2),
                W,
            ],
        )
        .n4(),
        Cfg {
            init: vec![1, 2, 3, 4, 5],
            ..s(
                "memb-fork-snap",
                vec![
                    Init(1),
                    W,
                    Cut(1, 3),
                    Cut(1, 4),
                    Cut(1, 5),
                    Cut(2, 3),
                    WriteN(1, 2),
                    Change(1, vec![1, 2, 3, 4], true),
                    Mute(3),
                    Elect(3),
                    Change(3, vec![1, 2, 3, 5], true),
                    Heal,
                    Iso(3),
                    Restart(1),
                    Elect(1),
                    W,
                    Snap(2),
                    Purge(2),
                    Elect(2),
                    Heal,
                    W,
                    Elect(1),
                    W,
                ],
            )
        }
        .n5(),
        s("disjoint", vec![Init(1), W, AddL(1, 4, true), AddL(1, 5, true), Change(1, vec![4, 5], false), Elect(4), W, R]).n5(),
    ]
}
impl Cfg {
    fn n5(self) -> Cfg {
        Cfg { n: 5, ..self }
    }
}

/// Linearizable reads.
pub fn reads() -> Vec<Cfg> {
    vec![
        s("read-stale", vec![Init(1), W, Iso(1), Read(1), Elect(2), W, Read(1), Heal, Read(1), R]),
        s("read-new-leader", vec![Init(1), W, Mute(1), Write(1), Elect(2), Read(2), W, Heal, R]),
        s("read-pending", vec![Init(1), Par(vec![Write(1), Read(1)]), Par(vec![Read(1), Write(1)]), Elect(2), Par(vec![Read(2), Read(1)]), R]),
        s("read-noop", vec![Init(1), W, Mute(2), Elect(2), Read(2), Heal, R, W]),
        s("read-joint", vec![Init(1), AddL(1, 4, true), Mute(1), Change(1, vec![1, 4], false), Read(1), Heal, Read(1), Iso(1), Read(1), Elect(2), W]).n4(),
        s("read-lease", vec![Init(1), W, Restart(3), Iso(1), ElectNow(2), W, Read(1), Heal, R]),
        s("read-lease-lapsed", vec![Init(1), W, Cut(1, 3), Adv(310), Write(1), Par(vec![ElectNow(2), Iso(1)]), W, Read(1), Heal, R]),
        s("read-xfer", vec![Init(1), W, Par(vec![Read(1), Xfer(1, 2), Read(1)]), Read(1), W, Read(1), Iso(1), Read(1), Xfer(2, 3), W, R]),
        s("read-restart", vec![Init(1), W, W, Restart(1), Read(1), CrashAll, RestartAll, Read(1), R]),
    ]
}

pub fn leases() -> Vec<Cfg> {
    vec![
        s("lease", vec![Init(1), W, ElectNow(2), Adv(100), Hb(1), Adv(100), ElectNow(3), Adv(250), ElectNow(2), W]),
        s("lease-hb", vec![Init(1), W, Adv(290), Hb(1), Adv(40), ElectNow(2), Adv(200), ElectNow(3), W]),
        s("xfer", vec![Init(1), W, Xfer(1, 2), W, Xfer(2, 3), W]),
        s("xfer-behind", vec![Init(1), Iso(2), W, Heal, Xfer(1, 2), W, Adv(600), R]),
        s("xfer-lost", vec![Init(1), W, Iso(2), Xfer(1, 2), Write(1), Heal, Adv(400), W]),
        s("xfer-late", vec![Init(1), W, Cut(1, 3), W, Iso(2), Mend(1, 3), Xfer(1, 2), Adv(60), Heal, Adv(5), ElectNow(2), W]),
        s("lease-old", vec![Init(1), W, Iso(1), Elect(2), Heal, W, ElectNow(1), Adv(100), ElectNow(3), W]),
        s("lease-behind", vec![Init(1), W, Iso(3), W, Mend(2, 3), ElectNow(2), Adv(200), Heal, Hb(1), ElectNow(2), W]),
        s("lease-restart", vec![Init(1), W, Restart(2), ElectNow(2), W, Restart(3), ElectNow(3), W]),
    ]
}

/// Clusters running on their own timers.
pub fn autos() -> Vec<Cfg> {
    vec![
        s("auto", vec![Init(1), Autopilot(true), W, Adv(200), Iso(1), Adv(1200), W, Heal, Adv(600), W]),
        s("auto-crash", vec![Init(1), Autopilot(true), W, Crash(1), Adv(1200), W, Restart(1), Adv(600), W]),
        s("auto-split", vec![Init(1), Autopilot(true), Cut(1, 2), Adv(600), W, Heal, Cut(2, 3), Adv(600), W]),
    ]
}

/// Switches, timeouts and policies.
pub fn timers() -> Vec<Cfg> {
    let all = |b: bool| Autopilot(b);
    vec![
        s("timers", vec![Init(1), all(true), Adv(600), Stable(1000), Iso(1), Adv(1500), Heal, Adv(600), Stable(600), W]),
        s("timers-off", vec![Init(1), W, Adv(100), Quiet(1, 800), Hb(1), Adv(100), Quiet(1, 800), ElectNow(2), Adv(50), Quiet(2, 800), Adv(800)]),
        s("timers-hb", vec![Init(1), all(true), Adv(600), Switch(1, false, true, true), Adv(75), Quiet(1, 300), Adv(1500), Switch(1, true, true, true), Adv(600), Stable(400), W]),
        s("timers-elect", vec![Init(1), all(true), Adv(300), Switch(2, true, false, true), Switch(3, true, false, true), Crash(1), Adv(1600), Switch(3, true, true, true), Adv(1600), W, Restart(1), Adv(600), Stable(500)]),
        s("timers-tick", vec![Init(1), all(true), Adv(300), Switch(3, true, true, false), Switch(2, true, false, true), Crash(1), Adv(1600), Switch(3, true, true, true), Adv(1600), W, Restart(1), Adv(600), Stable(500)]),
        s("timers-tick-leader", vec![Init(1), all(true), Adv(300), Switch(1, true, true, false), Adv(20), Quiet(1, 300), Adv(1500), Switch(1, true, true, true), Adv(600), Stable(500), W]),
        Cfg { n: 4, ..s("timers-learner", vec![Init(1), AddL(1, 4, true), all(true), Adv(600), Stable(500), Iso(4), Adv(1600), Heal, Adv(300), Stable(500), Crash(1), Adv(1500), Restart(1), Adv(600), W]) },
        Cfg { n: 4, ..s("timers-removed", vec![Init(1), AddL(1, 4, true), Change(1, vec![1, 2, 4], true), all(true), Adv(600), Stable(500), Iso(1), Iso(3), Adv(1600), Heal, Adv(600), W, R]) },
        Cfg { init: vec![1], n: 2, ..s("timers-sole", vec![Init(1), W, all(true), Restart(1), Adv(200), W, AddL(1, 2, true), Adv(300), Restart(1), Adv(300), W]) },
        s("timers-greater", vec![Init(1), W, Cut(1, 3), W, Crash(1), Mend(1, 3), ElectNow(3), all(true), Adv(1600), W, Restart(1), Adv(600), Stable(500)]),
        s("timers-again", vec![Init(1), all(true), Iso(2), Adv(900), Adv(900), Adv(900), Heal, Adv(600), W, Restart(1), Adv(1500), W]),
        Cfg { snap_logs: Some(3), ..s("policy", vec![Init(1), W, W, W, W, W, WriteN(1, 4), W, Restart(2), W, W, Elect(2), W, W, W]) },
        Cfg { snap_logs: Some(2), keep: 1, ..s("policy-manual", vec![Init(1), W, Snap(1), W, Snap(2), W, Iso(3), W, WriteN(1, 3), Heal, W, Restart(3), W, W, W]) },
        Cfg { n: 4, snap_logs: Some(4), keep: 100, ..s("policy-learner", vec![Init(1), W, W, AddL(1, 4, true), W, W, Change(1, vec![1, 2, 4], true), W, WriteN(1, 9), W]) },
    ]
}

/// Scenarios with every choice of election timeouts.
pub fn timeouts(v: Vec<Cfg>, quarters: &[u8]) -> Vec<Cfg> {
    let mut out = vec![];
    for c in v {
        let mut ds: Vec<Vec<u8>> = vec![vec![]];
        for _ in 0..c.n {
            ds = ds.into_iter().flat_map(|d| quarters.iter().map(move |q| [d.clone(), vec![*q]].concat())).collect();
        }
        for d in ds {
            let name = format!("{}/t{}", c.name, d.iter().map(|q| q.to_string()).collect::<String>());
            out.push(Cfg { draws: d, name, k: 0, fates: vec![], ..c.clone() });
        }
    }
    out
}

pub fn payloads() -> Vec<Cfg> {
    let mut v = vec![];
    for mp in [1, 2, 3] {
        v.push(Cfg { max_payload: mp, ..s(&format!("payload{mp}"), vec![Init(1), Iso(3), WriteN(1, 5), Heal, WriteN(1, 3), Elect(2), W]) });
    }
    v
}

pub fn inits() -> Vec<Cfg> {
    vec![
        Cfg { open: (0, 99), ..s("init", vec![Init(1), Init(2), W, Init(1), Elect(2), W]) },
        Cfg { open: (0, 99), ..s("init-race", vec![Par(vec![Init(1), Init(2)]), Adv(310), ElectNow(3), W, W]) },
        Cfg { open: (0, 99), ..s("init-crash", vec![Init(1), Restart(1), Init(1), W, Init(2), W]) },
        Cfg { open: (0, 99), ..s("init-notme", vec![InitWith(1, vec![2, 3]), Init(2), W, InitWith(3, vec![1, 2])]) },
    ]
}

/// Logs long enough for the leader's search for the matching position and the chunked reads at startup.
pub fn longs() -> Vec<Cfg> {
    vec![
        s("long-behind", vec![Init(1), Iso(3), WriteN(1, 20), Elect(2), Heal, W, Elect(3), W]),
        Cfg { max_payload: 7, ..s("long-fork", vec![Init(1), W, Iso(1), WriteN(1, 20), Elect(2), WriteN(2, 24), Heal, W, Elect(1), W]) },
        Cfg { keep: 6, ..s("long-snap", vec![Init(1), Iso(3), WriteN(1, 20), Snap(1), Elect(2), Heal, W, Elect(1), W]) },
        Cfg { keep: 3, ..s("long-snapfork", vec![Init(1), Iso(1), WriteN(1, 18), Elect(2), WriteN(2, 12), Snap(2), Heal, WriteN(2, 9), Elect(1), W]) },
        Cfg { open: (3, 99), ..s("long-restart", vec![Init(1), W, WriteN(1, 70), Restart(1), W, CrashAll, RestartAll, W, R]) },
        Cfg {
            open: (5, 99),
            ..s(
                "long-memb",
                vec![Init(1), AddL(1, 4, true), WriteN(1, 66), Change(1, vec![1, 2, 4], true), WriteN(1, 62), Restart(2), CrashAll, RestartAll, Elect(2), W],
            )
            .n4()
        },
        s("terms", vec![Init(1), W, Elect(2), W, Elect(3), W, Elect(1), W, Iso(1), Write(1), Elect(2), CrashAll, RestartAll, Heal, W, Elect(1), W]),
        Cfg {
            keep: 2,
            ..s("terms-snap", vec![Init(1), W, Elect(2), W, Elect(3), W, Snap(3), Snap(1), W, Restart(1), Elect(2), W, CrashAll, RestartAll, Elect(1), W, R])
        },
    ]
}

/// Rarely taken paths.
pub fn odds() -> Vec<Cfg> {
    vec![
        Cfg {
            open: (2, 3),
            ..s("init-late", vec![Iso(2), Init(2), Init(1), Seq(vec![Heal, Elect(2), W]), W, Elect(1), W])
        },
        Cfg {
            n: 5,
            init: vec![1, 2, 3, 4, 5],
            max_payload: 1,
            ..s(
                "oldstream",
                vec![
                    Init(1),
                    W,
                    Adv(310),
                    Par(vec![Cut(1, 2), Cut(1, 4), Cut(1, 5), Cut(3, 2), Cut(3, 4), Cut(3, 5)]),
                    WriteN(1, 3),
                    ElectNow(2),
                    Mend(1, 2),
                    W,
                    Heal,
                    W,
                ],
            )
        },
        Cfg { n: 5, init: vec![1, 2, 3, 4, 5], max_payload: 1, ..s("five", vec![Init(1), Cut(1, 5), WriteN(1, 3), Cut(1, 4), WriteN(1, 2), Heal, Elect(4), W]) },
        s(
            "nodes",
            vec![
                Init(1),
                Memb(1, MembOp::AddNodes(vec![4])),
                Memb(1, MembOp::SetNodes(vec![4, 2])),
                Memb(1, MembOp::AddVoterIds(vec![4], true)),
                W,
                Memb(1, MembOp::RemoveVoters(vec![4], false)),
                Memb(1, MembOp::ReplaceNodes(vec![1, 2, 3])),
                Elect(2),
                W,
            ],
        )
        .n4(),
        s("learner-lag", vec![Init(1), AddL(1, 4, false), Iso(4), WriteN(1, 3), Snap(1), Purge(1), Heal, W, Change(1, vec![2, 3, 4], false), Elect(4), W]).n4(),
        s("xfer-self", vec![Init(1), Xfer(1, 1), W, Elect(2), W]),
        Cfg { n: 1, init: vec![1], ..s("alone", vec![Init(1), W, Restart(1), W, Snap(1), Xfer(1, 1), W, Xfer(1, 9), W]) },
        Cfg { n: 2, init: vec![1], ..s("xfer-learner", vec![Init(1), W, AddL(1, 2, true), Xfer(1, 2), W, Restart(2), W]) },
    ]
}

/// Snapshots sent in parts.
pub fn chunks(sizes: &[u64]) -> Vec<Cfg> {
    let mut v = vec![];
    for &z in sizes {
        let c = |name: &str, ops: Vec<Op>| Cfg { chunk: Some(z), ..s(&format!("{name}/{z}"), ops) };
        v.extend([
            c("chunk", vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Heal, W, Adv(210), Adv(210), Elect(3), W]),
            c("chunk-restart", vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Heal, Adv(210), Restart(3), Adv(50), W, Adv(210), W]),
            c("chunk-late", vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Heal, Adv(30), Restart(3), Adv(215), Adv(50), W, Adv(210), W]),
            c("chunk-leader", vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Snap(2), Purge(2), Heal, Elect(2), Adv(210), W, Adv(210), W]),
            c("chunk-newer", vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Heal, W, Snap(1), Purge(1), Adv(210), W, Adv(210), W]),
            c("chunk-fork", vec![Init(1), W, Iso(1), WriteN(1, 2), Elect(2), W, W, Snap(2), Purge(2), Heal, W, Adv(210), Adv(210), Elect(1), W]),
            c("chunk-empty", vec![Init(1), Iso(3), Snap(1), Purge(1), Heal, W, Adv(210), W]),
            Cfg { v1: true, ..c("chunk-v1", vec![Init(1), W, Iso(3), W, W, Snap(1), Purge(1), Heal, W, Adv(210), Elect(2), W]) },
        ]);
    }
    v
}
pub fn chunk_fates() -> Fates {
    vec![
        (K::ChunkReq, vec![HoldQ, Hold1, Hold2, Drop, DropU, Lose, DupQ, Dup1]),
        (K::ChunkRep, vec![Hold1, Hold2, Drop, Lose]),
        (K::Install, vec![HoldQ, Hold1, CrashB, CrashA]),
        (K::SnapGet, vec![HoldQ]),
        (K::Build, vec![Hold1]),
        (K::Apply, vec![Hold1]),
    ]
}

pub fn stops() -> Vec<Cfg> {
    vec![
        s("stop", vec![Init(1), W, Par(vec![Write(1), Shutdown(1)]), Elect(2), W]),
        s("stop-follower", vec![Init(1), W, Shutdown(2), W, Elect(3), W]),
        s("stop-busy", vec![Init(1), Iso(1), Par(vec![Write(1), Read(1), Write(1)]), Shutdown(1), Elect(2), W]),
        s("stop-sm", vec![Init(1), W, Par(vec![Write(1), Sm(1), Write(1), Sm(1), Shutdown(1), Sm(1)]), Elect(2), Sm(2), W]),
        s("sm", vec![Init(1), W, Par(vec![Write(1), Sm(1), Snap(1), Sm(1), Write(1), Sm(2)]), Elect(2), Par(vec![Sm(2), Sm(1)]), W]),
        Cfg {
            n: 4,
            ..s(
                "stop-pending",
                vec![Init(1), W, Iso(1), Par(vec![AddL(1, 4, true), Change(1, vec![1, 2], false), Snap(1), Xfer(1, 2), Read(1)]), Shutdown(1), Elect(2), W],
            )
        },
    ]
}

pub fn with(v: Vec<Cfg>, f: Fates, k: usize) -> Vec<Cfg> {
    v.into_iter().map(|c| Cfg { fates: f.clone(), k, ..c }).collect()
}
pub fn tag(v: Vec<Cfg>, t: &str) -> Vec<Cfg> {
    v.into_iter().map(|c| Cfg { name: format!("{}{t}", c.name), ..c }).collect()
}
pub fn variants(v: Vec<Cfg>) -> Vec<Cfg> {
    let mut out = vec![];
    for c in v {
        for a in 0..4u8 {
            out.push(Cfg { variant: a, name: if a > 0 { format!("{}/s{a}", c.name) } else { c.name.clone() }, ..c.clone() });
        }
    }
    out
}

/// Every sequence of `depth` operations over `alphabet` after `prefix`.
pub fn programs(name: &str, base: &Cfg, prefix: &[Op], alphabet: &[Op], depth: usize) -> Vec<Cfg> {
    let mut seqs: Vec<Vec<Op>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = vec![];
        for q in &seqs {
            for a in alphabet {
                if useless(q, a) {
                    continue;
                }
                let mut t = q.clone();
                t.push(a.clone());
                next.push(t);
            }
        }
        seqs = next;
    }
    seqs.into_iter()
        .map(|q| {
            let mut ops = prefix.to_vec();
            ops.extend(q);
            Cfg { name: name.into(), ops, k: 0, ..base.clone() }
        })
        .collect()
}
/// Operations without effect right after what precedes them.
fn useless(q: &[Op], a: &Op) -> bool {
    let down = |n: u64| {
        let mut d = false;
        for o in q {
            match o {
                Crash(m) if *m == n => d = true,
                Restart(m) if *m == n => d = false,
                CrashAll => d = true,
                RestartAll => d = false,
                _ => {}
            }
        }
        d
    };
    let dirty = q.iter().rposition(|o| matches!(o, Iso(_) | Cut(..) | CutOne(..) | Mute(_)));
    let healed = q.iter().rposition(|o| matches!(o, Heal));
    match a {
        Stable(_) => dirty.is_some() && healed < dirty,
        Heal => dirty.is_none() || healed > dirty,
        Iso(_) | Cut(..) | Mute(_) => q.last() == Some(a),
        Chunk(n, _, _) => down(*n),
        Crash(n) | Write(n) | Read(n) | Elect(n) | ElectNow(n) | Snap(n) | Purge(n) | Shutdown(n) | Hb(n) => down(*n),
        Restart(n) => q.last() == Some(a) || (!down(*n) && q.last() == Some(&Crash(*n))),
        _ => false,
    }
}

pub fn all_named() -> Vec<(&'static str, Vec<Cfg>)> {
    vec![
        ("elections", elections()),
        ("forks", forks()),
        ("crashes", crashes()),
        ("snaps", snaps()),
        ("membs", membs()),
        ("reads", reads()),
        ("leases", leases()),
        ("autos", autos()),
        ("timers", timers()),
        ("payloads", payloads()),
        ("inits", inits()),
        ("longs", longs()),
        ("odds", odds()),
        ("chunks", chunks(&[5, 16, 1000])),
        ("stops", stops()),
    ]
}
pub fn fates_named(n: &str) -> Fates {
    match n {
        "net" => net(),
        "late" => late(),
        "io" => io(),
        "crash" => crash(),
        "fail" => fail(),
        "payload" => payload(),
        "chunk" => chunk_fates(),
        "netio" => plus(net(), io()),
        "iocrash" => plus(io(), crash()),
        "all" => plus(plus(net(), io()), plus(crash(), payload())),
        _ => vec![],
    }
}
