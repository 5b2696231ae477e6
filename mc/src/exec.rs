//! One execution: start nodes, run the scenario's operations to quiescence, settle, judge.

use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;

use openraft::async_runtime::watch::WatchReceiver;
use openraft::error::RaftError;
use openraft::metrics::WaitError;
use openraft::raft::{AppendEntriesRequest, InstallSnapshotRequest, VoteRequest};
use openraft::storage::{Snapshot, SnapshotMeta};
use openraft::{ChangeMembers, Config, RaftMetrics, ServerState, SnapshotPolicy};

use crate::env::*;
use crate::rt;
use crate::types::*;
use crate::world::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Init(u64),
    InitWith(u64, Vec<u64>),
    /// Let the leader lease pass, then ask node to elect itself.
    Elect(u64),
    /// Ask node to elect itself now.
    ElectNow(u64),
    Write(u64),
    /// Write / read at whichever node leads with the greatest vote.
    W,
    R,
    /// All at once, without waiting for quiet in between.
    Par(Vec<Op>),
    /// One after the other, as one operation as far as delays are concerned.
    Seq(Vec<Op>),
    /// Undo a cut.
    Mend(u64, u64),
    /// What the node sends as a leader gets lost until the network heals.
    Mute(u64),
    /// Several writes submitted at once.
    WriteN(u64, u32),
    Read(u64),
    /// Read submitted together with a write.
    WriteRead(u64, u64),
    Iso(u64),
    Cut(u64, u64),
    CutOne(u64, u64),
    Heal,
    Crash(u64),
    Restart(u64),
    CrashAll,
    RestartAll,
    Snap(u64),
    /// Purge everything the node's snapshot covers.
    Purge(u64),
    PurgeTo(u64, u64),
    AddL(u64, u64, bool),
    Change(u64, Vec<u64>, bool),
    Memb(u64, MembOp),
    Hb(u64),
    Xfer(u64, u64),
    Adv(u64),
    Shutdown(u64),
    Autopilot(bool),
    /// Switch of one node: heartbeat, elect, tick.
    Switch(u64, bool, bool, bool),
    /// Time passes in which, nothing having gone wrong so far, the node sends nothing.
    Quiet(u64, u64),
    /// Time passes in which, all being well, nobody votes.
    Stable(u64),
    /// Deliver to the node a part of a snapshot (counted from 0) built earlier in the execution, as the builder's message.
    Chunk(u64, usize, usize),
    /// Wait API: applied index at least the current committed of that node.
    WaitApplied(u64, u64),
    /// Have a function run on the node's state machine.
    Sm(u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum MembOp {
    AddVoters(Vec<u64>, bool),
    RemoveVoters(Vec<u64>, bool),
    RemoveNodes(Vec<u64>),
    AddVoterIds(Vec<u64>, bool),
    AddNodes(Vec<u64>),
    SetNodes(Vec<u64>),
    ReplaceNodes(Vec<u64>),
}

#[derive(Clone, Debug)]
pub struct Cfg {
    pub name: String,
    pub n: u64,
    pub init: Vec<u64>,
    pub max_payload: u64,
    pub keep: u64,
    pub snap_logs: Option<u64>,
    pub lag: u64,
    pub purge_batch: u64,
    pub chunk: Option<u64>,
    pub v1: bool,
    pub sm_durable: bool,
    pub snap_durable: bool,
    pub store_committed: bool,
    pub fates: Vec<(K, Vec<F>)>,
    pub focus: Vec<u64>,
    pub ops: Vec<Op>,
    /// Operations during which choices are open.
    pub open: (usize, usize),
    pub variant: u8,
    pub settle: bool,
    /// Cut the execution short at listed findings.
    pub exclude: bool,
    /// Node whose disk is lost for good before settling (never restarted).
    pub lose: Vec<u64>,
    /// Which quarter of the range of election timeouts each node draws from (empty: arbitrary).
    pub draws: Vec<u8>,
    /// Deviation bound.
    pub k: usize,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            name: String::new(),
            n: 3,
            init: vec![1, 2, 3],
            max_payload: 300,
            keep: 0,
            snap_logs: None,
            lag: 5000,
            purge_batch: 1,
            chunk: None,
            v1: false,
            sm_durable: false,
            snap_durable: true,
            store_committed: true,
            fates: vec![],
            focus: vec![],
            ops: vec![],
            open: (0, usize::MAX),
            variant: 0,
            settle: true,
            exclude: true,
            lose: vec![],
            draws: vec![],
            k: 1,
        }
    }
}

pub const HB: u64 = 50;
pub const EL_MIN: u64 = 150;
pub const EL_MAX: u64 = 300;
const MS: u64 = 1_000_000;

#[derive(Debug, Default)]
pub struct Outcome {
    pub viols: Vec<(String, String)>,
    pub trace: Vec<ChoiceRec>,
    pub hashes: Vec<u64>,
    pub pruned: bool,
    pub deliveries: u64,
    pub polls: u64,
    pub log: Vec<String>,
    pub leaders: usize,
    pub commits: usize,
    pub acked: usize,
    pub crashes: u32,
    pub excluded: Option<&'static str>,
    pub others: u32,
    pub known: Vec<(&'static str, &'static str, String)>,
}

fn raft_config(c: &Cfg) -> Arc<Config> {
    Arc::new(Config {
        cluster_name: "mc".into(),
        election_timeout_min: EL_MIN,
        election_timeout_max: EL_MAX,
        heartbeat_interval: HB,
        install_snapshot_timeout: 200,
        max_payload_entries: c.max_payload,
        replication_lag_threshold: c.lag,
        snapshot_policy: match c.snap_logs {
            Some(n) => SnapshotPolicy::LogsSinceLast(n),
            None => SnapshotPolicy::Never,
        },
        snapshot_max_chunk_size: c.chunk.unwrap_or(3 << 20),
        max_in_snapshot_log_to_keep: c.keep,
        purge_batch_size: c.purge_batch,
        enable_tick: true,
        enable_heartbeat: false,
        enable_elect: false,
        ..Default::default()
    })
}

pub struct Exec<'a> {
    cfg: &'a Cfg,
    rcfg: Arc<Config>,
    autopilot: bool,
    next_req: u32,
    pub hashes: Vec<u64>,
    crashes: u32,
}

type Prune<'a> = &'a dyn Fn(usize, u64, usize) -> bool;

/// Run one execution. `prune(op, hash, deviations used)` may cut it short at an operation boundary.
pub fn run(cfg: &Cfg, dev: &[(u32, u8)], prune: Option<Prune>, logging: bool) -> Outcome {
    rt::reset();
    rt::set_sched_alt(cfg.variant);
    let mut wd = World::new();
    wd.fates = cfg.fates.iter().cloned().collect();
    wd.focus = cfg.focus.clone();
    wd.dev = dev.to_vec();
    wd.lease_ns = EL_MAX * MS;
    let text = format!("{:?}", cfg.ops);
    wd.about = About {
        lease: text.contains("Xfer") || text.contains("ElectNow"),
        chunk: cfg.chunk.is_some(),
        payload: cfg.max_payload < 10,
        stops: text.contains("Shut"),
    };
    wd.snap_logs = cfg.snap_logs;
    wd.store_committed = cfg.store_committed;
    wd.sm_durable = cfg.sm_durable;
    wd.snap_durable = cfg.snap_durable;
    wd.keep_logs = cfg.keep;
    wd.chunked = cfg.chunk.is_some() || cfg.v1;
    wd.v1 = cfg.v1;
    wd.max_payload = cfg.max_payload;
    wd.exclude = cfg.exclude;
    if logging {
        wd.log = Some(vec![]);
    }
    for n in 1..=cfg.n {
        wd.nodes.insert(n, NodeSt { id: n, ..Default::default() });
    }
    install(wd);
    let mut ex = Exec { cfg, rcfg: raft_config(cfg), autopilot: false, next_req: 0, hashes: vec![], crashes: 0 };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ex.main(prune, dev)));
    let (pruned, err) = match r {
        Ok(p) => (p, None),
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()));
            (false, Some(m.unwrap_or_default()))
        }
    };
    let hashes = std::mem::take(&mut ex.hashes);
    let crashes = ex.crashes;
    let polls = rt::polls();
    // Tear down while the world still exists.
    let rafts: Vec<_> = w(|w| w.nodes.values_mut().map(|x| (x.raft.take(), std::mem::take(&mut x.ioq))).collect());
    drop(rafts);
    rt::reset();
    let wd = uninstall().unwrap();
    let mut o = Outcome {
        viols: wd.viols,
        trace: wd.trace,
        hashes,
        pruned,
        excluded: wd.excluded,
        known: wd.known,
        others: wd.others,
        deliveries: wd.deliveries,
        polls,
        log: wd.log.unwrap_or_default(),
        leaders: wd.g.leaders.len(),
        commits: wd.g.commits.len(),
        acked: wd.cli.iter().filter(|c| matches!(c.done, Some((_, CliRes::Wrote(..))))).count(),
        crashes,
    };
    if let Some(e) = err {
        o.viols.push(("MC".into(), format!("checker panicked: {e}")));
    }
    o
}

impl Exec<'_> {
    fn main(&mut self, prune: Option<Prune>, dev: &[(u32, u8)]) -> bool {
        for n in 1..=self.cfg.n {
            self.start(n);
        }
        self.quiesce();
        let ops = self.cfg.ops.clone();
        for (i, op) in ops.iter().enumerate() {
            // Nodes that crashed at a choice point come back before the next operation.
            let back: Vec<u64> = w(|w| w.nodes.values().filter(|x| !x.up && x.auto_restart).map(|x| x.id).collect());
            for n in back {
                self.start(n);
                self.crashes += 1;
            }
            w(|w| {
                w.op = i as u16;
                w.open = i >= self.cfg.open.0 && i < self.cfg.open.1;
                w.note(|| format!("===== op {i}: {op:?}"));
            });
            self.op(op);
            self.quiesce();
            w(|w| {
                for g in w.gates.iter_mut() {
                    g.ops = g.ops.saturating_sub(1);
                }
                for x in w.nodes.values_mut() {
                    for io in x.ioq.iter_mut() {
                        if let Some(h) = io.hold.as_mut() {
                            *h = h.saturating_sub(1);
                        }
                    }
                }
            });
            self.views();
            if i + 1 >= self.cfg.open.0 {
                let h = self.hash();
                self.hashes.push(h64(&(i, h)));
                if w(|w| w.viols.len() > 0 || w.excluded.is_some() || w.stuck) {
                    return false;
                }
                if let Some(p) = prune {
                    if w(|w| w.dev_next) == dev.len() {
                        let last_op = w(|w| dev.last().map(|d| w.trace[d.0 as usize].op as usize));
                        if last_op.map(|l| l <= i).unwrap_or(false) && p(i, h, dev.len()) {
                            return true;
                        }
                        if dev.is_empty() {
                            p(i, h, 0);
                        }
                    }
                }
            }
        }
        if self.cfg.settle {
            self.settle();
        }
        false
    }

    // ------------------------------------------------------------------------------------------ lifecycle

    pub fn start(&mut self, n: u64) {
        w(|w| w.check_k1(n));
        let (owner, inc) = w(|w| {
            let owner = w.next_owner;
            w.next_owner += 1;
            w.owners.insert(owner, n);
            let (smd, snd) = (w.sm_durable, w.snap_durable);
            w.note(|| format!("== node {n} starts"));
            let x = w.node(n);
            x.inc += 1;
            x.owner = owner;
            x.up = true;
            x.auto_restart = false;
            x.failed = false;
            x.cb_failed = false;
            x.shut = false;
            x.vlog = x.disk.log.clone();
            x.vpurged = x.disk.purged;
            x.vvote = x.disk.vote;
            x.ioq.clear();
            x.snap = if snd { x.disk.snap.clone() } else { None };
            x.sm = if smd {
                x.disk.sm.clone()
            } else {
                match &x.snap {
                    Some(s) => Sm {
                        applied: s.meta.last_log_id,
                        memb: s.meta.last_membership.clone(),
                        ids: Sm::decode(&s.bytes).map(|d| d.1).unwrap_or_default(),
                    },
                    None => Sm::default(),
                }
            };
            x.applied_hi = x.sm.applied.map(|a| a.index).unwrap_or(0);
            x.lease = None;
            x.lease_off = None;
            x.touched = rt::now();
            x.manual_purge = None;
            x.installs = 0;
            x.installed = None;
            x.sm_busy = false;
            x.tm = crate::timing::fresh(rt::now());
            x.core = None;
            x.last_metrics = None;
            (owner, x.inc)
        });
        if let Some(q) = self.cfg.draws.get(n as usize - 1) {
            rt::set_draw(owner, *q);
        }
        let rcfg = self.rcfg.clone();
        let auto = self.autopilot;
        rt::spawn_task(
            owner,
            Box::pin(async move {
                let r = Raft::new(n, rcfg, Factory { n, inc }, Store { n, inc }, SmH { n, inc }).await;
                match r {
                    Ok(raft) => {
                        if auto {
                            raft.runtime_config().heartbeat(true);
                            raft.runtime_config().elect(true);
                        }
                        watch(n, inc, raft.clone());
                        w(|w| {
                            if auto {
                                w.switched(n, true, true);
                            }
                            w.node(n).raft = Some(raft)
                        });
                    }
                    Err(e) => w(|w| {
                        if !w.node(n).failed && !w.node(n).cb_failed {
                            w.viol("C11", format!("node {n} cannot start: {e}"));
                            w.viol("C13", format!("node {n} cannot start: {e}"));
                        }
                    }),
                }
            }),
        );
    }

    pub fn crash(&mut self, n: u64) {
        if !w(|w| w.node(n).up) {
            return;
        }
        self.crashes += 1;
        let (raft, q, owner) = w(|w| {
            w.crash_disk(n, None);
            let x = w.node(n);
            (x.raft.take(), std::mem::take(&mut x.ioq), x.owner)
        });
        rt::kill_now(owner);
        drop(q);
        drop(raft);
    }

    // ----------------------------------------------------------------------------------------- scheduling

    /// Run until nothing is left to do at this instant, releasing what waits for quiet.
    pub fn quiesce(&mut self) {
        let t_end = rt::now() + if self.cfg.chunk.is_some() || self.cfg.v1 { 12 * MS } else { 0 };
        loop {
            self.run_ready();
            if self.release_one() {
                continue;
            }
            if rt::now() < t_end {
                match rt::next_timer() {
                    Some(t) if t <= t_end => {
                        rt::step_time(t_end);
                        continue;
                    }
                    _ => {}
                }
            }
            break;
        }
    }

    fn run_ready(&mut self) {
        if rt::run_ready() == rt::Quiet::Livelock {
            w(|w| {
                w.broken("the cluster spins without making progress");
                w.stuck = true;
            });
            // Leave it: whatever is ready stays ready, the execution ends with this violation.
        }
        for (o, p) in rt::take_panics() {
            w(|w| {
                let n = w.owners.get(&o).copied().unwrap_or(0);
                w.broken(format!("node {n} panics: {p}"));
                let p2 = p.clone();
                if p2.contains("network") {
                    w.note(|| p2);
                }
            });
        }
        // A core that stopped by itself without an injected failure or a shutdown request.
    }

    fn release_one(&mut self) -> bool {
        enum R {
            Gate(tokio::sync::oneshot::Sender<()>),
            Io(Vec<Done>),
        }
        let r = w(|w| {
            let g = w.gates.iter().enumerate().filter(|(_, g)| g.ops == 0).min_by_key(|(_, g)| g.seq).map(|(i, g)| (g.seq, i));
            let io = w
                .nodes
                .values()
                .filter(|x| x.up)
                .filter_map(|x| x.ioq.front().filter(|io| io.hold == Some(0)).map(|io| (io.seq, x.id)))
                .min();
            match (g, io) {
                (Some((gs, i)), Some((is, _))) if gs < is => Some(R::Gate(w.gates.remove(i).tx)),
                (Some((_, i)), None) => Some(R::Gate(w.gates.remove(i).tx)),
                (_, Some((_, n))) => {
                    w.node(n).ioq[0].hold = None;
                    Some(R::Io(w.pump_io(n)))
                }
                (None, None) => None,
            }
        });
        if r.is_some() {
            w(|w| w.held_up());
        }
        match r {
            Some(R::Gate(tx)) => {
                let _ = tx.send(());
                true
            }
            Some(R::Io(ds)) => {
                fire(ds);
                true
            }
            None => false,
        }
    }

    pub fn advance(&mut self, ms: u64) {
        let end = rt::now() + ms * MS;
        self.run_ready();
        while rt::next_timer().map(|t| t <= end).unwrap_or(false) {
            rt::step_time(end);
            self.run_ready();
            if w(|w| w.viols.len() > 8 || w.stuck) {
                break;
            }
        }
        rt::step_time(end);
        self.run_ready();
    }

    /// Ask every core for its state.
    fn views(&mut self) {
        let rafts: Vec<(u64, u32, Raft)> = w(|w| {
            w.nodes
                .values_mut()
                .filter(|x| x.up && x.raft.is_some())
                .map(|x| {
                    x.core = None;
                    (x.id, x.inc, x.raft.clone().unwrap())
                })
                .collect()
        });
        for (n, inc, r) in rafts {
            r.external_request(move |st| {
                let v = CoreView {
                    state: st.server_state,
                    vote: *st.vote_ref(),
                    committed: st.committed,
                    last_log: None,
                    purged: None,
                    snap: st.snapshot_meta.last_log_id,
                    eff: (*st.membership_state.effective().log_id(), st.membership_state.effective().membership().clone()),
                    com: (*st.membership_state.committed().log_id(), st.membership_state.committed().membership().clone()),
                    dbg: h64(&format!("{st:?}")),
                };
                w(|w| {
                    if w.alive(n, inc) {
                        w.node(n).core = Some(v)
                    }
                })
            });
        }
        self.run_ready();
        for (n, r) in w(|w| w.nodes.values().filter(|x| x.up).filter_map(|x| x.raft.clone().map(|r| (x.id, r))).collect::<Vec<_>>()) {
            let last = r.data_metrics().borrow_watched().last_log;
            w(|w| {
                if let Some(mut v) = w.node(n).core.clone() {
                    v.last_log = last;
                    w.on_core_view(n, v);
                }
            });
        }
        w(|w| w.check_timing());
    }

    fn hash(&self) -> u64 {
        w(|w| {
            let mut v: Vec<u64> = vec![];
            let now = rt::now();
            for x in w.nodes.values() {
                v.push(h64(&(
                    x.up,
                    x.failed,
                    x.auto_restart,
                    x.disk.vote.map(|v| vkey(&v)),
                    x.disk.log.values().map(|e| (lkey(&e.log_id), payload_digest(e))).collect::<Vec<_>>(),
                    x.vlog.keys().copied().collect::<Vec<_>>(),
                    x.disk.purged.map(|l| lkey(&l)),
                    x.disk.committed.map(|l| lkey(&l)),
                    x.snap.as_ref().and_then(|s| s.meta.last_log_id).map(|l| lkey(&l)),
                    x.sm.applied.map(|l| lkey(&l)),
                    x.ioq.iter().map(|i| i.hold).collect::<Vec<_>>(),
                    x.core.as_ref().map(|c| (c.dbg, c.state as u8)),
                )));
                v.push(x.lease.map(|(_, t)| (now - t).min(w.lease_ns)).unwrap_or(w.lease_ns));
                if let Some(m) = x.raft.as_ref().map(|r| r.metrics()) {
                    let m = m.borrow_watched();
                    v.push(h64(&(format!("{:?} {:?}", m.replication, m.state), m.last_quorum_acked.map(|q| now - q.0))));
                }
            }
            v.push(h64(&(&w.cut, &w.mute)));
            let mut gs: Vec<(u64, u8)> = w.gates.iter().map(|g| (g.desc, g.ops)).collect();
            gs.sort();
            v.push(h64(&gs));
            v.push(h64(&w
                .cli
                .iter()
                .map(|c| match &c.done {
                    None => 0u64,
                    Some((_, CliRes::Wrote(p, l))) => h64(&(*p, lkey(l))),
                    Some((_, CliRes::Read(p))) => h64(p),
                    Some((_, CliRes::Ok)) => 1,
                    Some((_, CliRes::Err(e))) => h64(e),
                })
                .collect::<Vec<_>>()));
            v.push(w.g.commits.len() as u64);
            v.push(h64(&w.g.leaders.keys().collect::<Vec<_>>()));
            h64(&v)
        })
    }

    // --------------------------------------------------------------------------------------------- clients

    fn raft(&self, n: u64) -> Option<(Raft, u32)> {
        w(|w| {
            let x = w.node(n);
            if !x.up {
                return None;
            }
            x.raft.clone().map(|r| (r, x.inc))
        })
    }

    fn client<Fut>(&mut self, n: u64, what: String, req: Option<u32>, is_read: bool, f: impl FnOnce(Raft) -> Fut)
    where Fut: std::future::Future<Output = CliRes> + Send + 'static {
        let Some((r, inc)) = self.raft(n) else { return };
        let i = w(|w| {
            let invoked = w.next_seq();
            w.note(|| format!(">> client {what} at {n}"));
            w.cli.push(Cli { what, node: n, inc, req, invoked, done: None, is_read });
            w.cli.len() - 1
        });
        let fut = f(r);
        rt::spawn_task(
            0,
            Box::pin(async move {
                let r = fut.await;
                w(|w| w.cli_done(i, r));
            }),
        );
    }

    pub fn write(&mut self, n: u64) {
        self.next_req += 1;
        let id = self.next_req;
        self.client(n, format!("write {id}"), Some(id), false, move |r| async move {
            match r.client_write(Req { id }).await {
                Ok(resp) => {
                    if resp.data.id != id {
                        w(|w| w.viol("C12", format!("request {id} answered with the result of {}", resp.data.id)));
                    }
                    CliRes::Wrote(resp.data.pos, resp.log_id)
                }
                Err(e) => err_res(e),
            }
        });
    }

    pub fn read(&mut self, n: u64) {
        // Every other read takes the two steps of the documentation itself.
        let by_hand = w(|w| w.cli.iter().filter(|c| c.is_read).count()) % 2 == 1;
        self.client(n, "read".into(), None, true, move |r| async move {
            let got = if by_hand {
                match r.get_read_log_id().await {
                    Ok((l, applied)) => {
                        w(|w| {
                            let a = w.node(n).sm.applied;
                            if a.map(|a| a.index) < applied.map(|a| a.index) {
                                w.viol("C06", format!("node {n} says {applied:?} is applied when confirming a read, its state machine is at {a:?}"));
                            }
                        });
                        let i = l.map(|l| l.index);
                        if i > applied.map(|a| a.index) {
                            if let Err(e) = r.wait(None).applied_index_at_least(i, "read").await {
                                return CliRes::Err(e.to_string());
                            }
                        }
                        Ok(l)
                    }
                    Err(e) => Err(e),
                }
            } else {
                r.ensure_linearizable().await
            };
            match got {
                Ok(l) => w(|w| {
                    let sm = &w.node(n).sm;
                    let (a, p) = (sm.applied, sm.pos());
                    if a.map(|a| a.index) < l.map(|l| l.index) {
                        w.viol("C06", format!("node {n} confirms a read at {l:?}, its state machine is at {a:?}"));
                    }
                    CliRes::Read(p)
                }),
                Err(e) => err_res(e),
            }
        });
    }

    fn members(&self, ids: &[u64]) -> BTreeMap<u64, Addr> {
        ids.iter().map(|i| (*i, Addr(*i as u32))).collect()
    }

    fn change(&mut self, n: u64, what: String, cm: ChangeMembers<C>, retain: bool) {
        self.client(n, what, None, false, move |r| async move {
            match r.change_membership(cm, retain).await {
                Ok(resp) => {
                    if let Some(m) = &resp.membership {
                        w(|w| {
                            if let Some(c) = w.g.commits.get(&resp.log_id.index) {
                                if c.memb.as_ref().map(memb_digest) != Some(memb_digest(m)) {
                                    w.viol("C12", format!("membership change answered with another configuration {m:?}"));
                                }
                            }
                        });
                    } else {
                        w(|w| w.viol("C12", "membership change answered without a configuration"));
                    }
                    CliRes::Wrote(resp.data.pos, resp.log_id)
                }
                Err(e) => err_res(e),
            }
        });
    }

    fn op(&mut self, op: &Op) {
        match op.clone() {
            Op::Init(n) => {
                let ids = self.cfg.init.clone();
                self.op(&Op::InitWith(n, ids));
            }
            Op::InitWith(n, ids) => {
                let m = self.members(&ids);
                w(|w| w.node(n).tm.permits += 1);
                self.client(n, format!("initialize {ids:?}"), None, false, move |r| async move {
                    let before = w(|w| (w.last_lid(n), w.node(n).vvote));
                    let want = Memb::new(vec![ids.iter().copied().collect()], m.clone());
                    let res = r.initialize(m).await;
                    w(|w| {
                        let after = (w.last_lid(n), w.node(n).vvote);
                        match &res {
                            Ok(()) => {
                                w.inits.insert(ids.clone());
                                // The first entry holds what was asked for, under the id every first entry has.
                                let e = w.node(n).vlog.get(&0).cloned();
                                if let Some(e) = e {
                                    if e.log_id != Lid::default() || payload_digest(&e) != h64(&(3u8, memb_digest(&want))) {
                                        w.viol("C22", format!("node {n} initialized with {ids:?} has {e} first"));
                                    }
                                }
                            }
                            Err(RaftError::APIError(e)) => {
                                // Nothing happened meanwhile and nothing speaks against it.
                                if after.0.is_none() && after.1.is_none() && ids.contains(&n) {
                                    w.viol("C22", format!("pristine node {n} refuses initialization with {ids:?}: {e}"));
                                }
                            }
                            Err(_) => {}
                        }
                        let pristine = before.0.is_none() && before.1.map(|v| vkey(&v).0 == 0).unwrap_or(true);
                        if res.is_ok() && !pristine {
                            w.viol("C22", format!("node {n} accepts initialization with log {:?} vote {:?}", before.0, before.1));
                        }
                        if res.is_ok() && !ids.contains(&n) {
                            w.viol("C22", format!("node {n} accepts initialization with {ids:?}"));
                        }
                    });
                    let before = w(|w| (w.last_lid(n), w.node(n).vvote));
                    let pristine = before.0.is_none() && before.1.map(|v| vkey(&v).0 == 0).unwrap_or(true);
                    if let Ok(false) = r.is_initialized().await {
                        if !pristine || res.is_ok() {
                            w(|w| w.viol("C22", format!("node {n} with log {:?} and vote {:?} says it is not initialized", before.0, before.1)));
                        }
                    }
                    match res {
                        Ok(()) => CliRes::Ok,
                        Err(e) => err_res(e),
                    }
                });
            }
            Op::Elect(n) => {
                self.advance(EL_MAX + 10);
                self.op(&Op::ElectNow(n));
            }
            Op::ElectNow(n) => {
                w(|w| w.node(n).tm.permits += 1);
                self.client(n, "elect".into(), None, false, |r| async move {
                    match r.trigger().elect().await {
                        Ok(()) => CliRes::Ok,
                        Err(e) => CliRes::Err(e.to_string()),
                    }
                });
            }
            Op::Write(n) => self.write(n),
            Op::W => {
                if let Some(n) = self.converged_or_leader() {
                    self.write(n)
                }
            }
            Op::R => {
                if let Some(n) = self.converged_or_leader() {
                    self.read(n)
                }
            }
            Op::Par(ops) => {
                for o in &ops {
                    self.op(o);
                }
            }
            Op::Seq(ops) => {
                for o in &ops {
                    self.op(o);
                    self.quiesce();
                }
            }
            Op::Mend(a, b) => w(|w| {
                w.cut.remove(&(a, b));
                w.cut.remove(&(b, a));
            }),
            Op::Mute(n) => w(|w| {
                w.mute.insert(n);
            }),
            Op::WriteN(n, k) => {
                for _ in 0..k {
                    self.write(n);
                }
            }
            Op::Read(n) => self.read(n),
            Op::WriteRead(a, b) => {
                self.write(a);
                self.read(b);
            }
            Op::Iso(n) => w(|w| {
                let all: Vec<u64> = w.nodes.keys().copied().collect();
                for m in all {
                    if m != n {
                        w.cut.insert((n, m));
                        w.cut.insert((m, n));
                    }
                }
            }),
            Op::Cut(a, b) => w(|w| {
                w.cut.insert((a, b));
                w.cut.insert((b, a));
            }),
            Op::CutOne(a, b) => w(|w| {
                w.cut.insert((a, b));
            }),
            Op::Heal => w(|w| {
                w.cut.clear();
                w.mute.clear();
            }),
            Op::Crash(n) => self.crash(n),
            Op::Restart(n) => {
                if w(|w| w.node(n).up) {
                    self.crash(n);
                }
                self.start(n);
            }
            Op::CrashAll => {
                for n in 1..=self.cfg.n {
                    self.crash(n);
                }
            }
            Op::RestartAll => {
                for n in 1..=self.cfg.n {
                    if w(|w| w.node(n).up) {
                        self.crash(n);
                    }
                }
                for n in 1..=self.cfg.n {
                    self.start(n);
                }
            }
            Op::Snap(n) => {
                w(|w| w.node(n).tm.snap_permits += 1);
                self.client(n, "snapshot".into(), None, false, |r| async move {
                match r.trigger().snapshot().await {
                    Ok(()) => CliRes::Ok,
                    Err(e) => CliRes::Err(e.to_string()),
                }
            })
            }
            Op::Purge(n) => {
                let upto = w(|w| w.node(n).snap.as_ref().and_then(|s| s.meta.last_log_id).map(|l| l.index));
                if let Some(u) = upto {
                    self.op(&Op::PurgeTo(n, u));
                }
            }
            Op::PurgeTo(n, u) => {
                w(|w| {
                    let m = &mut w.node(n).manual_purge;
                    *m = Some(m.unwrap_or(0).max(u));
                });
                self.client(n, format!("purge {u}"), None, false, move |r| async move {
                    match r.trigger().purge_log(u).await {
                        Ok(()) => CliRes::Ok,
                        Err(e) => CliRes::Err(e.to_string()),
                    }
                })
            }
            Op::AddL(n, t, blocking) => {
                self.client(n, format!("add_learner {t}"), None, false, move |r| async move {
                    match r.add_learner(t, Addr(t as u32), blocking).await {
                        Ok(resp) => CliRes::Wrote(resp.data.pos, resp.log_id),
                        Err(e) => err_res(e),
                    }
                });
            }
            Op::Change(n, ids, retain) => {
                let s: BTreeSet<u64> = ids.iter().copied().collect();
                self.change(n, format!("change_membership {ids:?} {retain}"), ChangeMembers::ReplaceAllVoters(s), retain);
            }
            Op::Memb(n, m) => {
                let (cm, retain) = match m.clone() {
                    MembOp::AddVoters(v, r) => (ChangeMembers::AddVoters(self.members(&v)), r),
                    MembOp::RemoveVoters(v, r) => (ChangeMembers::RemoveVoters(v.into_iter().collect()), r),
                    MembOp::RemoveNodes(v) => (ChangeMembers::RemoveNodes(v.into_iter().collect()), true),
                    MembOp::AddVoterIds(v, r) => (ChangeMembers::AddVoterIds(v.into_iter().collect()), r),
                    MembOp::AddNodes(v) => (ChangeMembers::AddNodes(self.members(&v)), true),
                    MembOp::SetNodes(v) => {
                        let m = v.iter().map(|n| (*n, Addr(100 + *n as u32))).collect();
                        (ChangeMembers::SetNodes(m), true)
                    }
                    MembOp::ReplaceNodes(v) => (ChangeMembers::ReplaceAllNodes(self.members(&v)), true),
                };
                self.change(n, format!("{m:?}"), cm, retain);
            }
            Op::Hb(n) => self.client(n, "heartbeat".into(), None, false, |r| async move {
                match r.trigger().heartbeat().await {
                    Ok(()) => CliRes::Ok,
                    Err(e) => CliRes::Err(e.to_string()),
                }
            }),
            Op::Xfer(n, t) => {
                w(|w| {
                    let x = w.node(n);
                    x.lease = None;
                    x.lease_cleared_at = rt::now() + 1;
                    x.lease_off = x.vvote.map(|v| leader_of(&v));
                    x.tm.quiet.1 = 0;
                });
                self.client(n, format!("transfer {t}"), None, false, move |r| async move {
                    match r.trigger().transfer_leader(t).await {
                        Ok(()) => CliRes::Ok,
                        Err(e) => CliRes::Err(e.to_string()),
                    }
                })
            }
            Op::Adv(ms) => self.advance(ms),
            Op::Shutdown(n) => {
                if self.raft(n).is_some() {
                    w(|w| w.node(n).shut = true);
                }
                self.client(n, "shutdown".into(), None, false, |r| async move {
                    match r.shutdown().await {
                        Ok(()) => CliRes::Ok,
                        Err(e) => CliRes::Err(format!("{e:?}")),
                    }
                })
            }
            Op::Autopilot(b) => self.set_autopilot(b),
            Op::Switch(n, hb, el, tick) => {
                if let Some((r, _)) = self.raft(n) {
                    r.runtime_config().heartbeat(hb);
                    r.runtime_config().elect(el);
                    r.runtime_config().tick(tick);
                    w(|w| {
                        w.switched(n, hb, el);
                        w.ticking(n, tick);
                    });
                }
            }
            Op::Quiet(n, ms) => {
                let t = rt::now();
                self.advance(ms);
                w(|w| w.check_quiet(n, t));
            }
            Op::Stable(ms) => {
                self.run_ready();
                let before = w(|w| w.calm());
                self.advance(ms);
                w(|w| w.check_stable(before));
            }
            Op::Chunk(to, s, i) => inject_chunk(to, s, i, self.cfg.chunk.unwrap_or(16) as usize),
            Op::Sm(n) => {
                self.client(n, "state machine function".into(), None, false, move |r| async move {
                    let seen = r.metrics().borrow_watched().last_applied;
                    match r.with_state_machine(move |h: &mut SmH| h.user(n)).await {
                        Ok(Ok(at)) => {
                            if at < seen {
                                w(|w| w.viol("C17", format!("node {n} published {seen:?} as applied, its state machine is at {at:?}")));
                            }
                            CliRes::Ok
                        }
                        Ok(Err(e)) => {
                            w(|w| w.viol("C20", format!("node {n} refuses a function for its state machine: {e}")));
                            CliRes::Err(e.to_string())
                        }
                        Err(f) => CliRes::Err(format!("fatal: {f}")),
                    }
                });
            }
            Op::WaitApplied(n, idx) => {
                self.client(n, format!("wait applied {idx}"), None, false, move |r| async move {
                    let res = r.wait(Some(Duration::from_millis(400))).applied_index_at_least(Some(idx), "mc").await;
                    match res {
                        Ok(m) => {
                            if m.last_applied.map(|l| l.index) < Some(idx) {
                                w(|w| w.viol("C17", format!("node {n}: wait for applied {idx} returned at {:?}", m.last_applied)));
                            }
                            CliRes::Ok
                        }
                        Err(e) => CliRes::Err(e.to_string()),
                    }
                })
            }
        }
    }

    fn set_autopilot(&mut self, b: bool) {
        self.autopilot = b;
        let rafts: Vec<Raft> = w(|w| w.nodes.values().filter(|x| x.up).filter_map(|x| x.raft.clone()).collect());
        for r in rafts {
            r.runtime_config().heartbeat(b);
            r.runtime_config().elect(b);
        }
        w(|w| {
            let ids: Vec<u64> = w.nodes.values().filter(|x| x.up && x.raft.is_some()).map(|x| x.id).collect();
            for n in ids {
                w.switched(n, b, b);
            }
        });
    }

    // ---------------------------------------------------------------------------------------------- settle

    /// Faults stop: the cluster has to recover, converge and serve.
    fn settle(&mut self) {
        w(|w| {
            w.open = false;
            w.settle = true;
            w.op = self.cfg.ops.len() as u16;
            w.note(|| "===== settle".into());
            w.cut.clear();
            w.mute.clear();
            for g in w.gates.iter_mut() {
                g.ops = 0;
            }
            for x in w.nodes.values_mut() {
                for io in x.ioq.iter_mut() {
                    if io.hold.is_some() {
                        io.hold = Some(0);
                    }
                }
            }
        });
        self.quiesce();
        for n in 1..=self.cfg.n {
            if self.cfg.lose.contains(&n) {
                self.crash(n);
                continue;
            }
            let (up, bad) = w(|w| {
                let x = w.node(n);
                (x.up, x.failed || x.cb_failed || x.shut)
            });
            if bad {
                self.check_stopped(n);
                self.crash(n);
                self.start(n);
            } else if !up {
                self.start(n);
            }
        }
        self.quiesce();
        let seeded = w(|w| w.nodes.values().any(|x| x.disk.log.len() > 0 || x.disk.purged.is_some()));
        if !seeded {
            return;
        }
        self.set_autopilot(true);
        let mut ok = None;
        for _ in 0..60 {
            self.advance(EL_MIN);
            self.views();
            if w(|w| !w.viols.is_empty() || w.excluded.is_some() || w.stuck) {
                return;
            }
            ok = self.leader_ready();
            if ok.is_some() {
                break;
            }
        }
        let Some(_) = ok else {
            let d = self.describe();
            w(|w| w.broken(format!("the healed cluster has no leader able to commit within 30 election timeouts: {d}")));
            return;
        };
        // It serves.
        let mut served = false;
        for _ in 0..8 {
            let Some(l) = self.converged_or_leader() else {
                self.advance(EL_MIN);
                self.views();
                continue;
            };
            let i0 = w(|w| w.cli.len());
            self.write(l);
            self.read(l);
            self.advance(HB * 2);
            let good = w(|w| {
                w.cli[i0..].iter().all(|c| matches!(c.done, Some((_, CliRes::Wrote(..))) | Some((_, CliRes::Read(_)))))
            });
            if good {
                served = true;
                break;
            }
            self.advance(EL_MIN);
            self.views();
        }
        if !served {
            let d = self.describe();
            w(|w| w.broken(format!("the healed cluster does not serve writes and reads: {d}")));
            return;
        }
        let mut fin = None;
        for _ in 0..20 {
            self.views();
            fin = self.converged();
            if fin.is_some() {
                break;
            }
            self.advance(EL_MIN);
        }
        let Some(l) = fin else {
            let d = self.describe();
            w(|w| w.broken(format!("the healed cluster does not converge after the probe: {d}")));
            return;
        };
        self.final_checks(l);
        // A leader that its own configuration leaves out does not go on leading.
        let out = |w: &mut World| {
            let c = w.nodes.get(&l)?.core.as_ref()?;
            (c.state == ServerState::Leader && c.eff.1.get_node(&l).is_none()).then_some(c.vote)
        };
        if let Some(v) = w(out) {
            self.advance(EL_MIN);
            self.views();
            if w(out) == Some(v) {
                w(|w| w.viol("C08", format!("node {l} still leads under {v} with itself removed from the configuration")));
            }
        }
    }

    fn check_stopped(&mut self, n: u64) {
        // A node that failed or was shut down answers every call with that, and does not hang.
        let Some((r, _)) = self.raft(n) else { return };
        let i0 = w(|w| w.cli.len());
        macro_rules! call {
            ($what:expr, |$r:ident| $body:expr) => {
                self.client(n, format!("{} after stop", $what), None, false, |$r| async move {
                    match $body.await {
                        Ok(_) => CliRes::Ok,
                        Err(e) => CliRes::Err(stopped(&e)),
                    }
                });
            };
        }
        let vote = w(|w| w.node(n).vvote).unwrap_or_default();
        let last = w(|w| w.last_lid(n));
        let who = self.members(&[n]);
        let meta = SnapshotMeta { last_log_id: last, last_membership: Default::default(), snapshot_id: "after".into() };
        // The first call is one that does not find out by itself that the node is gone.
        let first = w(|w| w.cli.len()) % 2;
        for turn in 0..2 {
            if turn == first {
                call!("with_state_machine", |r| async {
                    match r.with_state_machine(|_: &mut SmH| Box::pin(async {})).await {
                        Ok(Ok(())) => Ok(()),
                        Ok(Err(e)) => Err(Stop::Other(e.to_string())),
                        Err(f) => Err(Stop::Fatal(f.to_string())),
                    }
                });
                self.quiesce();
            } else {
                call!("with_raft_state", |r| async { r.with_raft_state(|s| s.committed).await.map_err(|f| Stop::Fatal(f.to_string())) });
                self.quiesce();
            }
        }
        call!("write", |r| async { r.client_write(Req { id: 1_000_000 }).await.map_err(api) });
        call!("write without waiting", |r| async { r.client_write_ff(Req { id: 1_000_001 }).await.map_err(|f| Stop::Fatal(f.to_string())) });
        call!("read", |r| async { r.ensure_linearizable().await.map_err(api) });
        call!("get_read_log_id", |r| async { r.get_read_log_id().await.map_err(api) });
        call!("is_initialized", |r| async { r.is_initialized().await.map_err(|f| Stop::Fatal(f.to_string())) });
        let m = who.clone();
        call!("initialize", |r| async { r.initialize(m).await.map_err(api) });
        call!("add_learner", |r| async { r.add_learner(9, Addr(9), true).await.map_err(api) });
        let ids: BTreeSet<u64> = [n].into();
        call!("change_membership", |r| async { r.change_membership(ids, false).await.map_err(api) });
        call!("elect", |r| async { r.trigger().elect().await.map_err(|f| Stop::Fatal(f.to_string())) });
        call!("heartbeat", |r| async { r.trigger().heartbeat().await.map_err(|f| Stop::Fatal(f.to_string())) });
        call!("snapshot", |r| async { r.trigger().snapshot().await.map_err(|f| Stop::Fatal(f.to_string())) });
        call!("purge", |r| async { r.trigger().purge_log(1).await.map_err(|f| Stop::Fatal(f.to_string())) });
        call!("transfer", |r| async { r.trigger().transfer_leader(n).await.map_err(|f| Stop::Fatal(f.to_string())) });
        call!("get_snapshot", |r| async { r.get_snapshot().await.map_err(api) });
        call!("begin_receiving_snapshot", |r| async { r.begin_receiving_snapshot().await.map_err(api) });
        call!("vote request", |r| async { r.vote(VoteRequest::new(vote, last)).await.map_err(api) });
        let rpc = AppendEntriesRequest { vote, prev_log_id: None, entries: vec![], leader_commit: None };
        call!("append request", |r| async { r.append_entries(rpc).await.map_err(api) });
        let snap = Snapshot { meta: meta.clone(), snapshot: Box::new(std::io::Cursor::new(vec![])) };
        call!("snapshot request", |r| async { r.install_full_snapshot(vote, snap).await.map_err(|f| Stop::Fatal(f.to_string())) });
        let chunk = InstallSnapshotRequest { vote, meta, offset: 0, data: vec![], done: true };
        call!("chunk request", |r| async { r.install_snapshot(chunk).await.map_err(api) });
        call!("wait", |r| async {
            match r.wait(Some(Duration::from_millis(50))).applied_index_at_least(Some(u64::MAX), "after stop").await {
                Err(WaitError::ShuttingDown) => Err(Stop::Fatal("waiting".into())),
                Err(e) => Err(Stop::Other(e.to_string())),
                Ok(_) => Ok(()),
            }
        });
        let i1 = w(|w| w.cli.len());
        self.client(n, "shutdown after stop".into(), None, false, |r| async move {
            match r.shutdown().await {
                Ok(()) => CliRes::Ok,
                Err(e) => CliRes::Err(format!("{e:?}")),
            }
        });
        self.quiesce();
        let m: RaftMetrics<C> = r.metrics().borrow_watched().clone();
        drop(r);
        let live = w(|w| w.node(n).owner);
        let live = rt::live_tasks(live);
        w(|w| {
            let why = if w.node(n).shut { "was shut down" } else { "suffered a storage failure" };
            for c in w.cli[i0..i1].to_vec() {
                match &c.done {
                    None => w.viol("C20", format!("node {n} {why}: {} hangs", c.what)),
                    Some((_, CliRes::Err(e))) if e.starts_with("fatal") => {}
                    Some((_, r)) => w.viol("C20", format!("node {n} {why}: {} answered {r:?}", c.what)),
                }
            }
            if w.cli[i1].done.is_none() {
                w.viol("C20", format!("node {n} {why}: shutdown hangs"));
            }
            if m.running_state.is_ok() {
                w.viol("C20", format!("node {n} {why}: metrics still report it running"));
            }
            // Clients that were waiting at this incarnation have been answered.
            let inc = w.node(n).inc;
            for c in w.cli.clone() {
                if c.node == n && c.inc == inc && c.done.is_none() && !c.what.contains("after stop") {
                    w.viol("C20", format!("node {n} {why}: pending {} was never answered", c.what));
                }
            }
            if live > 0 {
                w.viol("C20", format!("node {n} {why}: {live} of its tasks are still alive"));
            }
        });
    }

    fn leader(&self) -> Option<(u64, CoreView)> {
        w(|w| {
            w.nodes
                .values()
                .filter(|x| x.up)
                .filter_map(|x| x.core.clone().map(|c| (x.id, c)))
                .filter(|(_, c)| c.state == ServerState::Leader)
                .max_by_key(|(_, c)| leader_of(&c.vote))
        })
    }
    fn converged_or_leader(&self) -> Option<u64> {
        self.leader().map(|(l, _)| l)
    }

    /// A leader that has committed everything it has.
    fn leader_ready(&self) -> Option<u64> {
        let (l, lc) = self.leader()?;
        if lc.eff.0 != lc.com.0 || lc.committed != lc.last_log {
            return None;
        }
        Some(l)
    }

    fn converged(&self) -> Option<u64> {
        let (l, lc) = self.leader()?;
        if lc.eff.0 != lc.com.0 || lc.committed != lc.last_log {
            return None;
        }
        let lose = &self.cfg.lose;
        w(|w| {
            for (id, _) in lc.eff.1.nodes() {
                if lose.contains(id) {
                    continue;
                }
                let Some(x) = w.nodes.get(id) else { continue };
                let c = x.core.as_ref()?;
                if c.last_log != lc.last_log || c.committed != lc.committed || c.vote != lc.vote {
                    return None;
                }
                if x.sm.applied != lc.committed || c.eff.0 != lc.eff.0 || c.com.0 != lc.com.0 {
                    return None;
                }
            }
            Some(l)
        })
    }

    fn describe(&self) -> String {
        w(|w| {
            w.nodes
                .values()
                .map(|x| match &x.core {
                    Some(c) => format!(
                        "n{}:{:?} {} last={:?} committed={:?} applied={:?}",
                        x.id,
                        c.state,
                        c.vote,
                        c.last_log.map(|l| l.to_string()),
                        c.committed.map(|l| l.to_string()),
                        x.sm.applied.map(|l| l.to_string())
                    ),
                    None => format!("n{}: up={} no answer", x.id, x.up),
                })
                .collect::<Vec<_>>()
                .join("; ")
        })
    }

    fn final_checks(&mut self, l: u64) {
        w(|w| {
            // Every acknowledged write is in the final state, at its position.
            let sm = w.node(l).sm.clone();
            for c in w.cli.clone() {
                match (&c.done, c.req) {
                    (Some((_, CliRes::Wrote(pos, lid))), Some(req)) => {
                        let at = sm.ids.get(*pos as usize - 1).copied();
                        if at != Some((lid.index, req)) {
                            w.viol(
                                "C05",
                                format!("acknowledged request {req} ({lid}, position {pos}) is not in the final state: {at:?}"),
                            );
                        }
                    }
                    (None, _) => {
                        // Only requests of an incarnation that crashed may stay unanswered, or those at a node that
                        // was removed and is not told anything any more.
                        let member = w.node(l).core.as_ref().map(|k| k.eff.1.get_node(&c.node).is_some()).unwrap_or(false);
                        let x = w.node(c.node);
                        if x.inc == c.inc && x.up && !c.what.starts_with("wait") && member {
                            // Finding K3: a snapshot replaced the entry the client waits for.
                            let at = c.req.and_then(|r| w.g.req_lids.get(&r)).and_then(|s| s.iter().map(|k| k.2).max());
                            let k3 = w.node(c.node).installed.map(|(seq, idx)| {
                                seq > c.invoked && at.map(|a| a <= idx).unwrap_or(c.req.is_none())
                            });
                            let m = format!("{} at {} was never answered", c.what, c.node);
                            if k3 == Some(true) {
                                w.finding("K3", "C12", m);
                            } else {
                                w.viol("C12", m);
                            }
                        }
                    }
                    _ => {}
                }
            }
            // All state machines equal the committed history.
            let want = w.ghost_prefix(u64::MAX);
            let ids: Vec<u64> = w.nodes.keys().copied().collect();
            for n in ids {
                let x = w.node(n);
                if !x.up {
                    continue;
                }
                let (s, a) = (x.sm.ids.clone(), x.sm.applied.map(|a| a.index));
                let want: Vec<_> = want.iter().filter(|(i, _)| a.map(|a| *i <= a).unwrap_or(false)).copied().collect();
                if s != want {
                    w.viol("C04", format!("node {n} ends with state {s:?}, committed history is {want:?}"));
                }
            }
        });
        // Stored logs match pairwise and the committed history.
        w(|w| {
            let ids: Vec<u64> = w.nodes.keys().copied().collect();
            for n in ids {
                let log: Vec<(Lid, u64)> = w.node(n).disk.log.values().map(|e| (e.log_id, payload_digest(e))).collect();
                for (l, d) in log {
                    if let Some(c) = w.g.commits.get(&l.index) {
                        if lkey(&c.lid) == lkey(&l) && c.digest != d {
                            w.viol("C02", format!("node {n} ends with another entry under {l}"));
                        }
                    }
                }
            }
        });
    }
}

/// Why a call at a stopped node failed.
enum Stop {
    Fatal(String),
    Other(String),
}
fn stopped(e: &Stop) -> String {
    match e {
        Stop::Fatal(f) => format!("fatal: {f}"),
        Stop::Other(e) => e.clone(),
    }
}
fn api<E: std::fmt::Display + std::error::Error>(e: RaftError<C, E>) -> Stop {
    match e {
        RaftError::Fatal(f) => Stop::Fatal(f.to_string()),
        RaftError::APIError(e) => Stop::Other(e.to_string()),
    }
}

fn err_res<E: std::fmt::Display + std::error::Error>(e: RaftError<C, E>) -> CliRes {
    match e {
        RaftError::Fatal(f) => CliRes::Err(format!("fatal: {f}")),
        RaftError::APIError(e) => CliRes::Err(e.to_string()),
    }
}

/// Observe every published metrics value of a node.
fn watch(n: u64, inc: u32, raft: Raft) {
    let mut rx = raft.metrics();
    let (data, server) = (raft.data_metrics(), raft.server_metrics());
    drop(raft);
    rt::spawn_task(
        0,
        Box::pin(async move {
            loop {
                let m = rx.borrow_watched().clone();
                w(|w| {
                    w.on_metrics(n, inc, &m);
                    w.on_parts(n, inc, &m, &data.borrow_watched(), &server.borrow_watched());
                });
                if rx.changed().await.is_err() {
                    break;
                }
            }
        }),
    );
}
