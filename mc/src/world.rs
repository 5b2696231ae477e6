//! The environment of one execution: nodes, their disks, the network, the clients, the explorer's choices,
//! and the ghost state the monitors judge by.

use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::sync::Arc;

use openraft::storage::IOFlushed;
use openraft::{EntryPayload, SnapshotMeta, StoredMembership};
use tokio::sync::oneshot;

use crate::rt;
use crate::types::*;

/// What a choice point is about.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum K {
    AeReq,
    AeRep,
    VoteReq,
    VoteRep,
    SnapReq,
    SnapRep,
    ChunkReq,
    ChunkRep,
    XferReq,
    IoAppend,
    IoVote,
    IoTrunc,
    IoPurge,
    Apply,
    Build,
    Install,
    Read,
    Limited,
    CrashKeep,
    SnapGet,
}

/// What the environment does at a choice point.
#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum F {
    /// Happens at once, correctly.
    Go,
    /// Delayed until everything else has become quiet.
    HoldQ,
    /// Delayed until after the next one / two operations of the scenario.
    Hold1,
    Hold2,
    /// Lost: the caller gets a network error at once.
    Drop,
    /// Lost: the caller gets an unreachable error at once.
    DropU,
    /// Lost silently: the caller only notices by its own timeout.
    Lose,
    /// Delivered, and delivered again when quiet / after the next operation.
    DupQ,
    Dup1,
    /// The node crashes right before / after the effect became durable; it restarts before the next operation.
    CrashB,
    CrashA,
    /// The operation fails with an error; `ErrCb`: reported through the completion callback.
    Err,
    ErrCb,
    /// A reply carrying less than asked for.
    Short,
    /// Request refused as too large, hint 1 / hint 2.
    Big1,
    Big2,
    /// On a crash with writes in flight: how many of the queued entries made it to disk.
    Keep0,
    Keep1,
    KeepAll,
}

#[derive(Clone, Debug)]
pub struct ChoiceRec {
    pub kind: K,
    pub n: u8,
    pub op: u16,
    pub fate: F,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Rel {
    /// Released at quiescence after `n` more operations.
    Ops(u8),
}

pub struct Gate {
    pub seq: u64,
    pub ops: u8,
    pub tx: oneshot::Sender<()>,
    pub desc: u64,
    /// Owner whose crash removes the gate (None: a message in flight).
    pub owner: Option<u32>,
    pub node: u64,
}

pub enum IoWhat {
    Append(Vec<Ent>, Option<IOFlushed<C>>),
    Vote(Vt),
    Committed(Option<Lid>),
    Truncate(Lid),
    Purge(Lid),
}
pub struct Io {
    pub what: IoWhat,
    /// None: completes as soon as it is at the front; Some(n): after n more operations.
    pub hold: Option<u8>,
    pub done: Option<oneshot::Sender<()>>,
    pub seq: u64,
    pub fail: bool,
}

#[derive(Clone, Debug)]
pub struct SnapData {
    pub meta: SnapshotMeta<C>,
    pub bytes: Vec<u8>,
}

#[derive(Clone, Debug, Default)]
pub struct Sm {
    pub applied: Option<Lid>,
    pub memb: StoredMembership<C>,
    pub ids: Vec<(u64, u32)>,
}

impl Sm {
    pub fn pos(&self) -> u32 {
        self.ids.len() as u32
    }
    pub fn encode(ids: &[(u64, u32)], applied: u64) -> Vec<u8> {
        let mut b = vec![];
        b.extend_from_slice(&applied.to_le_bytes());
        b.extend_from_slice(&(ids.len() as u32).to_le_bytes());
        for (i, r) in ids {
            b.extend_from_slice(&i.to_le_bytes());
            b.extend_from_slice(&r.to_le_bytes());
        }
        b
    }
    pub fn decode(b: &[u8]) -> Option<(u64, Vec<(u64, u32)>)> {
        let mut it = b;
        let mut take = |n: usize| -> Option<&[u8]> {
            if it.len() < n {
                return None;
            }
            let (a, r) = it.split_at(n);
            it = r;
            Some(a)
        };
        let applied = u64::from_le_bytes(take(8)?.try_into().ok()?);
        let n = u32::from_le_bytes(take(4)?.try_into().ok()?);
        let mut v = vec![];
        for _ in 0..n {
            let i = u64::from_le_bytes(take(8)?.try_into().ok()?);
            let r = u32::from_le_bytes(take(4)?.try_into().ok()?);
            v.push((i, r));
        }
        if !it.is_empty() {
            return None;
        }
        Some((applied, v))
    }
}

#[derive(Default)]
pub struct Disk {
    pub vote: Option<Vt>,
    pub log: BTreeMap<u64, Ent>,
    pub purged: Option<Lid>,
    pub committed: Option<Lid>,
    pub snap: Option<SnapData>,
    pub sm: Sm,
}

#[derive(Default)]
pub struct NodeSt {
    pub id: u64,
    pub disk: Disk,
    /// The log as the store shows it to readers.
    pub vlog: BTreeMap<u64, Ent>,
    pub vpurged: Option<Lid>,
    pub vvote: Option<Vt>,
    /// Operation during which the vote was last stored.
    pub vote_op: u16,
    pub ioq: VecDeque<Io>,
    pub sm: Sm,
    pub snap: Option<SnapData>,
    pub raft: Option<Raft>,
    pub owner: u32,
    pub up: bool,
    pub inc: u32,
    /// Restart before the next operation.
    pub auto_restart: bool,
    /// The node stopped itself after an injected storage failure or a shutdown request.
    pub failed: bool,
    /// A failure was reported through a completion callback: the node stops once it learns of it.
    pub cb_failed: bool,
    pub shut: bool,
    /// A purge was requested explicitly up to this index in this incarnation.
    pub manual_purge: Option<u64>,
    pub installs: u32,
    /// Sequence number of the last snapshot installation in this incarnation, and its last index.
    pub installed: Option<(u64, u64)>,
    pub snap_seq: u32,
    /// Last accepted message of a leader: (vote, time at which it reached this node).
    pub lease: Option<(Vt, u64)>,
    pub lease_cleared_at: u64,
    /// The leadership whose lease was given up by a transfer.
    pub lease_off: Option<(u64, u64)>,
    /// Last arrival of any message of a leader.
    pub touched: u64,
    /// The leader vote whose lease was released by a transfer: incarnation, vote, when.
    pub released: Option<(u32, Vt, u64)>,
    /// Messages of a leader being served: (incarnation, how many).
    pub serving: (u32, u32),
    pub core: Option<CoreView>,
    pub last_metrics: Option<MetSeen>,
    pub sm_busy: bool,
    pub applied_hi: u64,
    pub tm: Timing,
}

/// What decides when a node may, and has to, act by itself. Times are those of this incarnation.
#[derive(Default, Clone)]
pub struct Timing {
    pub started: u64,
    /// Since when the switches are on.
    pub elect_on: Option<u64>,
    pub hb_on: Option<u64>,
    pub tick_off: bool,
    pub tick_at: u64,
    /// Leadership it last followed, granted or campaigned for; no election of its own before this time.
    pub quiet: ((u64, u64), u64),
    /// Seen a greater log in answer to its current candidacy.
    pub greater: bool,
    /// Elections it was asked to start.
    pub permits: u32,
    pub xfer: bool,
    /// Last request that reached it, last election it started, last time it became leader.
    pub last_in: u64,
    pub campaign: u64,
    pub lead: u64,
    /// Last time it appended or lost a membership.
    pub memb: u64,
    /// When something was last sent to whom.
    pub sent: BTreeMap<u64, u64>,
    pub snap_permits: u32,
    pub builds: u32,
    /// At the previous quiet point: committed index, builds, incarnation, how often something had been held up.
    pub before: Option<(Option<u64>, u32, u32, u64)>,
}

/// What the scenario is about.
#[derive(Clone, Copy, Default)]
pub struct About {
    pub lease: bool,
    pub chunk: bool,
    pub payload: bool,
    pub stops: bool,
}

/// What a node's core reported about its state at a quiet point.
#[derive(Clone, Debug)]
pub struct CoreView {
    pub state: openraft::ServerState,
    pub vote: Vt,
    pub committed: Option<Lid>,
    pub last_log: Option<Lid>,
    pub purged: Option<Lid>,
    pub snap: Option<Lid>,
    pub eff: (Option<Lid>, Memb),
    pub com: (Option<Lid>, Memb),
    pub dbg: u64,
}

#[derive(Clone, Debug)]
pub struct MetSeen {
    pub inc: u32,
    pub term: u64,
    pub vote: Vt,
    pub applied: Option<Lid>,
    pub purged: Option<Lid>,
    pub snapshot: Option<Lid>,
}

#[derive(Clone, Debug)]
pub enum CliRes {
    /// Write applied: position and log id.
    Wrote(u32, Lid),
    /// Read confirmed: state observed.
    Read(u32),
    /// Something else succeeded.
    Ok,
    /// Redirect / refusal / failure, with its text.
    Err(String),
}

#[derive(Clone, Debug)]
pub struct Cli {
    pub what: String,
    pub node: u64,
    pub inc: u32,
    pub req: Option<u32>,
    pub invoked: u64,
    pub done: Option<(u64, CliRes)>,
    pub is_read: bool,
}

#[derive(Default, Clone)]
pub struct Leadership {
    pub node: u64,
    pub acted: bool,
}

#[derive(Clone, Debug)]
pub struct Commit {
    pub lid: Lid,
    pub digest: u64,
    pub req: Option<u32>,
    pub memb: Option<Memb>,
    /// Smallest vote known to have committed it (leader term,node).
    pub by: (u64, u64),
}

#[derive(Default)]
pub struct Ghost {
    /// log id -> (payload digest, previous log id, was in some log, left its author or became durable)
    pub entries: HashMap<LKey, (u64, Option<LKey>, bool, bool)>,
    /// per node, log ids it ever held durably
    pub durable: HashMap<u64, BTreeSet<LKey>>,
    /// per node, greatest log id of a durable snapshot
    pub durable_snap: HashMap<u64, Lid>,
    pub commits: BTreeMap<u64, Commit>,
    /// (term,node) -> grants: voters that granted (server side) plus self
    pub grants: HashMap<(u64, u64), BTreeSet<u64>>,
    /// (term,node) -> configurations in the candidate's log when it saved that vote
    pub cand_cfg: HashMap<(u64, u64), Vec<Vec<BTreeSet<u64>>>>,
    pub leaders: BTreeMap<(u64, u64), Leadership>,
    /// (vote leadership) -> node -> latest send time of a message accepted by node
    pub acks: HashMap<(u64, u64), HashMap<u64, u64>>,
    /// request id -> log ids it was appended under by a leader
    pub req_lids: HashMap<u32, BTreeSet<LKey>>,
    pub membership_seen: u32,
}

pub struct World {
    pub nodes: BTreeMap<u64, NodeSt>,
    pub cut: BTreeSet<(u64, u64)>,
    pub mute: BTreeSet<u64>,
    pub gates: Vec<Gate>,
    pub seq: u64,
    pub next_owner: u32,
    pub owners: HashMap<u32, u64>,
    pub fates: BTreeMap<K, Vec<F>>,
    /// Only choices concerning these nodes are open (empty: all).
    pub focus: Vec<u64>,
    pub dev: Vec<(u32, u8)>,
    pub dev_next: usize,
    pub trace: Vec<ChoiceRec>,
    pub open: bool,
    pub op: u16,
    pub cli: Vec<Cli>,
    pub g: Ghost,
    pub viols: Vec<(String, String)>,
    pub lease_ns: u64,
    pub about: About,
    /// Number of entries after which a snapshot is built by itself.
    pub snap_logs: Option<u64>,
    /// Last time anything delayed was let go or seen waiting.
    pub blocked_at: u64,
    pub blocked_n: u64,
    pub store_committed: bool,
    pub sm_durable: bool,
    pub snap_durable: bool,
    pub keep_logs: u64,
    pub chunked: bool,
    /// Snapshots built, with the builder's vote.
    pub lib: Vec<(Vt, SnapData)>,
    pub v1: bool,
    pub max_payload: u64,
    pub log: Option<Vec<String>>,
    pub injected_failure: bool,
    /// Member sets the cluster was initialized with.
    pub inits: std::collections::BTreeSet<Vec<u64>>,
    pub hint: HashMap<u64, (u64, u64)>,
    pub settle: bool,
    pub deliveries: u64,
    pub evil_snap: bool,
    /// Cut executions short when they run into a listed finding.
    pub exclude: bool,
    pub excluded: Option<&'static str>,
    /// Occurrences of listed findings: (finding, property, message).
    pub others: u32,
    pub stuck: bool,
    pub known: Vec<(&'static str, &'static str, String)>,
}

/// What the current check is about.
pub struct Opts {
    /// Properties whose violation counts (None: all).
    pub want: Option<Vec<String>>,
    /// Listed findings: (id, property).
    pub listed: Vec<(String, String)>,
}
pub static OPTS: std::sync::OnceLock<Opts> = std::sync::OnceLock::new();
pub fn wanted(prop: &str) -> bool {
    OPTS.get().and_then(|o| o.want.as_ref()).map(|w| w.iter().any(|x| x == prop)).unwrap_or(true)
}
pub fn listed(id: &str, prop: &str) -> bool {
    OPTS.get().map(|o| o.listed.iter().any(|(a, b)| a == id && b == prop)).unwrap_or(true)
}
pub fn listed_any(id: &str) -> bool {
    OPTS.get().map(|o| o.listed.iter().any(|(a, _)| a == id)).unwrap_or(true)
}

thread_local! {
    static W: RefCell<Option<World>> = const { RefCell::new(None) };
}

pub fn w<T>(f: impl FnOnce(&mut World) -> T) -> T {
    W.with(|x| f(x.borrow_mut().as_mut().expect("no world")))
}
pub fn try_w<T>(f: impl FnOnce(&mut World) -> T) -> Option<T> {
    W.with(|x| x.try_borrow_mut().ok().and_then(|mut x| x.as_mut().map(f)))
}
pub fn install(world: World) {
    W.with(|x| *x.borrow_mut() = Some(world));
}
pub fn uninstall() -> Option<World> {
    W.with(|x| x.borrow_mut().take())
}

impl World {
    pub fn new() -> World {
        World {
            nodes: BTreeMap::new(),
            cut: BTreeSet::new(),
            mute: BTreeSet::new(),
            gates: vec![],
            seq: 0,
            next_owner: 1,
            owners: HashMap::new(),
            fates: BTreeMap::new(),
            focus: vec![],
            dev: vec![],
            dev_next: 0,
            trace: vec![],
            open: false,
            op: 0,
            cli: vec![],
            g: Ghost::default(),
            viols: vec![],
            lease_ns: 0,
            about: About::default(),
            snap_logs: None,
            blocked_at: 0,
            blocked_n: 0,
            store_committed: false,
            sm_durable: false,
            snap_durable: true,
            keep_logs: 0,
            chunked: false,
            lib: vec![],
            v1: false,
            max_payload: 300,
            log: None,
            injected_failure: false,
            inits: Default::default(),
            hint: HashMap::new(),
            settle: false,
            deliveries: 0,
            evil_snap: false,
            exclude: true,
            excluded: None,
            known: vec![],
            others: 0,
            stuck: false,
        }
    }

    pub fn viol(&mut self, prop: &str, msg: impl Into<String>) {
        let msg = msg.into();
        if self.excluded.is_some() {
            return;
        }
        self.note(|| format!("!! {prop}: {msg}"));
        if !wanted(prop) {
            self.others += 1;
            return;
        }
        if self.viols.len() < 20 {
            self.viols.push((prop.to_string(), format!("[op {}] {}", self.op, msg)));
        }
    }
    /// Recovery fails: a node panics or hangs, or the healed cluster does not serve or converge. Other properties
    /// that promise progress are broken by it too when what they are about took part.
    pub fn broken(&mut self, msg: impl Into<String>) {
        let msg = msg.into();
        let mut f = self.about;
        f.payload |= self.trace.iter().any(|t| matches!(t.fate, F::Short | F::Big1 | F::Big2));
        let purged = self.nodes.values().any(|x| x.vpurged.is_some());
        let installed = self.nodes.values().any(|x| x.installs > 0 || x.snap.is_some());
        let restarted = self.nodes.values().any(|x| x.inc > 1);
        let stopped = self.nodes.values().any(|x| x.failed || x.cb_failed || x.shut) || f.stops;
        self.viol("C13", msg.clone());
        for (p, c) in [
            ("C09", installed),
            ("C10", purged),
            ("C11", restarted),
            ("C15", f.lease),
            ("C18", f.chunk),
            ("C19", f.payload),
            ("C20", stopped),
        ] {
            if c {
                self.viol(p, msg.clone());
            }
        }
    }
    /// Two nodes take different entries for committed at an index.
    pub fn diverged(&mut self, props: &[&'static str], msg: String) {
        for p in props {
            self.viol(p, msg.clone());
        }
        if self.inits.len() == 1 {
            self.viol("C22", msg);
        }
    }
    /// A listed finding shows.
    pub fn finding(&mut self, id: &'static str, prop: &'static str, msg: String) {
        if !listed(id, prop) {
            self.viol(prop, msg);
            return;
        }
        self.note(|| format!("?? known finding {id} ({prop}): {msg}"));
        if self.known.len() < 20 {
            self.known.push((id, prop, msg));
        }
    }
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.log.is_some() {
            let t = rt::now_us() as f64 / 1000.0;
            let s = format!("{t:9.3}ms {}", f());
            self.log.as_mut().unwrap().push(s);
        }
    }
    pub fn next_seq(&mut self) -> u64 {
        self.seq += 1;
        self.seq
    }

    /// The explorer decides what happens here. Alternative 0 is always the fault-free one.
    pub fn choose(&mut self, kind: K, nodes: &[u64]) -> F {
        if !self.open {
            return F::Go;
        }
        if !self.focus.is_empty() && !nodes.iter().all(|n| self.focus.contains(n)) {
            return F::Go;
        }
        let Some(opts) = self.fates.get(&kind) else { return F::Go };
        let n = opts.len() as u8 + 1;
        let idx = self.trace.len() as u32;
        let mut alt = 0u8;
        if let Some((i, a)) = self.dev.get(self.dev_next) {
            if *i == idx {
                alt = (*a).min(n - 1);
                self.dev_next += 1;
            }
        }
        let fate = if alt == 0 { F::Go } else { opts[alt as usize - 1] };
        let op = self.op;
        self.trace.push(ChoiceRec { kind, n, op, fate });
        if fate != F::Go {
            self.note(|| format!("-- choice {idx}: {kind:?} {nodes:?} -> {fate:?}"));
        }
        fate
    }

    pub fn gate(&mut self, ops: u8, desc: u64, owner: Option<u32>, node: u64) -> oneshot::Receiver<()> {
        let (tx, rx) = oneshot::channel();
        let seq = self.next_seq();
        self.gates.push(Gate { seq, ops, tx, desc, owner, node });
        rx
    }

    pub fn connected(&self, a: u64, b: u64) -> bool {
        a == b || !self.cut.contains(&(a, b))
    }

    pub fn node(&mut self, n: u64) -> &mut NodeSt {
        self.nodes.get_mut(&n).expect("node")
    }
    pub fn alive(&self, n: u64, inc: u32) -> bool {
        self.nodes.get(&n).map(|x| x.up && x.inc == inc).unwrap_or(false)
    }

    /// Log id at `idx` as far as node `n` knows it (log, purge point, snapshot).
    pub fn lid_at(&self, n: u64, idx: u64) -> Option<Lid> {
        let x = &self.nodes[&n];
        if let Some(e) = x.vlog.get(&idx) {
            return Some(e.log_id);
        }
        for l in [x.vpurged, x.sm.applied, x.snap.as_ref().and_then(|s| s.meta.last_log_id)].into_iter().flatten() {
            if l.index == idx {
                return Some(l);
            }
        }
        None
    }

    pub fn last_lid(&self, n: u64) -> Option<Lid> {
        let x = &self.nodes[&n];
        let a = x.vlog.values().next_back().map(|e| e.log_id);
        a.or(x.vpurged)
    }

    /// All configurations node `n` can currently refer to, oldest first: the one its snapshot or state machine
    /// holds, then those in its log.
    pub fn configs(&self, n: u64) -> Vec<(Option<Lid>, Memb)> {
        let x = &self.nodes[&n];
        let mut v: Vec<(Option<Lid>, Memb)> = vec![];
        let mut add = |m: &StoredMembership<C>| {
            if m.log_id().is_some() && !v.iter().any(|(l, _)| l == m.log_id()) {
                v.push((*m.log_id(), m.membership().clone()));
            }
        };
        if let Some(s) = &x.snap {
            add(&s.meta.last_membership);
        }
        add(&x.sm.memb);
        for e in x.vlog.values() {
            if let EntryPayload::Membership(m) = &e.payload {
                let sm = StoredMembership::new(Some(e.log_id), m.clone());
                add(&sm);
            }
        }
        v.sort_by_key(|(l, _)| l.map(|l| l.index));
        v
    }
    pub fn effective(&self, n: u64) -> Option<(Option<Lid>, Memb)> {
        // The last configuration in the log, else the greatest one of snapshot and state machine.
        self.configs(n).pop()
    }

    /// A node is about to start. Finding K1: it resumes a leadership of its own although entries of that
    /// leadership, which it had sent to others before its own disk had them, are gone from its log.
    pub fn check_k1(&mut self, n: u64) {
        let Some(v) = self.nodes[&n].disk.vote else { return };
        if !v.is_committed() || leader_of(&v).1 != n {
            return;
        }
        let l = leader_of(&v);
        let x = &self.nodes[&n];
        let last = x.disk.log.keys().next_back().copied().max(x.disk.purged.map(|p| p.index));
        let lost = self.g.entries.iter().any(|(k, o)| {
            (k.0, k.1) == (l.0, if cfg!(feature = "single-term") { 0 } else { l.1 }) && o.3 && Some(k.2) > last
        });
        if lost {
            self.note(|| format!("== node {n} resumes {v} without the tail it had sent out (K1)"));
            if self.exclude && listed_any("K1") {
                self.excluded = Some("K1");
            }
        }
    }

    // ------------------------------------------------------------------------------------ storage effects

    pub fn ghost_prefix(&self, upto: u64) -> Vec<(u64, u32)> {
        self.g.commits.range(..=upto).filter_map(|(i, c)| c.req.map(|r| (*i, r))).collect()
    }

    /// Make the front of the IO queue durable as far as nothing holds it. Returns completions to fire.
    pub fn pump_io(&mut self, n: u64) -> Vec<Done> {
        let mut out = vec![];
        loop {
            let x = self.node(n);
            if !x.up {
                break;
            }
            match x.ioq.front() {
                Some(io) if io.hold.is_none() => {}
                _ => break,
            }
            let io = x.ioq.pop_front().unwrap();
            out.push(self.persist(n, io));
        }
        out
    }

    fn persist(&mut self, n: u64, io: Io) -> Done {
        match io.what {
            IoWhat::Append(ents, cb) => {
                if io.fail {
                    let x = self.node(n);
                    x.cb_failed = x.up;
                    self.injected_failure = true;
                } else {
                    for e in ents {
                        self.persist_entry(n, e);
                    }
                }
                Done::Cb(cb, io.fail)
            }
            IoWhat::Vote(v) => {
                self.persist_vote(n, v);
                Done::Tx(io.done)
            }
            IoWhat::Committed(c) => {
                self.node(n).disk.committed = c;
                Done::Tx(io.done)
            }
            IoWhat::Truncate(l) => {
                let x = self.node(n);
                x.disk.log.split_off(&l.index);
                x.vlog.split_off(&l.index);
                Done::Tx(io.done)
            }
            IoWhat::Purge(l) => {
                let x = self.node(n);
                x.disk.log = x.disk.log.split_off(&(l.index + 1));
                x.vlog = x.vlog.split_off(&(l.index + 1));
                x.disk.purged = Some(l);
                x.vpurged = Some(l);
                Done::Tx(io.done)
            }
        }
    }

    pub fn persist_entry(&mut self, n: u64, e: Ent) {
        let k = lkey(&e.log_id);
        self.g.durable.entry(n).or_default().insert(k);
        if let Some(o) = self.g.entries.get_mut(&k) {
            o.3 = true;
        }
        self.node(n).disk.log.insert(e.log_id.index, e);
    }

    fn persist_vote(&mut self, n: u64, v: Vt) {
        let x = self.node(n);
        x.disk.vote = Some(v);
        x.vvote = Some(v);
        if leader_of(&v).1 == n {
            self.g.grants.entry(leader_of(&v)).or_default().insert(n);
        }
    }

    pub fn set_snap(&mut self, n: u64, s: SnapData) {
        let durable = self.snap_durable;
        let x = self.node(n);
        let newer = match &x.snap {
            Some(o) => s.meta.last_log_id >= o.meta.last_log_id,
            None => true,
        };
        if !newer {
            return;
        }
        x.snap = Some(s.clone());
        if durable {
            x.disk.snap = Some(s.clone());
        }
        if let Some(l) = s.meta.last_log_id {
            let e = self.g.durable_snap.entry(n).or_insert(l);
            if l.index > e.index {
                *e = l;
            }
        }
    }

    /// Node `n` held the entry durably at some time, as a log entry or inside a snapshot.
    pub fn ever_durable(&self, n: u64, l: &Lid) -> bool {
        if self.g.durable.get(&n).map(|s| s.contains(&lkey(l))).unwrap_or(false) {
            return true;
        }
        if let Some(s) = self.g.durable_snap.get(&n) {
            if l.index <= s.index {
                return self.g.commits.get(&l.index).map(|c| lkey(&c.lid) == lkey(l)).unwrap_or(true);
            }
        }
        false
    }

    // -------------------------------------------------------------------------------------------- crash

    /// Mark the node as crashed. `keep` of the queued log entries reached the disk.
    pub fn crash_disk(&mut self, n: u64, extra: Option<Vec<Ent>>) {
        if !self.nodes[&n].up {
            return;
        }
        let pend: Vec<Ent> = {
            let x = self.node(n);
            let mut v = vec![];
            // Only appends in front of the first blocking operation can be in flight.
            for io in x.ioq.iter() {
                match &io.what {
                    IoWhat::Append(es, _) => v.extend(es.iter().cloned()),
                    IoWhat::Committed(_) => {}
                    _ => break,
                }
            }
            v
        };
        let keep = if let Some(ex) = extra {
            // A crash right after an append became durable.
            let all: Vec<Ent> = pend.into_iter().chain(ex).collect();
            for e in all {
                self.persist_entry(n, e);
            }
            0
        } else if !pend.is_empty() {
            match self.choose(K::CrashKeep, &[n]) {
                F::KeepAll => pend.len(),
                F::Keep1 => 1,
                _ => 0,
            }
        } else {
            0
        };
        for e in self.crash_pending(n).into_iter().take(keep) {
            self.persist_entry(n, e);
        }
        let x = self.node(n);
        x.up = false;
        x.core = None;
        let owner = x.owner;
        self.note(|| format!("== node {n} crashed"));
        // Entries only this node ever held, and only in memory, never existed.
        self.g.entries.retain(|k, o| o.3 || k.1 != n);
        self.gates.retain(|g| g.owner != Some(owner));
    }
    fn crash_pending(&self, n: u64) -> Vec<Ent> {
        let mut v = vec![];
        for io in self.nodes[&n].ioq.iter() {
            match &io.what {
                IoWhat::Append(es, _) => v.extend(es.iter().cloned()),
                IoWhat::Committed(_) => {}
                _ => break,
            }
        }
        v
    }
}

/// A finished IO whose completion has to be signalled outside the world borrow.
pub enum Done {
    Cb(Option<IOFlushed<C>>, bool),
    Tx(Option<oneshot::Sender<()>>),
}
pub fn fire(ds: Vec<Done>) {
    for d in ds {
        match d {
            Done::Cb(Some(cb), false) => cb.io_completed(Ok(())),
            Done::Cb(Some(cb), true) => {
                cb.io_completed(Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")))
            }
            Done::Cb(None, _) => {}
            Done::Tx(Some(tx)) => {
                let _ = tx.send(());
            }
            Done::Tx(None) => {}
        }
    }
}

/// Crash from inside a node's own task: the node's tasks are dropped when the running poll returns.
pub fn crash_here(n: u64, extra: Option<Vec<Ent>>) {
    let (raft, q, owner) = w(|w| {
        w.crash_disk(n, extra);
        let x = w.node(n);
        x.auto_restart = true;
        (x.raft.take(), std::mem::take(&mut x.ioq), x.owner)
    });
    rt::request_kill(owner);
    // Dropped by an environment task later: dropping here could re-enter the runtime.
    rt::spawn_task(
        0,
        Box::pin(async move {
            drop(q);
            drop(raft);
        }),
    );
}

pub async fn forever<T>() -> T {
    futures::future::pending::<T>().await
}

pub fn hold_ops(f: F) -> Option<u8> {
    match f {
        F::HoldQ | F::DupQ => Some(0),
        F::Hold1 | F::Dup1 => Some(1),
        F::Hold2 => Some(2),
        _ => None,
    }
}

pub type ArcCall<T> = Arc<dyn Fn(Raft) -> futures::future::BoxFuture<'static, Result<T, SrvErr>> + Send + Sync>;

/// Why a server did not answer with a regular reply.
#[derive(Debug)]
pub enum SrvErr {
    Fatal(String),
    Mismatch(openraft::error::InstallSnapshotError),
}
