//! A small cluster of openraft nodes in one process, for demonstrations: in-memory storage and network
//! that can be held up, cut, made to fail and crashed.  Nothing outside this process is touched.
#![allow(dead_code)]

use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt;
use std::fmt::Debug;
use std::future::Future;
use std::io::Cursor;
use std::ops::{Bound, RangeBounds};
use std::sync::{Arc, Mutex};
use std::time::Duration;

pub use openraft::error::*;
use openraft::network::v2::RaftNetworkV2;
use openraft::network::{Backoff, RPCOption, RaftNetworkFactory};
pub use openraft::raft::*;
use openraft::storage::*;
pub use openraft::storage::{Snapshot, SnapshotMeta};
pub use openraft::{
    AnyError, Config, EntryPayload, ErrorSubject, ErrorVerb, LogId, Membership, ServerState, SnapshotPolicy, StorageError, StoredMembership, Vote,
};
use openraft::{OptionalSend, RaftTypeConfig, TokioRuntime};
use tokio::sync::Notify;

#[derive(Debug, Clone, Copy, PartialEq, Eq, serde::Serialize, serde::Deserialize)]
pub struct Req(pub u64);
impl fmt::Display for Req {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "w{}", self.0)
    }
}
#[derive(Debug, Clone, Copy, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct C;
impl RaftTypeConfig for C {
    type D = Req;
    type R = Option<u64>;
    type NodeId = u64;
    type Node = openraft::EmptyNode;
    type Entry = openraft::Entry<C>;
    type SnapshotData = Cursor<Vec<u8>>;
    type AsyncRuntime = TokioRuntime;
    type Responder = openraft::impls::OneshotResponder<C>;
}
pub type Raft = openraft::Raft<C>;
pub type Ent = openraft::Entry<C>;
pub type Lid = LogId<u64>;
pub type Vt = Vote<u64>;
pub type Memb = Membership<C>;

pub fn lid(term: u64, node: u64, index: u64) -> Lid {
    LogId::new(openraft::CommittedLeaderId::new(term, node), index)
}
pub fn ent(l: Lid, v: u64) -> Ent {
    Ent { log_id: l, payload: EntryPayload::Normal(Req(v)) }
}
pub fn blank(l: Lid) -> Ent {
    Ent { log_id: l, payload: EntryPayload::Blank }
}
pub fn memb_ent(l: Lid, joint: &[&[u64]], learners: &[u64]) -> Ent {
    let mut nodes: BTreeSet<u64> = learners.iter().copied().collect();
    let j: Vec<BTreeSet<u64>> = joint.iter().map(|x| x.iter().copied().collect()).collect();
    for s in &j {
        nodes.extend(s.iter().copied());
    }
    Ent { log_id: l, payload: EntryPayload::Membership(Membership::new(j, nodes)) }
}

// ---------------------------------------------------------------- storage

#[derive(Default, Clone)]
pub struct Disk {
    pub log: BTreeMap<u64, Ent>,
    /// What survives a crash.
    pub durable: BTreeMap<u64, Ent>,
    pub vote: Option<Vt>,
    pub committed: Option<Lid>,
    pub purged: Option<Lid>,
    pub snapshot: Option<(SnapshotMeta<C>, Vec<u8>)>,
}
#[derive(Default, Clone)]
pub struct Sm {
    pub applied: Option<Lid>,
    pub memb: StoredMembership<C>,
    pub data: Vec<(u64, u64)>,
    pub builds: u64,
}
#[derive(Default)]
pub struct Ctl {
    closed: HashSet<String>,
    waiting: HashMap<String, u64>,
    fail: HashMap<String, AnyError>,
    pub events: Vec<String>,
    dead: bool,
    /// Appends submitted and flushed.
    seq: u64,
    done: u64,
}
#[derive(Clone, Default)]
pub struct Store {
    pub id: u64,
    pub disk: Arc<Mutex<Disk>>,
    pub sm: Arc<Mutex<Sm>>,
    pub ctl: Arc<Mutex<Ctl>>,
    notify: Arc<Notify>,
    /// Most entries handed out by one limited read.
    pub short_reads: Arc<Mutex<Option<u64>>>,
}

impl Store {
    pub fn new(id: u64) -> Self {
        Store { id, ..Default::default() }
    }
    /// Hold operations of a kind ("append", "vote", "truncate", "purge", "apply", "build", "install", "getsnap", "read") until opened.
    pub fn close(&self, what: &str) {
        self.ctl.lock().unwrap().closed.insert(what.into());
    }
    pub fn open(&self, what: &str) {
        self.ctl.lock().unwrap().closed.remove(what);
        self.notify.notify_waiters();
    }
    pub fn waiting(&self, what: &str) -> u64 {
        self.ctl.lock().unwrap().waiting.get(what).copied().unwrap_or(0)
    }
    /// The next operations of that kind fail.
    pub fn fail(&self, what: &str) {
        self.ctl.lock().unwrap().fail.insert(what.into(), AnyError::error("injected"));
    }
    pub fn events(&self) -> Vec<String> {
        self.ctl.lock().unwrap().events.clone()
    }
    pub fn log(&self) -> Vec<Lid> {
        self.disk.lock().unwrap().log.values().map(|e| e.log_id).collect()
    }
    pub fn entry(&self, i: u64) -> Option<Ent> {
        self.disk.lock().unwrap().log.get(&i).cloned()
    }
    pub fn vote(&self) -> Option<Vt> {
        self.disk.lock().unwrap().vote
    }
    pub fn data(&self) -> Vec<(u64, u64)> {
        self.sm.lock().unwrap().data.clone()
    }
    /// What a restart after a crash finds: flushed entries only; the state machine restarts from the snapshot.
    pub fn after_crash(&self, keep_sm: bool) -> Store {
        self.ctl.lock().unwrap().dead = true;
        let mut d = self.disk.lock().unwrap().clone();
        d.log = d.durable.clone();
        let mut sm = Sm::default();
        if keep_sm {
            sm = self.sm.lock().unwrap().clone();
        } else if let Some((m, b)) = &d.snapshot {
            sm = load(m, b);
        }
        Store { id: self.id, disk: Arc::new(Mutex::new(d)), sm: Arc::new(Mutex::new(sm)), short_reads: self.short_reads.clone(), ..Default::default() }
    }
    async fn pass(&self, what: &str, verb: ErrorVerb, subj: ErrorSubject<C>) -> Result<(), StorageError<C>> {
        *self.ctl.lock().unwrap().waiting.entry(what.into()).or_default() += 1;
        loop {
            let n = self.notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            {
                let c = self.ctl.lock().unwrap();
                if !c.dead && !c.closed.contains(what) {
                    break;
                }
            }
            n.await;
        }
        let mut c = self.ctl.lock().unwrap();
        *c.waiting.get_mut(what).unwrap() -= 1;
        if let Some(e) = c.fail.get(what) {
            return Err(StorageError::new(subj, verb, e.clone()));
        }
        Ok(())
    }
    fn ev(&self, s: String) {
        self.ctl.lock().unwrap().events.push(s);
    }
    /// Writes reach the disk in the order they were submitted.
    async fn turn(&self, n: u64) {
        loop {
            let x = self.notify.notified();
            tokio::pin!(x);
            x.as_mut().enable();
            if self.ctl.lock().unwrap().done >= n {
                return;
            }
            x.await;
        }
    }
    async fn behind_appends(&self) {
        let n = self.ctl.lock().unwrap().seq;
        self.turn(n).await
    }
}
fn load(m: &SnapshotMeta<C>, b: &[u8]) -> Sm {
    let data: Vec<(u64, u64)> = serde_json::from_slice(b).expect("snapshot data is damaged");
    Sm { applied: m.last_log_id, memb: m.last_membership.clone(), data, builds: 0 }
}
fn bounds<RB: RangeBounds<u64>>(r: &RB) -> (u64, u64) {
    let a = match r.start_bound() {
        Bound::Included(x) => *x,
        Bound::Excluded(x) => x + 1,
        Bound::Unbounded => 0,
    };
    let b = match r.end_bound() {
        Bound::Included(x) => x + 1,
        Bound::Excluded(x) => *x,
        Bound::Unbounded => u64::MAX,
    };
    (a, b)
}

impl RaftLogReader<C> for Store {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(&mut self, range: RB) -> Result<Vec<Ent>, StorageError<C>> {
        let (a, b) = bounds(&range);
        self.pass("read", ErrorVerb::Read, ErrorSubject::Logs).await?;
        let d = self.disk.lock().unwrap();
        if a >= b {
            return Ok(vec![]);
        }
        Ok(d.log.range(a..b).map(|x| x.1.clone()).collect())
    }
    async fn read_vote(&mut self) -> Result<Option<Vt>, StorageError<C>> {
        Ok(self.disk.lock().unwrap().vote)
    }
    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Ent>, StorageError<C>> {
        let n = *self.short_reads.lock().unwrap();
        let end = n.map(|n| end.min(start + n)).unwrap_or(end);
        self.try_get_log_entries(start..end).await
    }
}
impl RaftLogStorage<C> for Store {
    type LogReader = Store;
    async fn get_log_state(&mut self) -> Result<LogState<C>, StorageError<C>> {
        let d = self.disk.lock().unwrap();
        let last = d.log.values().next_back().map(|e| e.log_id).or(d.purged);
        Ok(LogState { last_purged_log_id: d.purged, last_log_id: last })
    }
    async fn get_log_reader(&mut self) -> Store {
        self.clone()
    }
    async fn save_vote(&mut self, vote: &Vt) -> Result<(), StorageError<C>> {
        self.behind_appends().await;
        self.pass("vote", ErrorVerb::Write, ErrorSubject::Vote).await?;
        self.disk.lock().unwrap().vote = Some(*vote);
        self.ev(format!("vote {vote}"));
        Ok(())
    }
    async fn save_committed(&mut self, committed: Option<Lid>) -> Result<(), StorageError<C>> {
        self.disk.lock().unwrap().committed = committed;
        Ok(())
    }
    async fn read_committed(&mut self) -> Result<Option<Lid>, StorageError<C>> {
        Ok(self.disk.lock().unwrap().committed)
    }
    async fn append<I>(&mut self, entries: I, callback: IOFlushed<C>) -> Result<(), StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        let v: Vec<Ent> = entries.into_iter().collect();
        {
            let mut d = self.disk.lock().unwrap();
            for e in &v {
                d.log.insert(e.log_id.index, e.clone());
            }
        }
        let s = self.clone();
        let n = {
            let mut c = self.ctl.lock().unwrap();
            c.seq += 1;
            c.seq
        };
        let f = async move {
            s.turn(n - 1).await;
            match s.pass("append", ErrorVerb::Write, ErrorSubject::Logs).await {
                Ok(()) => {
                    {
                        let mut d = s.disk.lock().unwrap();
                        for e in &v {
                            if d.log.get(&e.log_id.index).map(|x| x.log_id) == Some(e.log_id) {
                                d.durable.insert(e.log_id.index, e.clone());
                            }
                        }
                    }
                    s.ev(format!("append {:?}", v.last().map(|e| e.log_id.index)));
                    callback.io_completed(Ok(()))
                }
                Err(_) => callback.io_completed(Err(std::io::Error::new(std::io::ErrorKind::Other, "injected"))),
            }
            s.ctl.lock().unwrap().done = n;
            s.notify.notify_waiters();
        };
        let idle = {
            let c = self.ctl.lock().unwrap();
            c.done == n - 1 && !c.closed.contains("append")
        };
        if idle {
            f.await
        } else {
            tokio::spawn(f);
        }
        Ok(())
    }
    async fn truncate(&mut self, log_id: Lid) -> Result<(), StorageError<C>> {
        self.behind_appends().await;
        self.pass("truncate", ErrorVerb::Delete, ErrorSubject::Logs).await?;
        let mut d = self.disk.lock().unwrap();
        d.log.split_off(&log_id.index);
        d.durable.split_off(&log_id.index);
        drop(d);
        self.ev(format!("truncate {}", log_id.index));
        Ok(())
    }
    async fn purge(&mut self, log_id: Lid) -> Result<(), StorageError<C>> {
        self.pass("purge", ErrorVerb::Delete, ErrorSubject::Logs).await?;
        let mut d = self.disk.lock().unwrap();
        d.purged = Some(log_id);
        d.log = d.log.split_off(&(log_id.index + 1));
        d.durable = d.durable.split_off(&(log_id.index + 1));
        drop(d);
        self.ev(format!("purge {}", log_id.index));
        Ok(())
    }
}

/// Handle of the state machine.
#[derive(Clone)]
pub struct SmH(pub Store);
impl RaftSnapshotBuilder<C> for SmH {
    async fn build_snapshot(&mut self) -> Result<Snapshot<C>, StorageError<C>> {
        let (meta, bytes) = {
            let mut sm = self.0.sm.lock().unwrap();
            sm.builds += 1;
            let m = SnapshotMeta {
                last_log_id: sm.applied,
                last_membership: sm.memb.clone(),
                snapshot_id: format!("{:?}-{}-{}", sm.applied.map(|x| x.index), self.0.id, sm.builds),
            };
            (m, serde_json::to_vec(&sm.data).unwrap())
        };
        self.0.pass("build", ErrorVerb::Write, ErrorSubject::StateMachine).await?;
        let mut d = self.0.disk.lock().unwrap();
        if d.snapshot.as_ref().and_then(|s| s.0.last_log_id) <= meta.last_log_id {
            d.snapshot = Some((meta.clone(), bytes.clone()));
        }
        drop(d);
        self.0.ev(format!("built {:?}", meta.last_log_id.map(|x| x.index)));
        Ok(Snapshot { meta, snapshot: Box::new(Cursor::new(bytes)) })
    }
}
impl RaftStateMachine<C> for SmH {
    type SnapshotBuilder = SmH;
    async fn applied_state(&mut self) -> Result<(Option<Lid>, StoredMembership<C>), StorageError<C>> {
        let s = self.0.sm.lock().unwrap();
        Ok((s.applied, s.memb.clone()))
    }
    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Option<u64>>, StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        self.0.pass("apply", ErrorVerb::Write, ErrorSubject::StateMachine).await?;
        let mut s = self.0.sm.lock().unwrap();
        let mut out = vec![];
        for e in entries {
            s.applied = Some(e.log_id);
            self.0.ev(format!("apply {}", e.log_id.index));
            out.push(match e.payload {
                EntryPayload::Blank => None,
                EntryPayload::Normal(r) => {
                    s.data.push((e.log_id.index, r.0));
                    Some(r.0)
                }
                EntryPayload::Membership(m) => {
                    s.memb = StoredMembership::new(Some(e.log_id), m);
                    None
                }
            });
        }
        Ok(out)
    }
    async fn get_snapshot_builder(&mut self) -> SmH {
        self.clone()
    }
    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError<C>> {
        Ok(Box::new(Cursor::new(vec![])))
    }
    async fn install_snapshot(&mut self, meta: &SnapshotMeta<C>, snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError<C>> {
        self.0.pass("install", ErrorVerb::Write, ErrorSubject::Snapshot(None)).await?;
        let b = snapshot.into_inner();
        let builds = self.0.sm.lock().unwrap().builds;
        let mut sm = load(meta, &b);
        sm.builds = builds;
        *self.0.sm.lock().unwrap() = sm;
        self.0.disk.lock().unwrap().snapshot = Some((meta.clone(), b));
        self.0.ev(format!("install {:?}", meta.last_log_id.map(|x| x.index)));
        Ok(())
    }
    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<C>>, StorageError<C>> {
        self.0.pass("getsnap", ErrorVerb::Read, ErrorSubject::Snapshot(None)).await?;
        let d = self.0.disk.lock().unwrap();
        Ok(d.snapshot.as_ref().map(|(m, b)| Snapshot { meta: m.clone(), snapshot: Box::new(Cursor::new(b.clone())) }))
    }
}

// ---------------------------------------------------------------- network

#[derive(Debug, Clone)]
pub enum Msg {
    Append(Vt, Option<Lid>, usize, Option<Lid>),
    Vote(Vt, Option<Lid>),
    Snapshot(Vt, Option<Lid>),
    Xfer,
}
#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Fate {
    Pass,
    Drop,
    DropReply,
    /// Until `release` is called with the same tag.
    Hold(&'static str),
    HoldReply(&'static str),
    /// Refuse with "too large", at most so many entries from now on.
    Hint(u64),
}
type Hook = Box<dyn FnMut(u64, u64, &Msg) -> Fate + Send>;
#[derive(Default)]
struct NetState {
    nodes: BTreeMap<u64, Raft>,
    cut: HashSet<(u64, u64)>,
    hook: Option<Hook>,
    held: HashSet<&'static str>,
    released: HashSet<&'static str>,
    pub trace: Vec<String>,
}
#[derive(Clone, Default)]
pub struct Net {
    st: Arc<Mutex<NetState>>,
    notify: Arc<Notify>,
}
pub struct Link {
    net: Net,
    from: u64,
    to: u64,
}
#[derive(Clone)]
pub struct Factory {
    net: Net,
    from: u64,
}
impl RaftNetworkFactory<C> for Factory {
    type Network = Link;
    async fn new_client(&mut self, target: u64, _n: &openraft::EmptyNode) -> Link {
        Link { net: self.net.clone(), from: self.from, to: target }
    }
}
fn unreach() -> Unreachable {
    Unreachable::new(&AnyError::error("unreachable"))
}
impl Link {
    async fn hold(&self, tag: &'static str) {
        self.net.st.lock().unwrap().held.insert(tag);
        loop {
            let n = self.net.notify.notified();
            tokio::pin!(n);
            n.as_mut().enable();
            if self.net.st.lock().unwrap().released.contains(tag) {
                return;
            }
            n.await;
        }
    }
    async fn go<T: Send + 'static, Fut: Future<Output = Result<T, String>> + Send + 'static>(
        &self,
        m: Msg,
        f: impl FnOnce(Raft) -> Fut + Send + 'static,
    ) -> Result<T, Option<u64>> {
        let fate = {
            let mut s = self.net.st.lock().unwrap();
            let t = format!("{}->{} {:?}", self.from, self.to, m);
            s.trace.push(t);
            if s.cut.contains(&(self.from, self.to)) {
                return Err(None);
            }
            let (a, b) = (self.from, self.to);
            match s.hook.as_mut() {
                Some(h) => h(a, b, &m),
                None => Fate::Pass,
            }
        };
        match fate {
            Fate::Drop => return Err(None),
            Fate::Hint(n) => return Err(Some(n)),
            _ => {}
        }
        let link = Link { net: self.net.clone(), from: self.from, to: self.to };
        // The message is on its way whatever happens to the sender.
        let (tx, rx) = tokio::sync::oneshot::channel();
        tokio::spawn(async move {
            if let Fate::Hold(t) = fate {
                link.hold(t).await;
            }
            let r = link.net.st.lock().unwrap().nodes.get(&link.to).cloned();
            let Some(r) = r else {
                let _ = tx.send(Err(None));
                return;
            };
            let out = f(r).await;
            if let Fate::HoldReply(t) = fate {
                link.hold(t).await;
            }
            let cut = link.net.st.lock().unwrap().cut.contains(&(link.to, link.from));
            let _ = tx.send(if cut || fate == Fate::DropReply { Err(None) } else { out.map_err(|_| None) });
        });
        rx.await.unwrap_or(Err(None))
    }
}
fn rpc_err(e: Option<u64>) -> RPCError<C> {
    match e {
        Some(n) => RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(n)),
        None => RPCError::Unreachable(unreach()),
    }
}
impl RaftNetworkV2<C> for Link {
    async fn append_entries(&mut self, rpc: AppendEntriesRequest<C>, _o: RPCOption) -> Result<AppendEntriesResponse<C>, RPCError<C>> {
        let m = Msg::Append(rpc.vote, rpc.prev_log_id, rpc.entries.len(), rpc.leader_commit);
        self.go(m, |r| async move { r.append_entries(rpc).await.map_err(|e| e.to_string()) }).await.map_err(rpc_err)
    }
    async fn vote(&mut self, rpc: VoteRequest<C>, _o: RPCOption) -> Result<VoteResponse<C>, RPCError<C>> {
        let m = Msg::Vote(rpc.vote, rpc.last_log_id);
        self.go(m, |r| async move { r.vote(rpc).await.map_err(|e| e.to_string()) }).await.map_err(rpc_err)
    }
    async fn full_snapshot(
        &mut self,
        vote: Vt,
        snapshot: Snapshot<C>,
        cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        _o: RPCOption,
    ) -> Result<SnapshotResponse<C>, StreamingError<C>> {
        let m = Msg::Snapshot(vote, snapshot.meta.last_log_id);
        let f = self.go(m, move |r| async move { r.install_full_snapshot(vote, snapshot).await.map_err(|e| e.to_string()) });
        tokio::select! {
            r = f => r.map_err(|_| StreamingError::Unreachable(unreach())),
            c = cancel => Err(StreamingError::Closed(c)),
        }
    }
    async fn transfer_leader(&mut self, req: TransferLeaderRequest<C>, _o: RPCOption) -> Result<(), RPCError<C>> {
        self.go(Msg::Xfer, |r| async move { r.handle_transfer_leader(req).await.map_err(|e| e.to_string()) }).await.map_err(rpc_err)
    }
    fn backoff(&self) -> Backoff {
        Backoff::new(std::iter::repeat(Duration::from_millis(20)))
    }
}
impl Net {
    pub fn hook(&self, h: impl FnMut(u64, u64, &Msg) -> Fate + Send + 'static) {
        self.st.lock().unwrap().hook = Some(Box::new(h));
    }
    pub fn unhook(&self) {
        self.st.lock().unwrap().hook = None;
    }
    pub fn release(&self, tag: &'static str) {
        self.st.lock().unwrap().released.insert(tag);
        self.notify.notify_waiters();
    }
    pub fn is_held(&self, tag: &'static str) -> bool {
        self.st.lock().unwrap().held.contains(tag)
    }
    pub fn cut(&self, a: u64, b: u64) {
        let mut s = self.st.lock().unwrap();
        s.cut.insert((a, b));
        s.cut.insert((b, a));
    }
    pub fn isolate(&self, a: u64) {
        for b in 1..10 {
            if a != b {
                self.cut(a, b);
            }
        }
    }
    pub fn heal(&self) {
        self.st.lock().unwrap().cut.clear();
    }
    pub fn trace(&self) -> Vec<String> {
        self.st.lock().unwrap().trace.clone()
    }
}

// ---------------------------------------------------------------- cluster

pub struct Cluster {
    pub net: Net,
    pub stores: BTreeMap<u64, Store>,
    pub config: Config,
}
impl Cluster {
    pub fn new(config: Config) -> Self {
        Cluster { net: Net::default(), stores: Default::default(), config }
    }
    pub async fn start(&mut self, id: u64) -> Raft {
        self.start_with(id, Store::new(id)).await
    }
    pub async fn start_with(&mut self, id: u64, s: Store) -> Raft {
        self.stores.insert(id, s.clone());
        let cfg = Arc::new(self.config.clone().validate().unwrap());
        let r = Raft::new(id, cfg, Factory { net: self.net.clone(), from: id }, s.clone(), SmH(s)).await.expect("start");
        self.net.st.lock().unwrap().nodes.insert(id, r.clone());
        r
    }
    /// Crash a node, losing what it had not flushed, and start it again.
    pub async fn crash_restart(&mut self, id: u64, keep_sm: bool) -> Raft {
        let s = self.crash(id, keep_sm);
        self.start_with(id, s).await
    }
    pub fn crash(&mut self, id: u64, keep_sm: bool) -> Store {
        let s = self.stores[&id].after_crash(keep_sm);
        self.net.st.lock().unwrap().nodes.remove(&id);
        s
    }
    pub fn raft(&self, id: u64) -> Raft {
        self.net.st.lock().unwrap().nodes[&id].clone()
    }
    pub fn store(&self, id: u64) -> Store {
        self.stores[&id].clone()
    }
    /// A cluster of `n` voters led by node 1.
    pub async fn formed(n: u64, config: Config) -> Self {
        let mut c = Cluster::new(config);
        for i in 1..=n {
            c.start(i).await;
        }
        c.raft(1).initialize((1..=n).collect::<BTreeSet<u64>>()).await.expect("initialize");
        c.leader(1).await;
        c
    }
    pub async fn leader(&self, id: u64) {
        let r = self.raft(id);
        until("leader", || r.metrics().borrow().state == ServerState::Leader).await;
        settle().await;
    }
    /// Let a node campaign until it leads.
    pub async fn elect(&self, id: u64) {
        tokio::time::advance(Duration::from_millis(1000)).await;
        self.raft(id).trigger().elect().await.unwrap();
        self.leader(id).await;
    }
    pub async fn write(&self, id: u64, v: u64) -> Result<Lid, String> {
        let r = self.raft(id);
        match tokio::time::timeout(Duration::from_millis(5000), r.client_write(Req(v))).await {
            Ok(Ok(x)) => Ok(x.log_id),
            Ok(Err(e)) => Err(e.to_string()),
            Err(_) => Err("no answer".into()),
        }
    }
    /// Write without waiting for the answer.
    pub fn write_bg(&self, id: u64, v: u64) -> tokio::task::JoinHandle<Result<(Lid, Option<u64>), String>> {
        let r = self.raft(id);
        tokio::spawn(async move { r.client_write(Req(v)).await.map(|x| (x.log_id, x.data)).map_err(|e| e.to_string()) })
    }
}

/// No elections or heartbeats of their own: the demonstration decides.
pub fn quiet() -> Config {
    Config {
        heartbeat_interval: 50,
        election_timeout_min: 200,
        election_timeout_max: 300,
        enable_tick: true,
        enable_elect: false,
        enable_heartbeat: false,
        install_snapshot_timeout: 10_000,
        max_payload_entries: 10,
        replication_lag_threshold: 1_000_000,
        snapshot_policy: SnapshotPolicy::Never,
        max_in_snapshot_log_to_keep: 0,
        purge_batch_size: 1,
        ..Default::default()
    }
}

/// Let everything that can happen now happen.
pub async fn settle() {
    for _ in 0..200 {
        tokio::task::yield_now().await;
    }
    for _ in 0..30 {
        tokio::time::sleep(Duration::from_millis(1)).await;
        for _ in 0..50 {
            tokio::task::yield_now().await;
        }
    }
}
pub async fn until(what: &str, mut f: impl FnMut() -> bool) {
    for _ in 0..3000 {
        if f() {
            return;
        }
        tokio::time::sleep(Duration::from_millis(2)).await;
    }
    panic!("waited in vain: {what}");
}
pub fn run<F: Future<Output = ()>>(f: F) {
    let rt = tokio::runtime::Builder::new_current_thread().enable_all().start_paused(true).build().unwrap();
    rt.block_on(f);
    // Nodes may still be stuck in held operations.
    std::process::exit(0);
}
/// The demonstration failed.
pub fn fail(msg: impl fmt::Display) -> ! {
    println!("BROKEN: {msg}");
    std::process::exit(1);
}
