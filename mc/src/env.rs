//! Storage, state machine and network given to openraft. Every operation is a choice point.

use std::fmt::Debug;
use std::future::Future;
use std::io::Cursor;
use std::ops::RangeBounds;
use std::sync::Arc;
use std::time::Duration;

use openraft::error::{
    InstallSnapshotError, NetworkError, PayloadTooLarge, RPCError, RaftError, RemoteError, ReplicationClosed,
    StreamingError, Unreachable,
};
use openraft::network::snapshot_transport::{Chunked, SnapshotTransport};
use openraft::network::v2::RaftNetworkV2;
use openraft::network::{Backoff, RPCOption};
use openraft::raft::{
    AppendEntriesRequest, AppendEntriesResponse, InstallSnapshotRequest, InstallSnapshotResponse, SnapshotResponse,
    TransferLeaderRequest, VoteRequest, VoteResponse,
};
use openraft::storage::{IOFlushed, LogState, RaftLogReader, RaftLogStorage, RaftSnapshotBuilder, RaftStateMachine, Snapshot};
use openraft::{AnyError, EntryPayload, OptionalSend, RaftNetwork, RaftNetworkFactory, SnapshotMeta, StorageError, StoredMembership};
use tokio::sync::oneshot;

use crate::rt;
use crate::types::*;
use crate::world::*;

fn injected() -> AnyError {
    AnyError::error("injected")
}

// ----------------------------------------------------------------------------------------------- storage

#[derive(Clone)]
pub struct Store {
    pub n: u64,
    pub inc: u32,
}

impl Store {
    fn dead(&self) -> bool {
        w(|w| !w.alive(self.n, self.inc))
    }
    fn failed(&self) -> bool {
        w(|w| w.node(self.n).failed)
    }

    /// Queue a write that the caller waits for.
    async fn blocking(&self, kind: Option<K>, what: IoWhat, err: impl Fn() -> StorageError<C>) -> Result<(), StorageError<C>> {
        let n = self.n;
        let fate = match kind {
            Some(k) => w(|w| w.choose(k, &[n])),
            None => F::Go,
        };
        match fate {
            F::CrashB => {
                crash_here(n, None);
                return forever().await;
            }
            F::Err => {
                w(|w| {
                    w.node(n).failed = true;
                    w.injected_failure = true;
                });
                return Err(err());
            }
            _ => {}
        }
        let (tx, rx) = oneshot::channel();
        let ds = w(|w| {
            let seq = w.next_seq();
            let hold = hold_ops(fate);
            w.node(n).ioq.push_back(Io { what, hold, done: Some(tx), seq, fail: false });
            w.pump_io(n)
        });
        fire(ds);
        if fate == F::CrashA {
            // Everything queued before it is durable first: the log device is one FIFO.
            let ds = w(|w| {
                for io in w.node(n).ioq.iter_mut() {
                    io.hold = None;
                }
                w.pump_io(n)
            });
            drop(ds);
            crash_here(n, None);
            return forever().await;
        }
        let _ = rx.await;
        if self.dead() {
            return forever().await;
        }
        Ok(())
    }

    fn read(&self, s: u64, e: u64) -> Vec<Ent> {
        w(|w| w.node(self.n).vlog.range(s..e).map(|(_, e)| e.clone()).collect())
    }
}

fn bounds<RB: RangeBounds<u64>>(r: &RB) -> (u64, u64) {
    use std::ops::Bound::*;
    let s = match r.start_bound() {
        Included(x) => *x,
        Excluded(x) => *x + 1,
        Unbounded => 0,
    };
    let e = match r.end_bound() {
        Included(x) => *x + 1,
        Excluded(x) => *x,
        Unbounded => u64::MAX,
    };
    (s, e)
}

impl RaftLogReader<C> for Store {
    async fn try_get_log_entries<RB: RangeBounds<u64> + Clone + Debug + OptionalSend>(
        &mut self,
        range: RB,
    ) -> Result<Vec<Ent>, StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        let n = self.n;
        let (s, e) = bounds(&range);
        let (gate, fail) = w(|w| {
            let f = w.choose(K::Read, &[n]);
            let owner = w.node(n).owner;
            (hold_ops(f).map(|h| w.gate(h, h64(&("read", n, s, e)), Some(owner), n)), f == F::Err)
        });
        if fail {
            w(|w| {
                w.node(n).failed = true;
                w.injected_failure = true;
            });
            return Err(StorageError::read_logs(injected()));
        }
        if let Some(g) = gate {
            let _ = g.await;
            if self.dead() {
                return forever().await;
            }
        }
        w(|w| {
            let last = w.last_lid(n).map(|l| l.index + 1).unwrap_or(0);
            if s > e {
                w.viol("C14", format!("node {n} reads the reversed range {s}..{e}"));
            }
            let _ = last;
        });
        Ok(self.read(s, e.max(s)))
    }

    async fn read_vote(&mut self) -> Result<Option<Vt>, StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        Ok(w(|w| w.node(self.n).vvote))
    }

    async fn limited_get_log_entries(&mut self, start: u64, end: u64) -> Result<Vec<Ent>, StorageError<C>> {
        let n = self.n;
        let short = w(|w| {
            if start >= end {
                w.viol("C14", format!("node {n} reads the empty range {start}..{end} for replication"));
            }
            w.choose(K::Limited, &[n]) == F::Short
        });
        let e = if short { end.min(start + 1) } else { end };
        self.try_get_log_entries(start..e).await
    }
}

impl RaftLogStorage<C> for Store {
    type LogReader = Store;

    async fn get_log_state(&mut self) -> Result<LogState<C>, StorageError<C>> {
        Ok(w(|w| {
            let purged = w.node(self.n).vpurged;
            LogState { last_purged_log_id: purged, last_log_id: w.last_lid(self.n) }
        }))
    }

    async fn get_log_reader(&mut self) -> Store {
        self.clone()
    }

    async fn save_vote(&mut self, vote: &Vt) -> Result<(), StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        if self.failed() {
            w(|w| w.viol("C20", format!("node {} stores a vote after its storage failed", self.n)));
        }
        w(|w| {
            w.note(|| format!("   node {} save_vote {}", self.n, vote));
            w.on_save_vote(self.n, vote)
        });
        self.blocking(Some(K::IoVote), IoWhat::Vote(*vote), || StorageError::write_vote(injected())).await
    }

    async fn save_committed(&mut self, committed: Option<Lid>) -> Result<(), StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        let n = self.n;
        let ds = w(|w| {
            let (old, applied) = (w.node(n).disk.committed, w.node(n).sm.applied);
            if committed < old && committed < applied {
                w.viol("C14", format!("node {n} stores committed {committed:?} over {old:?}"));
            }
            if let Some(l) = committed {
                if let Some(h) = w.lid_at(n, l.index) {
                    if h != l {
                        w.viol("C14", format!("node {n} stores committed {l}, its log holds {h}"));
                    }
                }
                if let Some(c) = w.g.commits.get(&l.index) {
                    if lkey(&c.lid) != lkey(&l) {
                        let o = c.lid;
                        w.viol("C03", format!("node {n} stores committed {l} where {o} was"));
                    }
                }
            }
            if !w.store_committed {
                return vec![];
            }
            let seq = w.next_seq();
            w.node(n).ioq.push_back(Io { what: IoWhat::Committed(committed), hold: None, done: None, seq, fail: false });
            w.pump_io(n)
        });
        fire(ds);
        Ok(())
    }

    async fn read_committed(&mut self) -> Result<Option<Lid>, StorageError<C>> {
        Ok(w(|w| if w.store_committed { w.node(self.n).disk.committed } else { None }))
    }

    async fn append<I>(&mut self, entries: I, callback: IOFlushed<C>) -> Result<(), StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        if self.dead() {
            return forever().await;
        }
        let n = self.n;
        let ents: Vec<Ent> = entries.into_iter().collect();
        if self.failed() {
            w(|w| w.viol("C20", format!("node {n} appends after its storage failed")));
        }
        let fate = w(|w| {
            w.note(|| format!("   node {n} append {}", ents.iter().map(|e| e.log_id.to_string()).collect::<Vec<_>>().join(" ")));
            w.on_append(n, &ents);
            w.choose(K::IoAppend, &[n])
        });
        match fate {
            F::CrashB => {
                crash_here(n, None);
                return forever().await;
            }
            F::CrashA => {
                crash_here(n, Some(ents));
                return forever().await;
            }
            F::Err => {
                w(|w| {
                    w.node(n).failed = true;
                    w.injected_failure = true;
                });
                return Err(StorageError::write_logs(injected()));
            }
            _ => {}
        }
        let ds = w(|w| {
            let seq = w.next_seq();
            let x = w.node(n);
            for e in &ents {
                x.vlog.insert(e.log_id.index, e.clone());
            }
            // Nothing is written behind a write that failed: the log would have a hole.
            let fail = fate == F::ErrCb || x.cb_failed || x.ioq.iter().any(|i| i.fail);
            let hold = if fail { Some(0) } else { hold_ops(fate) };
            x.ioq.push_back(Io { what: IoWhat::Append(ents, Some(callback)), hold, done: None, seq, fail });
            w.pump_io(n)
        });
        fire(ds);
        Ok(())
    }

    async fn truncate(&mut self, log_id: Lid) -> Result<(), StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        w(|w| {
            w.note(|| format!("   node {} truncate {}", self.n, log_id));
            w.on_truncate(self.n, &log_id)
        });
        self.blocking(Some(K::IoTrunc), IoWhat::Truncate(log_id), || StorageError::write_logs(injected())).await
    }

    async fn purge(&mut self, log_id: Lid) -> Result<(), StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        w(|w| {
            w.note(|| format!("   node {} purge {}", self.n, log_id));
            w.on_purge(self.n, &log_id)
        });
        self.blocking(Some(K::IoPurge), IoWhat::Purge(log_id), || StorageError::write_logs(injected())).await
    }
}

// ----------------------------------------------------------------------------------------- state machine

pub struct SmH {
    pub n: u64,
    pub inc: u32,
}
impl SmH {
    fn dead(&self) -> bool {
        w(|w| !w.alive(self.n, self.inc))
    }
    fn enter(&self, what: &str) {
        w(|w| {
            if w.node(self.n).sm_busy {
                w.viol("C14", format!("node {}: {what} while another state machine call runs", self.n));
            }
            w.node(self.n).sm_busy = true;
        })
    }
    fn leave(&self) {
        w(|w| w.node(self.n).sm_busy = false)
    }
    /// What a user's function does with the state machine.
    pub fn user(&mut self, n: u64) -> std::pin::Pin<Box<dyn std::future::Future<Output = Option<Lid>> + Send>> {
        let me = SmH { n: self.n, inc: self.inc };
        if me.n != n {
            w(|w| w.viol("C14", format!("a function for the state machine of node {n} runs at node {}", me.n)));
        }
        Box::pin(async move {
            if me.dead() {
                return forever().await;
            }
            me.enter("a user's function");
            let a = w(|w| w.node(me.n).sm.applied);
            rt::pause().await;
            me.leave();
            a
        })
    }
    async fn hold(&self, f: F, d: u64) {
        if let Some(h) = hold_ops(f) {
            let g = w(|w| {
                let owner = w.node(self.n).owner;
                w.gate(h, d, Some(owner), self.n)
            });
            let _ = g.await;
            if self.dead() {
                return forever().await;
            }
        }
    }
}

pub struct Builder {
    n: u64,
    inc: u32,
    view: Sm,
}

impl RaftSnapshotBuilder<C> for Builder {
    async fn build_snapshot(&mut self) -> Result<Snapshot<C>, StorageError<C>> {
        let n = self.n;
        if w(|w| !w.alive(n, self.inc)) {
            return forever().await;
        }
        let f = w(|w| {
            w.on_build(n);
            w.choose(K::Build, &[n])
        });
        if f == F::Err {
            w(|w| {
                w.node(n).failed = true;
                w.injected_failure = true;
            });
            return Err(StorageError::write_snapshot(None, injected()));
        }
        if f == F::CrashB {
            crash_here(n, None);
            return forever().await;
        }
        if let Some(h) = hold_ops(f) {
            let g = w(|w| {
                let owner = w.node(n).owner;
                w.gate(h, h64(&("build", n)), Some(owner), n)
            });
            let _ = g.await;
            if w(|w| !w.alive(n, self.inc)) {
                return forever().await;
            }
        }
        let s = w(|w| {
            let x = w.node(n);
            x.snap_seq += 1;
            let id = format!("{}-{}-{}", self.view.applied.map(|l| l.to_string()).unwrap_or_default(), n, x.snap_seq);
            let meta = SnapshotMeta {
                last_log_id: self.view.applied,
                last_membership: self.view.memb.clone(),
                snapshot_id: id,
            };
            let bytes = Sm::encode(&self.view.ids, self.view.applied.map(|l| l.index).unwrap_or(0));
            let s = SnapData { meta, bytes };
            w.note(|| format!("   node {n} built snapshot {}", s.meta.snapshot_id));
            w.set_snap(n, s.clone());
            if w.chunked {
                let v = w.node(n).vvote.unwrap_or_default();
                w.lib.push((v, s.clone()));
            }
            s
        });
        if f == F::CrashA {
            crash_here(n, None);
            return forever().await;
        }
        Ok(Snapshot { meta: s.meta, snapshot: Box::new(Cursor::new(s.bytes)) })
    }
}

impl RaftStateMachine<C> for SmH {
    type SnapshotBuilder = Builder;

    async fn applied_state(&mut self) -> Result<(Option<Lid>, StoredMembership<C>), StorageError<C>> {
        Ok(w(|w| {
            let s = &w.node(self.n).sm;
            (s.applied, s.memb.clone())
        }))
    }

    async fn apply<I>(&mut self, entries: I) -> Result<Vec<Resp>, StorageError<C>>
    where
        I: IntoIterator<Item = Ent> + OptionalSend,
        I::IntoIter: OptionalSend,
    {
        if self.dead() {
            return forever().await;
        }
        let n = self.n;
        let ents: Vec<Ent> = entries.into_iter().collect();
        self.enter("apply");
        let f = w(|w| {
            w.note(|| format!("   node {n} apply {}", ents.iter().map(|e| e.log_id.to_string()).collect::<Vec<_>>().join(" ")));
            // Judged when the call is made: that is when the node claims the entries are committed.
            for (i, e) in ents.iter().enumerate() {
                if i > 0 && e.log_id.index != ents[i - 1].log_id.index + 1 {
                    w.viol("C04", format!("node {n} applies {} after {}", e.log_id, ents[i - 1].log_id));
                }
            }
            w.choose(K::Apply, &[n])
        });
        match f {
            F::CrashB => {
                crash_here(n, None);
                return forever().await;
            }
            F::Err => {
                w(|w| {
                    w.node(n).failed = true;
                    w.injected_failure = true;
                    w.node(n).sm_busy = false;
                });
                return Err(StorageError::apply(ents[0].log_id, injected()));
            }
            _ => {}
        }
        self.hold(f, h64(&("apply", n, ents.len()))).await;
        let r = w(|w| {
            let mut out = vec![];
            for e in &ents {
                w.on_apply(n, e);
                let durable = w.sm_durable;
                let x = w.node(n);
                x.sm.applied = Some(e.log_id);
                x.applied_hi = x.applied_hi.max(e.log_id.index);
                let r = match &e.payload {
                    EntryPayload::Normal(r) => {
                        x.sm.ids.push((e.log_id.index, r.id));
                        Resp { id: r.id, pos: x.sm.pos() }
                    }
                    EntryPayload::Membership(m) => {
                        x.sm.memb = StoredMembership::new(Some(e.log_id), m.clone());
                        Resp { id: 0, pos: 0 }
                    }
                    EntryPayload::Blank => Resp { id: 0, pos: 0 },
                };
                if durable {
                    x.disk.sm = x.sm.clone();
                }
                out.push(r);
            }
            out
        });
        if f == F::CrashA {
            crash_here(n, None);
            return forever().await;
        }
        self.leave();
        Ok(r)
    }

    async fn get_snapshot_builder(&mut self) -> Builder {
        let view = w(|w| w.node(self.n).sm.clone());
        Builder { n: self.n, inc: self.inc, view }
    }

    async fn begin_receiving_snapshot(&mut self) -> Result<Box<Cursor<Vec<u8>>>, StorageError<C>> {
        Ok(Box::new(Cursor::new(vec![])))
    }

    async fn install_snapshot(&mut self, meta: &SnapshotMeta<C>, snapshot: Box<Cursor<Vec<u8>>>) -> Result<(), StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        let n = self.n;
        self.enter("install_snapshot");
        let bytes = snapshot.into_inner();
        let f = w(|w| {
            w.note(|| format!("   node {n} installs snapshot {} {:?}", meta.snapshot_id, meta.last_log_id));
            let p = if w.chunked { "C18" } else { "C09" };
            w.check_snapshot(&format!("snapshot installed at {n}"), p, meta, &bytes);
            if w.chunked {
                w.check_snapshot(&format!("snapshot installed at {n}"), "C09", meta, &bytes);
            }
            let a = w.node(n).sm.applied;
            if meta.last_log_id <= a {
                w.viol("C09", format!("node {n} installs snapshot {:?} though it applied {:?}", meta.last_log_id, a));
                w.viol("C14", format!("node {n} installs snapshot {:?} though it applied {:?}", meta.last_log_id, a));
            }
            w.choose(K::Install, &[n])
        });
        match f {
            F::CrashB => {
                crash_here(n, None);
                return forever().await;
            }
            F::Err => {
                w(|w| {
                    w.node(n).failed = true;
                    w.injected_failure = true;
                    w.node(n).sm_busy = false;
                });
                return Err(StorageError::write_snapshot(Some(meta.signature()), injected()));
            }
            _ => {}
        }
        self.hold(f, h64(&("install", n, meta.last_log_id.map(|l| l.index)))).await;
        w(|w| {
            let Some((ap, ids)) = Sm::decode(&bytes) else {
                return;
            };
            if Some(ap) != meta.last_log_id.map(|l| l.index) {
                return;
            }
            let durable = w.sm_durable;
            let seq = w.next_seq();
            let x = w.node(n);
            x.installs += 1;
            x.installed = meta.last_log_id.map(|l| (seq, l.index));
            x.sm = Sm { applied: meta.last_log_id, memb: meta.last_membership.clone(), ids };
            x.applied_hi = x.applied_hi.max(ap);
            if durable {
                x.disk.sm = x.sm.clone();
            }
            w.set_snap(n, SnapData { meta: meta.clone(), bytes: bytes.clone() });
        });
        if f == F::CrashA {
            crash_here(n, None);
            return forever().await;
        }
        self.leave();
        Ok(())
    }

    async fn get_current_snapshot(&mut self) -> Result<Option<Snapshot<C>>, StorageError<C>> {
        if self.dead() {
            return forever().await;
        }
        let f = w(|w| w.choose(K::SnapGet, &[self.n]));
        if f == F::Err {
            w(|w| {
                w.node(self.n).failed = true;
                w.injected_failure = true;
            });
            return Err(StorageError::read_snapshot(None, injected()));
        }
        self.hold(f, h64(&("snapget", self.n))).await;
        Ok(w(|w| {
            w.node(self.n)
                .snap
                .as_ref()
                .map(|s| Snapshot { meta: s.meta.clone(), snapshot: Box::new(Cursor::new(s.bytes.clone())) })
        }))
    }
}

// ------------------------------------------------------------------------------------------------ network

#[derive(Debug)]
pub enum NetErr {
    Unreachable,
    Network,
    Mismatch(InstallSnapshotError),
}

/// Send a request; the reply (or failure) arrives on the returned channel.
pub fn send<T: Send + 'static>(kq: K, kr: K, from: u64, to: u64, desc: u64, call: ArcCall<T>) -> oneshot::Receiver<Result<T, NetErr>> {
    let (tx, rx) = oneshot::channel();
    let fq = w(|w| {
        if w.mute.contains(&from) && matches!(kq, K::AeReq | K::SnapReq | K::ChunkReq) {
            return F::DropU;
        }
        w.choose(kq, &[from, to])
    });
    let fut = async move {
        let mut tx = Some(tx);
        match fq {
            F::Drop => {
                let _ = tx.take().unwrap().send(Err(NetErr::Network));
                return;
            }
            F::DropU => {
                let _ = tx.take().unwrap().send(Err(NetErr::Unreachable));
                return;
            }
            F::Lose => {
                // The caller's own timeout has to notice.
                let t = tx.take().unwrap();
                let mut t = t;
                t.closed().await;
                return;
            }
            F::HoldQ | F::Hold1 | F::Hold2 => {
                let g = w(|w| w.gate(hold_ops(fq).unwrap(), desc, None, to));
                let _ = g.await;
            }
            F::DupQ | F::Dup1 => {
                let g = w(|w| w.gate(hold_ops(fq).unwrap(), desc, None, to));
                let call = call.clone();
                rt::spawn_task(
                    0,
                    Box::pin(async move {
                        let _ = g.await;
                        if let Some(raft) = target(from, to) {
                            w(|w| w.node(to).tm.last_in = rt::now());
                            let _ = call(raft).await;
                        }
                    }),
                );
            }
            _ => {}
        }
        let Some(raft) = target(from, to) else {
            let _ = tx.take().unwrap().send(Err(NetErr::Unreachable));
            return;
        };
        w(|w| {
            w.deliveries += 1;
            w.node(to).tm.last_in = rt::now();
        });
        let res = call(raft).await;
        let fr = w(|w| w.choose(kr, &[from, to]));
        match fr {
            F::Drop => {
                let _ = tx.take().unwrap().send(Err(NetErr::Network));
                return;
            }
            F::DropU => {
                let _ = tx.take().unwrap().send(Err(NetErr::Unreachable));
                return;
            }
            F::Lose => {
                let mut t = tx.take().unwrap();
                t.closed().await;
                return;
            }
            F::HoldQ | F::Hold1 | F::Hold2 => {
                let g = w(|w| w.gate(hold_ops(fr).unwrap(), h64(&(desc, "reply")), None, from));
                let _ = g.await;
            }
            _ => {}
        }
        if !w(|w| w.connected(to, from)) {
            let _ = tx.take().unwrap().send(Err(NetErr::Unreachable));
            return;
        }
        // An answer may carry a greater vote.
        w(|w| w.node(from).tm.last_in = rt::now());
        let r = match res {
            Ok(t) => Ok(t),
            Err(SrvErr::Fatal(_)) => Err(NetErr::Unreachable),
            Err(SrvErr::Mismatch(m)) => Err(NetErr::Mismatch(m)),
        };
        let _ = tx.take().unwrap().send(r);
    };
    rt::spawn_task(0, Box::pin(fut));
    rx
}

fn target(from: u64, to: u64) -> Option<Raft> {
    w(|w| {
        if !w.connected(from, to) {
            return None;
        }
        let x = w.nodes.get(&to)?;
        if !x.up {
            return None;
        }
        x.raft.clone()
    })
}

fn unreach() -> Unreachable {
    Unreachable::new(&AnyError::error("unreachable"))
}
fn neterr() -> NetworkError {
    NetworkError::new(&AnyError::error("network"))
}
fn rpc_err(e: NetErr) -> RPCError<C> {
    match e {
        NetErr::Unreachable => RPCError::Unreachable(unreach()),
        _ => RPCError::Network(neterr()),
    }
}
fn rpc_err_v1<E: std::error::Error>(e: NetErr) -> RPCError<C, E> {
    match e {
        NetErr::Unreachable => RPCError::Unreachable(unreach()),
        _ => RPCError::Network(neterr()),
    }
}

/// Facts about the serving node noted when the request reaches it.
fn at_start(to: u64, inc: u32) -> (u64, Option<Vt>) {
    w(|w| (rt::now(), if w.alive(to, inc) { w.node(to).disk.vote } else { None }))
}
/// The same for a message of a leader.
fn at_start_l(to: u64, inc: u32) -> (u64, Option<Vt>) {
    w(|w| {
        let x = w.node(to);
        x.touched = rt::now();
        x.serving = if x.serving.0 == inc { (inc, x.serving.1 + 1) } else { (inc, 1) };
    });
    at_start(to, inc)
}
fn served(to: u64, inc: u32) {
    w(|w| {
        let x = w.node(to);
        if x.serving.0 == inc {
            x.touched = rt::now();
            x.serving.1 = x.serving.1.saturating_sub(1);
        }
    })
}

fn do_append(from: u64, to: u64, rpc: AppendEntriesRequest<C>) -> oneshot::Receiver<Result<AppendEntriesResponse<C>, NetErr>> {
    let sent = rt::now();
    w(|w| {
        w.note(|| format!("-> {from}->{to} append {} prev {:?} n={} commit {:?}", rpc.vote, rpc.prev_log_id.map(|l| l.to_string()), rpc.entries.len(), rpc.leader_commit.map(|l| l.to_string())));
        w.node(from).tm.sent.insert(to, sent);
        w.on_append_request_sent(from, to, &rpc)
    });
    let desc = h64(&(
        "ae",
        from,
        to,
        vkey(&rpc.vote),
        rpc.prev_log_id.map(|l| lkey(&l)),
        rpc.entries.iter().map(|e| lkey(&e.log_id)).collect::<Vec<_>>(),
        rpc.leader_commit.map(|l| lkey(&l)),
    ));
    let rpc = Arc::new(rpc);
    let call: ArcCall<AppendEntriesResponse<C>> = Arc::new(move |raft| {
        let rpc = rpc.clone();
        let inc = w(|w| w.node(to).inc);
        let (started, vote0) = at_start_l(to, inc);
        Box::pin(async move {
            let r = raft.append_entries(clone_ae(&rpc)).await;
            served(to, inc);
            match r {
                Ok(r) => {
                    w(|w| {
                        w.note(|| format!("<- {to}->{from} append reply {r:?}"));
                        if w.node(to).inc == inc {
                            w.on_append_reply(to, &rpc, sent, started, vote0, &r);
                        }
                        if w.node(to).inc == inc && w.node(to).failed && !matches!(r, AppendEntriesResponse::HigherVote(_)) {
                            w.note(|| format!("   (answered by failed node {to})"));
                        }
                    });
                    Ok(r)
                }
                Err(e) => Err(SrvErr::Fatal(e.to_string())),
            }
        })
    });
    send(K::AeReq, K::AeRep, from, to, desc, call)
}

fn clone_ae(r: &AppendEntriesRequest<C>) -> AppendEntriesRequest<C> {
    AppendEntriesRequest { vote: r.vote, prev_log_id: r.prev_log_id, entries: r.entries.clone(), leader_commit: r.leader_commit }
}

fn do_vote(from: u64, to: u64, rpc: VoteRequest<C>) -> oneshot::Receiver<Result<VoteResponse<C>, NetErr>> {
    w(|w| {
        w.note(|| format!("-> {from}->{to} vote {} last {:?}", rpc.vote, rpc.last_log_id.map(|l| l.to_string())));
        w.on_vote_request_sent(from, &rpc)
    });
    let desc = h64(&("vote", from, to, vkey(&rpc.vote), rpc.last_log_id.map(|l| lkey(&l))));
    let rpc = Arc::new(rpc);
    let call: ArcCall<VoteResponse<C>> = Arc::new(move |raft| {
        let rpc = rpc.clone();
        let inc = w(|w| w.node(to).inc);
        let (started, vote0) = at_start(to, inc);
        Box::pin(async move {
            let r = raft.vote(VoteRequest { vote: rpc.vote, last_log_id: rpc.last_log_id }).await;
            match r {
                Ok(r) => {
                    w(|w| {
                        w.note(|| format!("<- {to}->{from} vote reply {r:?}"));
                        if w.node(to).inc == inc {
                            w.on_vote_reply(to, &rpc, started, vote0, &r);
                        }
                    });
                    Ok(r)
                }
                Err(e) => Err(SrvErr::Fatal(e.to_string())),
            }
        })
    });
    send(K::VoteReq, K::VoteRep, from, to, desc, call)
}

fn do_full_snapshot(from: u64, to: u64, vote: Vt, meta: SnapshotMeta<C>, bytes: Vec<u8>) -> oneshot::Receiver<Result<SnapshotResponse<C>, NetErr>> {
    let sent = rt::now();
    let desc = h64(&("snap", from, to, vkey(&vote), meta.last_log_id.map(|l| lkey(&l))));
    let call: ArcCall<SnapshotResponse<C>> = Arc::new(move |raft| {
        let (meta, bytes) = (meta.clone(), bytes.clone());
        let inc = w(|w| w.node(to).inc);
        let (started, vote0) = at_start_l(to, inc);
        Box::pin(async move {
            let s = Snapshot { meta: meta.clone(), snapshot: Box::new(Cursor::new(bytes)) };
            let r = raft.install_full_snapshot(vote, s).await;
            served(to, inc);
            match r {
                Ok(r) => {
                    w(|w| {
                        w.note(|| format!("<- {to}->{from} snapshot reply {:?}", r.vote));
                        if w.node(to).inc == inc {
                            w.on_snapshot_reply(to, &vote, Some(&meta), sent, started, &r.vote, vote0);
                        }
                    });
                    Ok(r)
                }
                Err(e) => Err(SrvErr::Fatal(e.to_string())),
            }
        })
    });
    send(K::SnapReq, K::SnapRep, from, to, desc, call)
}

fn clone_chunk(r: &InstallSnapshotRequest<C>) -> InstallSnapshotRequest<C> {
    InstallSnapshotRequest { vote: r.vote, meta: r.meta.clone(), offset: r.offset, data: r.data.clone(), done: r.done }
}

fn do_chunk(from: u64, to: u64, rpc: InstallSnapshotRequest<C>) -> oneshot::Receiver<Result<InstallSnapshotResponse<C>, NetErr>> {
    w(|w| w.note(|| format!("-> {from}->{to} chunk {} off {} len {} done {}", rpc.meta.snapshot_id, rpc.offset, rpc.data.len(), rpc.done)));
    let sent = rt::now();
    let desc = h64(&("chunk", from, to, vkey(&rpc.vote), rpc.offset, rpc.done, &rpc.meta.snapshot_id));
    send(K::ChunkReq, K::ChunkRep, from, to, desc, chunk_call(from, to, sent, Arc::new(rpc)))
}

/// Part `i` of the `s`-th snapshot built reaches node `to`, whatever else it received before.
pub fn inject_chunk(to: u64, s: usize, i: usize, size: usize) {
    let Some((v, d, raft)) = w(|w| {
        let (v, d) = w.lib.get(s).cloned()?;
        let x = w.nodes.get(&to)?;
        if !x.up || (i > 0 && i * size >= d.bytes.len()) {
            return None;
        }
        Some((v, d, x.raft.clone()?))
    }) else {
        return;
    };
    let (a, b) = (i * size, d.bytes.len().min((i + 1) * size));
    let rpc = InstallSnapshotRequest { vote: v, meta: d.meta, offset: a as u64, data: d.bytes[a..b].to_vec(), done: b == d.bytes.len() };
    let from = leader_of(&v).1;
    w(|w| w.note(|| format!("=> {to} gets chunk {} off {} len {} done {}", rpc.meta.snapshot_id, rpc.offset, rpc.data.len(), rpc.done)));
    let call = chunk_call(from, to, 0, Arc::new(rpc));
    rt::spawn_task(
        0,
        Box::pin(async move {
            let _ = call(raft).await;
        }),
    );
}

fn chunk_call(from: u64, to: u64, sent: u64, rpc: Arc<InstallSnapshotRequest<C>>) -> ArcCall<InstallSnapshotResponse<C>> {
    Arc::new(move |raft| {
        let rpc = rpc.clone();
        let inc = w(|w| w.node(to).inc);
        let (started, vote0) = at_start_l(to, inc);
        Box::pin(async move {
            let r = raft.install_snapshot(clone_chunk(&rpc)).await;
            served(to, inc);
            match r {
                Ok(r) => {
                    w(|w| {
                        w.note(|| format!("<- {to}->{from} chunk off {} reply {:?}", rpc.offset, r.vote));
                        if w.node(to).inc == inc {
                            let meta = if rpc.done { Some(&rpc.meta) } else { None };
                            w.on_snapshot_reply(to, &rpc.vote, meta, sent, started, &r.vote, vote0);
                        }
                    });
                    Ok(r)
                }
                Err(RaftError::APIError(e)) => {
                    w(|w| w.note(|| format!("<- {to}->{from} chunk off {} refused: {e}", rpc.offset)));
                    Err(SrvErr::Mismatch(e))
                }
                Err(e) => Err(SrvErr::Fatal(e.to_string())),
            }
        })
    })
}

#[derive(Clone)]
pub struct Net {
    pub from: u64,
    pub inc: u32,
    pub to: u64,
    pub id: u64,
}

/// The same node seen through the v1 network API (adapter and chunked transport of openraft are then in play).
#[derive(Clone)]
pub struct NetV1(pub Net);

pub struct Factory {
    pub n: u64,
    pub inc: u32,
}
impl RaftNetworkFactory<C> for Factory {
    type Network = Net;
    async fn new_client(&mut self, target: u64, _node: &Addr) -> Net {
        Net { from: self.n, inc: self.inc, to: target, id: w(|w| w.next_seq()) }
    }
}

impl RaftNetwork<C> for NetV1 {
    async fn append_entries(&mut self, rpc: AppendEntriesRequest<C>, _o: RPCOption) -> Result<AppendEntriesResponse<C>, RPCError<C, RaftError<C>>> {
        match do_append(self.0.from, self.0.to, rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(rpc_err_v1(e)),
            Err(_) => Err(rpc_err_v1(NetErr::Network)),
        }
    }
    async fn install_snapshot(
        &mut self,
        rpc: InstallSnapshotRequest<C>,
        _o: RPCOption,
    ) -> Result<InstallSnapshotResponse<C>, RPCError<C, RaftError<C, InstallSnapshotError>>> {
        let to = self.0.to;
        w(|w| w.on_chunk_sent(self.0.from, &rpc));
        match do_chunk(self.0.from, to, rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(NetErr::Mismatch(m))) => Err(RPCError::RemoteError(RemoteError::new(to, RaftError::APIError(m)))),
            Ok(Err(e)) => Err(rpc_err_v1(e)),
            Err(_) => Err(rpc_err_v1(NetErr::Network)),
        }
    }
    async fn vote(&mut self, rpc: VoteRequest<C>, _o: RPCOption) -> Result<VoteResponse<C>, RPCError<C, RaftError<C>>> {
        match do_vote(self.0.from, self.0.to, rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(rpc_err_v1(e)),
            Err(_) => Err(rpc_err_v1(NetErr::Network)),
        }
    }
}

impl RaftNetworkV2<C> for Net {
    async fn append_entries(&mut self, rpc: AppendEntriesRequest<C>, option: RPCOption) -> Result<AppendEntriesResponse<C>, RPCError<C>> {
        if w(|w| w.v1) {
            return RaftNetworkV2::append_entries(&mut NetV1(self.clone()), rpc, option).await;
        }
        // A refused request comes back in parts as small as the receiver said, for the next few requests.
        let n = rpc.entries.len() as u64;
        w(|w| {
            if let Some((h, left)) = w.hint.get(&self.id).copied() {
                if n > h {
                    w.viol("C19", format!("node {} sends {n} entries to {} under hint {h}", self.from, self.to));
                }
                if left > 1 {
                    w.hint.insert(self.id, (h, left - 1));
                } else {
                    w.hint.remove(&self.id);
                }
            }
        });
        if n > 0 {
            let f = w(|w| w.choose(K::Limited, &[self.from, self.to]));
            if f == F::Big1 || f == F::Big2 {
                let h = if f == F::Big1 { 1 } else { 2 };
                w(|w| w.hint.insert(self.id, (h, 5)));
                return Err(RPCError::PayloadTooLarge(PayloadTooLarge::new_entries_hint(h)));
            }
            if f == F::Short {
                // Only the first part is sent, and said to have arrived.
                let mut rpc = rpc;
                rpc.entries.truncate(n as usize / 2);
                let last = rpc.entries.last().map(|e| e.log_id).or(rpc.prev_log_id);
                return match do_append(self.from, self.to, rpc).await {
                    Ok(Ok(AppendEntriesResponse::Success)) => Ok(AppendEntriesResponse::PartialSuccess(last)),
                    Ok(Ok(r)) => Ok(r),
                    Ok(Err(e)) => Err(rpc_err(e)),
                    Err(_) => Err(rpc_err(NetErr::Network)),
                };
            }
        }
        match do_append(self.from, self.to, rpc).await {
            Ok(Ok(r)) => Ok(r),
            Ok(Err(e)) => Err(rpc_err(e)),
            Err(_) => Err(rpc_err(NetErr::Network)),
        }
    }

    async fn vote(&mut self, rpc: VoteRequest<C>, option: RPCOption) -> Result<VoteResponse<C>, RPCError<C>> {
        if w(|w| w.v1) {
            return RaftNetworkV2::vote(&mut NetV1(self.clone()), rpc, option).await;
        }
        let vote = rpc.vote;
        match do_vote(self.from, self.to, rpc).await {
            Ok(Ok(r)) => {
                w(|w| w.on_vote_answer(self.from, &vote, &r));
                Ok(r)
            }
            Ok(Err(e)) => Err(rpc_err(e)),
            Err(_) => Err(rpc_err(NetErr::Network)),
        }
    }

    async fn full_snapshot(
        &mut self,
        vote: Vt,
        snapshot: Snapshot<C>,
        cancel: impl Future<Output = ReplicationClosed> + OptionalSend + 'static,
        option: RPCOption,
    ) -> Result<SnapshotResponse<C>, StreamingError<C>> {
        w(|w| {
            w.note(|| format!("-> {}->{} snapshot {} {}", self.from, self.to, vote, snapshot.meta.snapshot_id));
            let b = snapshot.snapshot.get_ref().clone();
            w.on_snapshot_sent(self.from, &vote, &snapshot.meta, &b)
        });
        if w(|w| w.v1) {
            return RaftNetworkV2::full_snapshot(&mut NetV1(self.clone()), vote, snapshot, cancel, option).await;
        }
        if w(|w| w.chunked) {
            let r = Chunked::send_snapshot(&mut NetV1(self.clone()), vote, snapshot, cancel, option).await;
            return r.map_err(|e| match e {
                StreamingError::Closed(c) => StreamingError::Closed(c),
                StreamingError::StorageError(s) => StreamingError::StorageError(s),
                StreamingError::Timeout(t) => StreamingError::Timeout(t),
                StreamingError::Unreachable(u) => StreamingError::Unreachable(u),
                StreamingError::Network(n) => StreamingError::Network(n),
                StreamingError::RemoteError(_) => StreamingError::Network(neterr()),
            });
        }
        let rx = do_full_snapshot(self.from, self.to, vote, snapshot.meta.clone(), snapshot.snapshot.into_inner());
        let cancel = std::pin::pin!(cancel);
        match futures::future::select(rx, cancel).await {
            futures::future::Either::Left((r, _)) => match r {
                Ok(Ok(r)) => Ok(r),
                Ok(Err(NetErr::Unreachable)) => Err(StreamingError::Unreachable(unreach())),
                _ => Err(StreamingError::Network(neterr())),
            },
            futures::future::Either::Right((c, _)) => Err(StreamingError::Closed(c)),
        }
    }

    async fn transfer_leader(&mut self, req: TransferLeaderRequest<C>, _option: RPCOption) -> Result<(), RPCError<C>> {
        let (from, to) = (self.from, self.to);
        w(|w| {
            w.note(|| format!("-> {from}->{to} transfer {:?}", req));
            let v = *req.from_leader();
            if !v.is_committed() || leader_of(&v).1 != from {
                w.viol("C15", format!("node {from} transfers leadership of vote {v}"));
            }
        });
        let desc = h64(&("xfer", from, to, vkey(req.from_leader())));
        let call: ArcCall<()> = Arc::new(move |raft| {
            let req = req.clone();
            w(|w| {
                let x = w.node(to);
                x.lease = None;
                x.lease_cleared_at = rt::now() + 1;
                x.lease_off = Some(leader_of(req.from_leader()));
                x.tm.quiet.1 = 0;
                x.tm.xfer = true;
            });
            let at = w(|w| (w.nodes[&to].inc, w.nodes[&to].vvote));
            Box::pin(async move {
                let v = *req.from_leader();
                let r = raft.handle_transfer_leader(req).await.map_err(|e| SrvErr::Fatal(e.to_string()));
                w(|w| {
                    let x = w.node(to);
                    if r.is_ok() && x.up && (x.inc, x.vvote) == at && x.vvote == Some(v) {
                        x.released = Some((x.inc, v, rt::now()));
                    }
                });
                r
            })
        });
        match send(K::XferReq, K::XferReq, from, to, desc, call).await {
            Ok(Ok(())) => Ok(()),
            Ok(Err(e)) => Err(rpc_err(e)),
            Err(_) => Err(rpc_err(NetErr::Network)),
        }
    }

    fn backoff(&self) -> Backoff {
        Backoff::new(std::iter::repeat(Duration::from_millis(20)))
    }
}
