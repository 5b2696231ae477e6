//! The monitors: every check a property is judged by, evaluated at the moment the behaviour is observable.

use std::collections::BTreeSet;

use openraft::raft::{AppendEntriesRequest, AppendEntriesResponse, VoteRequest, VoteResponse};
use openraft::type_config::async_runtime::watch::WatchReceiver;
use openraft::metrics::{RaftDataMetrics, RaftServerMetrics};
use openraft::{EntryPayload, RaftMetrics, ServerState, SnapshotMeta};

use crate::rt;
use crate::types::*;
use crate::world::*;

impl World {
    // ------------------------------------------------------------------------------------------ log shape

    /// An entry with its predecessor became visible (in a log or in a request).
    pub fn see_entry(&mut self, who: &str, e: &Ent, prev: Option<Lid>, in_log: bool, escaped: bool) {
        let k = lkey(&e.log_id);
        let d = payload_digest(e);
        let p = prev.map(|l| lkey(&l));
        if let Some(pl) = prev {
            if pl.leader_id > e.log_id.leader_id || pl.index + 1 != e.log_id.index {
                self.viol("C02", format!("{who}: entry {} follows {}", e.log_id, pl));
            }
        } else if e.log_id.index != 0 {
            self.viol("C02", format!("{who}: entry {} has no predecessor", e.log_id));
        }
        match self.g.entries.get_mut(&k) {
            None => {
                self.g.entries.insert(k, (d, p, in_log, escaped));
            }
            Some(o) => {
                let (od, op) = (o.0, o.1);
                o.2 |= in_log;
                o.3 |= escaped;
                if od != d {
                    self.viol("C02", format!("{who}: two different entries under log id {}", e.log_id));
                }
                if op != p {
                    self.viol(
                        "C02",
                        format!("{who}: log id {} preceded by {:?} here and by {:?} elsewhere", e.log_id, p, op),
                    );
                }
            }
        }
    }

    pub fn on_append(&mut self, n: u64, ents: &[Ent]) {
        let who = format!("node {n} append");
        if ents.is_empty() {
            return;
        }
        let last = self.last_lid(n);
        let want = last.map(|l| l.index + 1).unwrap_or(0);
        if ents[0].log_id.index != want {
            self.viol(
                "C14",
                format!("{who}: first entry {} does not continue the log ending at {:?}", ents[0].log_id, last),
            );
        }
        let mut prev = last;
        for e in ents {
            if let Some(p) = prev {
                if e.log_id.index != p.index + 1 {
                    self.viol("C14", format!("{who}: entry {} after {}: not consecutive", e.log_id, p));
                }
            }
            // What another node stores has left its author.
            let foreign = lkey(&e.log_id).1 != n || cfg!(feature = "single-term");
            self.see_entry(&who, e, prev, true, foreign);
            prev = Some(e.log_id);
        }
        if ents.iter().any(|e| matches!(e.payload, EntryPayload::Membership(_))) {
            self.node(n).tm.memb = rt::now();
        }
        // Entries a leader adds to its own log.
        let vote = self.nodes[&n].vvote;
        if let Some(v) = vote {
            if v.is_committed() && leader_of(&v).1 == n {
                for e in ents {
                    if !same_leadership(&e.log_id, &v) {
                        continue;
                    }
                    match &e.payload {
                        EntryPayload::Normal(r) => {
                            let s = self.g.req_lids.entry(r.id).or_default();
                            s.insert(lkey(&e.log_id));
                            if s.len() > 1 {
                                self.viol("C12", format!("request {} was written under two log ids", r.id));
                            }
                        }
                        EntryPayload::Membership(m) => self.on_leader_membership(n, e.log_id, m.clone()),
                        EntryPayload::Blank => {}
                    }
                }
            }
        }
    }

    fn on_leader_membership(&mut self, n: u64, lid: Lid, m: Memb) {
        self.g.membership_seen += 1;
        let cfgs = self.configs(n);
        let Some((pl, pm)) = cfgs.iter().rev().find(|(l, _)| l.map(|l| l.index < lid.index).unwrap_or(true)).cloned()
        else {
            return;
        };
        let Some(pl) = pl else { return };
        if pm.get_joint_config().iter().all(|c| c.is_empty()) {
            return;
        }
        if !quorums_intersect(pm.get_joint_config(), m.get_joint_config()) {
            self.viol(
                "C08",
                format!(
                    "node {n} moved from {:?} to {:?}: disjoint quorums exist",
                    pm.get_joint_config(),
                    m.get_joint_config()
                ),
            );
        }
        if m.get_joint_config().iter().any(|c| c.is_empty()) || m.get_joint_config().is_empty() {
            self.viol("C08", format!("node {n} proposed an empty voter set {:?}", m.get_joint_config()));
        }
        for id in m.get_joint_config().iter().flatten() {
            if m.get_node(id).is_none() {
                self.viol("C08", format!("node {n}: voter {id} has no node in {:?}", m));
            }
        }
        // The previous change must be committed: a quorum of its configuration holds it.
        if !self.quorum_holds(n, &pl) {
            self.viol("C08", format!("node {n} proposed a configuration at {lid} while {pl} is not on a quorum"));
        }
    }

    /// Is `l` durable on a quorum of a configuration `n` could count by?
    pub fn quorum_holds(&self, n: u64, l: &Lid) -> bool {
        let have: BTreeSet<u64> = self.nodes.keys().copied().filter(|m| self.ever_durable(*m, l)).collect();
        let cfgs = self.configs(n);
        // The configuration in force at the entry, or any later one in the log.
        let base = cfgs.iter().rposition(|(cl, _)| cl.map(|c| c.index <= l.index).unwrap_or(true)).unwrap_or(0);
        cfgs.iter().skip(base).any(|(_, m)| is_quorum(m.get_joint_config(), &have))
    }

    pub fn on_truncate(&mut self, n: u64, since: &Lid) {
        let x = &self.nodes[&n];
        let gone: Vec<Lid> = x.vlog.range(since.index..).map(|(_, e)| e.log_id).collect();
        let purged = x.vpurged;
        let own = x.vvote;
        self.node(n).tm.memb = rt::now();
        if let Some(p) = purged {
            if since.index <= p.index {
                self.viol("C14", format!("node {n} truncates from {since}, at or below the purged {p}"));
            }
        }
        if let Some(f) = gone.first() {
            if f != since {
                self.viol("C14", format!("node {n} truncates since {since} but its log holds {f} there"));
            }
        } else {
            self.viol("C14", format!("node {n} truncates since {since}: beyond its log"));
        }
        for l in &gone {
            if let Some(c) = self.g.commits.get(&l.index) {
                if lkey(&c.lid) == lkey(l) {
                    self.viol("C03", format!("node {n} truncates the committed entry {l}"));
                    break;
                }
            }
        }
        let applied = self.nodes[&n].sm.applied;
        if let Some(a) = applied {
            if since.index <= a.index && gone.iter().any(|l| l.index <= a.index && self.is_commit(l)) {
                self.viol("C14", format!("node {n} truncates since {since} though it applied {a}"));
            }
        }
        if let Some(v) = own {
            if v.is_committed() && leader_of(&v).1 == n {
                for l in &gone {
                    if same_leadership(l, &v) {
                        self.viol("C02", format!("leader {n} removes {l} of its own leadership {v}"));
                        break;
                    }
                }
            }
        }
    }
    fn is_commit(&self, l: &Lid) -> bool {
        self.g.commits.get(&l.index).map(|c| lkey(&c.lid) == lkey(l)).unwrap_or(false)
    }

    pub fn on_purge(&mut self, n: u64, l: &Lid) {
        let keep = self.keep_logs;
        let sm_durable = self.sm_durable;
        let x = &self.nodes[&n];
        let snap = x.snap.as_ref().and_then(|s| s.meta.last_log_id);
        let booting = x.raft.is_none();
        let (manual, installs, up) = (x.manual_purge, x.installs, x.vpurged);
        let applied = x.sm.applied;
        if let Some(p) = up {
            if l.index <= p.index {
                self.viol("C14", format!("node {n} purges to {l}, at or below the purged {p}"));
            }
        }
        if let Some(h) = self.lid_at(n, l.index) {
            if &h != l {
                self.viol("C10", format!("node {n} purges to {l} but holds {h} at that index"));
            }
        }
        let covered = snap.map(|s| l.index <= s.index).unwrap_or(false)
            || (booting && sm_durable && applied.map(|a| l.index <= a.index).unwrap_or(false));
        if !covered {
            self.viol("C10", format!("node {n} purges to {l} while its snapshot covers only {snap:?}"));
        }
        if applied.map(|a| a.index < l.index).unwrap_or(true) && !covered {
            self.viol("C14", format!("node {n} purges to {l}, beyond its applied {applied:?}"));
        }
        let manual_ok = manual.map(|m| l.index <= m).unwrap_or(false);
        if let Some(s) = snap {
            let kept = s.index.saturating_sub(l.index);
            if kept < keep && !manual_ok && installs == 0 && !booting {
                self.viol(
                    "C10",
                    format!("node {n} purges to {l}: keeps {kept} entries covered by snapshot {s}, configured {keep}"),
                );
            }
        }
        // What has not been applied by this node's state machine and is not in its snapshot is lost for it.
        if !self.is_commit(l) && self.g.commits.contains_key(&l.index) {
            self.viol("C10", format!("node {n} purges to {l}, which is not the committed entry there"));
        }
    }

    // ------------------------------------------------------------------------------------------ votes

    pub fn on_save_vote(&mut self, n: u64, v: &Vt) {
        let old = self.nodes[&n].vvote;
        let op = self.op;
        self.node(n).vote_op = op;
        if let Some(o) = old {
            if !(v >= &o) {
                self.viol("C07", format!("node {n} replaces its stored vote {o} by {v}"));
                self.viol("C14", format!("node {n} stores vote {v} over {o}: moved backwards"));
            }
        }
        self.on_vote_timing(n, v);
        let l = leader_of(v);
        let now = rt::now();
        if let Some((lv, t)) = self.nodes[&n].lease {
            if !v.is_committed() && l.1 != n && leader_of(&lv).1 != n && leader_of(&lv) != l && now < t + self.lease_ns {
                self.viol(
                    "C15",
                    format!(
                        "node {n} votes for {v} {}us after it heard from leader {lv}, lease {}us",
                        (now - t) / 1000,
                        self.lease_ns / 1000
                    ),
                );
            }
        }
        if v.is_committed() {
            self.node(n).touched = now;
        }
        // A node that moved on to another leadership owes the old one nothing.
        if self.nodes[&n].lease.map(|(lv, _)| leader_of(&lv) != l).unwrap_or(false) {
            self.node(n).lease = None;
        }
        if l.1 == n && !v.is_committed() {
            let c = self.effective(n).map(|(_, m)| m.get_joint_config().clone());
            if let Some(c) = c {
                let e = self.g.cand_cfg.entry(l).or_default();
                if !e.contains(&c) {
                    e.push(c);
                }
            }
        }
    }

    /// A reply or request shows a vote: it must be durable at the node that shows it.
    fn shows_vote(&mut self, n: u64, v: &Vt, what: &str) {
        let d = self.nodes[&n].disk.vote;
        let ok = match d {
            Some(d) => &d >= v || (leader_of(&d) == leader_of(v)),
            None => vkey(v).0 == 0,
        };
        // A committed flag that is not yet on disk is harmless only if the same vote is there uncommitted.
        if !ok {
            self.viol("C07", format!("node {n} {what} shows vote {v} while its disk holds {d:?}"));
        }
    }

    pub fn on_vote_request_sent(&mut self, n: u64, rpc: &VoteRequest<C>) {
        self.shows_vote(n, &rpc.vote, "vote request");
        if leader_of(&rpc.vote).1 != n || rpc.vote.is_committed() {
            self.viol("C01", format!("node {n} requests votes for {}", rpc.vote));
        }
        // It claims the log it has.
        let last = self.last_lid(n);
        if rpc.last_log_id > last {
            self.viol("C01", format!("node {n} claims last log {:?}, has {:?}", rpc.last_log_id, last));
        }
        // A candidate asks on the strength of entries it will not lose.
        if let Some(l) = rpc.last_log_id {
            if !self.ever_durable(n, &l) {
                self.g.membership_seen += 0;
            }
        }
    }

    /// A voter with neither a greater vote, nor a greater log, nor a leader in touch has no reason to refuse.
    fn check_refusal(&mut self, m: u64, rpc: &VoteRequest<C>, started: u64, at_start: Option<Vt>, r: &VoteResponse<C>) {
        let x = &self.nodes[&m];
        let own = x.vvote;
        let below = |v: Option<Vt>| v.map(|v| v < rpc.vote).unwrap_or(true);
        if !below(own) || !below(at_start) || !(r.vote < rpc.vote) {
            return;
        }
        if own.map(|v| leader_of(&v).1 == m).unwrap_or(false) {
            return;
        }
        let now = rt::now();
        let busy = x.serving.0 == x.inc && x.serving.1 > 0;
        // The lease its leader gave up stays given up, whatever that leader sent before.
        let released = x.released.map(|(i, v, t)| i == x.inc && own == Some(v) && r.vote == v && t < started).unwrap_or(false);
        let hold = if released { 0 } else { self.lease_ns + 1_000_000 };
        if busy || (x.touched > 0 && x.touched + hold >= started) {
            return;
        }
        if self.last_lid(m) > rpc.last_log_id {
            return;
        }
        self.viol(
            "C15",
            format!(
                "node {m} refuses {} ({:?}) though its vote is {own:?}, its log {:?}{} and no leader was heard for {}us",
                rpc.vote,
                rpc.last_log_id.map(|l| l.to_string()),
                self.last_lid(m).map(|l| l.to_string()),
                if released { ", its leader gave up its lease" } else { "" },
                (now - x.touched) / 1000
            ),
        );
    }

    pub fn on_vote_reply(&mut self, m: u64, rpc: &VoteRequest<C>, started: u64, at_start: Option<Vt>, r: &VoteResponse<C>) {
        self.shows_vote(m, &r.vote, "vote reply");
        if !r.vote_granted {
            self.check_refusal(m, rpc, started, at_start, r);
            return;
        }
        if r.vote != rpc.vote {
            // Granted, then overtaken while the grant was being stored: the candidate does not count it.
            if !(r.vote > rpc.vote) {
                self.viol("C07", format!("node {m} grants {} while announcing {}", rpc.vote, r.vote));
            }
            return;
        }
        // Granted: durable, not against a greater promise, log up to date, lease over.
        let d = self.nodes[&m].disk.vote;
        if !d.map(|d| d >= rpc.vote || leader_of(&d) == leader_of(&rpc.vote)).unwrap_or(false) {
            self.viol("C07", format!("node {m} grants {} before storing it (disk {:?})", rpc.vote, d));
        }
        if let Some(s) = at_start {
            if s > rpc.vote {
                self.viol("C07", format!("node {m} grants {} though it had stored {s}", rpc.vote));
            }
        }
        let last = self.last_lid(m);
        let same = self.nodes[&m].vvote.map(|x| leader_of(&x) == leader_of(&rpc.vote)).unwrap_or(false);
        if same && last > rpc.last_log_id {
            // Entries it may have received from that very candidate after the grant do not count.
            let newer = last.map(|l| same_leadership(&l, &rpc.vote)).unwrap_or(false);
            if !newer {
                self.viol(
                    "C01",
                    format!("node {m} with last log {:?} grants a candidate with {:?}", last, rpc.last_log_id),
                );
            }
        }
        self.heard(m, &rpc.vote, started, false);
        self.g.grants.entry(leader_of(&rpc.vote)).or_default().insert(m);
    }

    // ----------------------------------------------------------------------------------------- leadership

    /// Node `n` acts as leader under `v`.
    pub fn acts_as_leader(&mut self, n: u64, v: &Vt, what: &str) {
        let l = leader_of(v);
        if !v.is_committed() {
            self.viol("C01", format!("node {n} {what} under the uncommitted vote {v}"));
            return;
        }
        if l.1 != n {
            self.viol("C01", format!("node {n} {what} under the vote {v} of another node"));
            return;
        }
        if self.g.leaders.get(&l).map(|x| x.acted).unwrap_or(false) {
            return;
        }
        self.note(|| format!("** node {n} leads under {v}"));
        self.g.leaders.insert(l, Leadership { node: n, acted: true });
        #[cfg(feature = "single-term")]
        {
            let others: Vec<_> = self.g.leaders.keys().filter(|k| k.0 == l.0 && k.1 != l.1).copied().collect();
            if !others.is_empty() {
                self.viol("C01", format!("two leaders in term {}: {:?} and {:?}", l.0, others, l));
            }
        }
        let got = self.g.grants.get(&l).cloned().unwrap_or_default();
        let cfgs = self.g.cand_cfg.get(&l).cloned().unwrap_or_default();
        if !cfgs.iter().any(|c| is_quorum(c, &got)) {
            self.viol("C01", format!("node {n} leads under {v} with grants {got:?} of configurations {cfgs:?}"));
            self.viol("C21", format!("node {n} leads under {v} with grants {got:?} of configurations {cfgs:?}"));
        }
        self.shows_vote(n, v, what);
        // Leader completeness.
        let missing: Vec<Lid> = self
            .g
            .commits
            .values()
            .filter(|c| c.by < l)
            .filter(|c| {
                let have = self.lid_at(n, c.lid.index);
                match have {
                    Some(h) => lkey(&h) != lkey(&c.lid),
                    None => {
                        let x = &self.nodes[&n];
                        let low = x.vpurged.map(|p| p.index).into_iter();
                        let low = low.chain(x.snap.as_ref().and_then(|s| s.meta.last_log_id).map(|p| p.index));
                        low.max().map(|p| c.lid.index > p).unwrap_or(true)
                    }
                }
            })
            .map(|c| c.lid)
            .collect();
        if let Some(m) = missing.first() {
            self.viol("C03", format!("node {n} leads under {v} without the committed entry {m}"));
        }
    }

    // ---------------------------------------------------------------------------------------- replication

    pub fn on_append_request_sent(&mut self, n: u64, to: u64, rpc: &AppendEntriesRequest<C>) {
        self.acts_as_leader(n, &rpc.vote, "sends log");
        if rpc.entries.len() as u64 > self.max_payload {
            self.viol(
                "C19",
                format!("node {n} sends {} entries at once, configured {}", rpc.entries.len(), self.max_payload),
            );
        }
        let mut prev = rpc.prev_log_id;
        let who = format!("request {n}->{to}");
        for (i, e) in rpc.entries.iter().enumerate() {
            if i == 0 && prev.is_none() && e.log_id.index != 0 {
                self.viol("C19", format!("{who}: first entry {} without previous log id", e.log_id));
            }
            self.see_entry(&who, e, prev, false, true);
            // What a leader sends is what it has.
            if let Some(own) = self.nodes[&n].vlog.get(&e.log_id.index) {
                if lkey(&own.log_id) == lkey(&e.log_id) && payload_digest(own) != payload_digest(e) {
                    self.viol("C02", format!("{who}: {} differs from the leader's own", e.log_id));
                }
            }
            prev = Some(e.log_id);
        }
        if let Some(c) = rpc.leader_commit {
            self.on_commit(n, &c, Some(&rpc.vote), "leader_commit sent");
        }
    }

    pub fn on_append_reply(
        &mut self,
        m: u64,
        rpc: &AppendEntriesRequest<C>,
        sent: u64,
        started: u64,
        at_start: Option<Vt>,
        r: &AppendEntriesResponse<C>,
    ) {
        if let AppendEntriesResponse::HigherVote(v) = r {
            let v = *v;
            self.shows_vote(m, &v, "append reply");
            if v <= rpc.vote {
                self.viol("C07", format!("node {m} refuses {} for the not greater vote {v}", rpc.vote));
            }
            return;
        }
        if let Some(s) = at_start {
            if s > rpc.vote {
                self.viol("C07", format!("node {m} accepted {} though it had stored {s}", rpc.vote));
            }
        }
        let d = self.nodes[&m].disk.vote;
        if !d.map(|d| d >= rpc.vote || (leader_of(&d) == leader_of(&rpc.vote) && d.is_committed())).unwrap_or(false) {
            self.viol("C07", format!("node {m} answers {} before storing the vote (disk {:?})", rpc.vote, d));
            self.viol("C05", format!("node {m} answers {} before storing the vote (disk {:?})", rpc.vote, d));
        }
        let a = self.g.acks.entry(leader_of(&rpc.vote)).or_default().entry(m).or_insert(0);
        *a = (*a).max(sent);
        let x = self.node(m);
        if started >= x.lease_cleared_at && x.lease_off != Some(leader_of(&rpc.vote)) && x.up && x.vvote.map(|o| o <= rpc.vote).unwrap_or(true) {
            let newer = match x.lease {
                Some((_, t)) => started >= t,
                None => true,
            };
            if newer {
                x.lease = Some((rpc.vote, started));
            }
        }
        self.heard(m, &rpc.vote, started, true);
        let upto: Option<Lid> = match r {
            AppendEntriesResponse::Success => rpc.entries.last().map(|e| e.log_id).or(rpc.prev_log_id),
            AppendEntriesResponse::PartialSuccess(l) => *l,
            _ => None,
        };
        if let AppendEntriesResponse::PartialSuccess(l) = r {
            let known = *l == rpc.prev_log_id || rpc.entries.iter().any(|e| Some(e.log_id) == *l);
            if !known {
                self.viol("C05", format!("node {m} reports partial success {l:?} for a request not holding it"));
            }
        }
        if let Some(u) = upto {
            let mut all: Vec<Lid> = rpc.entries.iter().map(|e| e.log_id).filter(|l| l.index <= u.index).collect();
            all.extend(rpc.prev_log_id);
            for l in all {
                if !self.ever_durable(m, &l) {
                    self.viol("C05", format!("node {m} acknowledged {l}, which is not durable there"));
                    break;
                }
            }
        }
    }

    pub fn on_snapshot_sent(&mut self, n: u64, v: &Vt, meta: &SnapshotMeta<C>, bytes: &[u8]) {
        self.acts_as_leader(n, v, "sends a snapshot");
        self.check_snapshot(&format!("snapshot sent by {n}"), "C09", meta, bytes);
    }

    pub fn on_chunk_sent(&mut self, n: u64, rpc: &openraft::raft::InstallSnapshotRequest<C>) {
        self.acts_as_leader(n, &rpc.vote, "sends a chunk");
        let op = self.op;
        let x = &self.nodes[&n];
        if let Some(v) = x.vvote {
            // Whatever delays the node's storage lasts for two operations at most.
            if v > rpc.vote && op > x.vote_op + 3 {
                self.viol("C18", format!("node {n} goes on sending {} of {} long after it stored vote {v}", rpc.meta.snapshot_id, rpc.vote));
            }
        }
    }

    /// `meta`: what an accepted answer acknowledges (None for a chunk other than the last).
    #[allow(clippy::too_many_arguments)]
    pub fn on_snapshot_reply(
        &mut self,
        m: u64,
        v: &Vt,
        meta: Option<&SnapshotMeta<C>>,
        sent: u64,
        started: u64,
        rv: &Vt,
        at_start: Option<Vt>,
    ) {
        self.shows_vote(m, rv, "snapshot reply");
        if rv > v {
            return;
        }
        if let Some(s) = at_start {
            if &s > v {
                self.viol("C07", format!("node {m} accepted a snapshot of {v} though it had stored {s}"));
                if self.chunked {
                    self.viol("C18", format!("node {m} accepted a chunk of {v} though it had stored {s}"));
                }
            }
        }
        let a = self.g.acks.entry(leader_of(v)).or_default().entry(m).or_insert(0);
        *a = (*a).max(sent);
        let Some(meta) = meta else { return };
        self.heard(m, v, started, true);
        let x = self.node(m);
        x.tm.memb = rt::now();
        let newest = x.vvote.map(|o| o <= *v).unwrap_or(true);
        if newest && started >= x.lease_cleared_at && x.lease_off != Some(leader_of(v)) && x.up && x.lease.map(|(_, t)| started >= t).unwrap_or(true) {
            x.lease = Some((*v, started));
        }
        // Accepted: everything up to it is durable.
        if let Some(l) = meta.last_log_id {
            let snap = self.g.durable_snap.get(&m).copied();
            let ok = snap.map(|s| s.index >= l.index).unwrap_or(false) || self.ever_durable(m, &l);
            let applied = self.nodes[&m].applied_hi;
            if !ok && !(applied > l.index) {
                self.viol("C05", format!("node {m} acknowledged snapshot {l} before it was durable ({snap:?})"));
            }
        }
    }

    /// A snapshot must equal the ghost's prefix of committed entries.
    pub fn check_snapshot(&mut self, who: &str, prop: &str, meta: &SnapshotMeta<C>, bytes: &[u8]) {
        let Some(l) = meta.last_log_id else {
            return;
        };
        if let Some(c) = self.g.commits.get(&l.index) {
            if lkey(&c.lid) != lkey(&l) {
                self.viol(prop, format!("{who}: last log id {l} is not the committed entry {}", c.lid));
            }
        } else {
            self.viol(prop, format!("{who}: last log id {l} was never committed"));
            return;
        }
        let want = Sm::encode(&self.ghost_prefix(l.index), l.index);
        if want != bytes {
            self.viol(
                prop,
                format!("{who}: content at {l} is {} bytes and differs from the {} applied", bytes.len(), want.len()),
            );
        }
        let wm = self
            .g
            .commits
            .range(..=l.index)
            .rev()
            .find_map(|(_, c)| c.memb.as_ref().map(|m| (c.lid, m.clone())));
        let gm = (*meta.last_membership.log_id(), meta.last_membership.membership().clone());
        let want = wm.map(|(l, m)| (Some(l), m)).unwrap_or_default();
        if want.0.is_some() && want != gm {
            self.viol(prop, format!("{who}: at {l} configuration {:?}, committed one {:?}", gm, want));
        }
    }

    // --------------------------------------------------------------------------------------------- commit

    /// `n` treats everything up to `l` as committed.
    pub fn on_commit(&mut self, n: u64, l: &Lid, by: Option<&Vt>, what: &str) {
        if let Some(c) = self.g.commits.get(&l.index) {
            if lkey(&c.lid) != lkey(l) {
                let o = c.lid;
                self.diverged(&["C03"], format!("node {n} {what}: {l} committed where {o} already was"));
            }
            return;
        }
        // New commit: justify it.
        let known_hi = self.g.commits.keys().next_back().copied();
        let lo = known_hi.map(|h| h + 1).unwrap_or(0);
        let votes = by.copied().or(self.nodes[&n].vvote);
        let byk = votes.map(|v| leader_of(&v)).unwrap_or((u64::MAX, u64::MAX));
        self.note(|| format!("** committed up to {l} ({what} at {n})"));
        if l.index < lo {
            // Already covered by a snapshot-only history; compare what the log says.
            return;
        }
        if !self.quorum_holds(n, l) {
            let have: Vec<u64> = self.nodes.keys().copied().filter(|m| self.ever_durable(*m, l)).collect();
            let cf: Vec<_> = self.configs(n).iter().map(|(_, m)| m.get_joint_config().clone()).collect();
            self.viol("C03", format!("node {n} {what}: {l} committed but durable only on {have:?} of {cf:?}"));
            self.viol("C21", format!("node {n} {what}: {l} counted as reached by a quorum, durable only on {have:?} of {cf:?}"));
            self.viol("C05", format!("node {n} {what}: {l} committed but durable only on {have:?}"));
        }
        if let Some(v) = by {
            // Observed from the leader itself: a new commit goes through an entry of its own.
            if !same_leadership(l, v) {
                self.viol("C03", format!("leader {n} of {v} committed {l}, an entry of an earlier leadership"));
            }
        }
        for i in lo..=l.index {
            let e = self.nodes[&n].vlog.get(&i).cloned();
            match e {
                Some(e) => {
                    if i == l.index && lkey(&e.log_id) != lkey(l) {
                        self.viol("C03", format!("node {n} {what}: {l} committed, its log holds {}", e.log_id));
                    }
                    self.record_commit(&e, byk);
                }
                None => {
                    self.viol("C03", format!("node {n} {what}: commits {l} without holding index {i}"));
                    break;
                }
            }
        }
    }

    fn record_commit(&mut self, e: &Ent, by: (u64, u64)) {
        let (req, memb) = match &e.payload {
            EntryPayload::Normal(r) => (Some(r.id), None),
            EntryPayload::Membership(m) => (None, Some(m.clone())),
            EntryPayload::Blank => (None, None),
        };
        if let Some(r) = req {
            if self.g.commits.values().any(|c| c.req == Some(r)) {
                self.viol("C12", format!("request {r} is committed twice, again at {}", e.log_id));
            }
        }
        self.g.commits.insert(
            e.log_id.index,
            Commit { lid: e.log_id, digest: payload_digest(e), req, memb, by },
        );
    }

    /// The state machine of `n` is told to apply `e`.
    pub fn on_apply(&mut self, n: u64, e: &Ent) {
        let prev = self.nodes[&n].sm.applied;
        let want = prev.map(|p| p.index + 1).unwrap_or(0);
        if e.log_id.index != want {
            self.viol("C04", format!("node {n} applies {} after {:?}", e.log_id, prev));
            self.viol("C14", format!("node {n} applies {} after {:?}", e.log_id, prev));
        }
        match self.g.commits.get(&e.log_id.index) {
            Some(c) => {
                if lkey(&c.lid) != lkey(&e.log_id) || c.digest != payload_digest(e) {
                    let o = c.lid;
                    self.diverged(&["C04", "C03"], format!("node {n} applies {} where {o} was committed", e.log_id));
                }
            }
            None => {
                if !self.quorum_holds(n, &e.log_id) {
                    self.viol("C04", format!("node {n} applies {}, which no quorum holds", e.log_id));
                }
                let l = e.log_id;
                self.on_commit(n, &l, None, "apply");
            }
        }
    }

    // -------------------------------------------------------------------------------------------- metrics

    /// The two narrower channels tell the same as the wide one.
    pub fn on_parts(&mut self, n: u64, inc: u32, m: &RaftMetrics<C>, d: &RaftDataMetrics<C>, s: &RaftServerMetrics<C>) {
        if !self.alive(n, inc) || m.running_state.is_err() {
            return;
        }
        let same = d.last_log.map(|l| l.index) == m.last_log_index
            && d.last_applied == m.last_applied
            && d.snapshot == m.snapshot
            && d.purged == m.purged
            && d.replication == m.replication
            && d.heartbeat == m.heartbeat
            && d.last_quorum_acked == m.last_quorum_acked;
        if !same {
            self.viol("C17", format!("node {n} publishes {m:?}, and as data metrics {d:?}"));
        }
        // What the channel holds before anything was published.
        if s.id == 0 && m.vote == Vt::default() && s.vote == m.vote && m.last_log_index.is_none() {
            return;
        }
        let same = s.id == m.id
            && s.vote == m.vote
            && s.state == m.state
            && s.current_leader == m.current_leader
            && s.membership_config == m.membership_config;
        if !same {
            self.viol("C17", format!("node {n} publishes {m:?}, and as server metrics {s:?}"));
        }
    }

    pub fn on_metrics(&mut self, n: u64, inc: u32, m: &RaftMetrics<C>) {
        if !self.alive(n, inc) {
            return;
        }
        // ---- C17: one state that is true
        if let Some(p) = self.nodes[&n].last_metrics.clone() {
            if p.inc == inc {
                if m.current_term < p.term {
                    self.viol("C17", format!("node {n}: term went from {} to {}", p.term, m.current_term));
                }
                if !(m.vote >= p.vote) {
                    self.viol("C17", format!("node {n}: vote went from {} to {}", p.vote, m.vote));
                }
                if m.last_applied < p.applied {
                    self.viol("C17", format!("node {n}: applied went from {:?} to {:?}", p.applied, m.last_applied));
                }
                if m.purged < p.purged {
                    self.viol("C17", format!("node {n}: purged went from {:?} to {:?}", p.purged, m.purged));
                }
                if m.snapshot < p.snapshot {
                    self.viol("C17", format!("node {n}: snapshot went from {:?} to {:?}", p.snapshot, m.snapshot));
                }
            }
        }
        self.node(n).last_metrics = Some(MetSeen {
            inc,
            term: m.current_term,
            vote: m.vote,
            applied: m.last_applied,
            purged: m.purged,
            snapshot: m.snapshot,
        });
        if m.id != n {
            self.viol("C17", format!("node {n} reports id {}", m.id));
        }
        if let Some(a) = m.last_applied {
            if self.nodes[&n].applied_hi < a.index || self.nodes[&n].sm.applied.is_none() {
                let s = self.nodes[&n].sm.applied;
                self.viol("C17", format!("node {n} reports applied {a}, its state machine has {s:?}"));
            }
            if let Some(c) = self.g.commits.get(&a.index) {
                if lkey(&c.lid) != lkey(&a) {
                    self.viol("C17", format!("node {n} reports applied {a}, not the committed entry"));
                }
            }
        }
        if m.last_applied.map(|a| a.index) > m.last_log_index {
            self.viol("C17", format!("node {n} reports applied {:?} beyond its log {:?}", m.last_applied, m.last_log_index));
        }
        if let Some(s) = m.snapshot {
            let have = self.nodes[&n].snap.as_ref().and_then(|s| s.meta.last_log_id);
            if have.map(|h| h.index < s.index).unwrap_or(true) {
                self.viol("C17", format!("node {n} reports snapshot {s}, storage has {have:?}"));
            }
        }
        if let Some(p) = m.purged {
            let have = self.nodes[&n].vpurged;
            if have.map(|h| h.index < p.index).unwrap_or(true) && self.nodes[&n].ioq.is_empty() {
                self.viol("C17", format!("node {n} reports purged {p}, storage has {have:?}"));
            }
        }
        // The vote shown is the one on disk; the term may be ahead while a greater vote is being written.
        let disk = self.nodes[&n].disk.vote;
        if vkey(&m.vote).0 > 0 && !disk.map(|d| d >= m.vote).unwrap_or(false) {
            self.viol("C17", format!("node {n} reports vote {} as flushed, its disk holds {disk:?}", m.vote));
            self.viol("C07", format!("node {n} reports vote {} as flushed, its disk holds {disk:?}", m.vote));
        }
        if m.current_term < m.vote.leader_id().get_term() {
            self.viol("C17", format!("node {n} reports term {} and vote {}", m.current_term, m.vote));
        }
        if m.state == ServerState::Leader && m.current_term == m.vote.leader_id().get_term() && leader_of(&m.vote).1 != n {
            self.viol("C17", format!("node {n} reports being leader under vote {}", m.vote));
        }
        if let Some(l) = m.current_leader {
            let t = m.current_term;
            if m.vote.is_committed() && leader_of(&m.vote).0 == t && leader_of(&m.vote).1 != l {
                self.viol("C17", format!("node {n} reports leader {l} under vote {}", m.vote));
            }
            // Whoever is reported as leader of a term had a quorum of grants.
            if t > 0 {
                let got = self.g.grants.get(&(t, l)).cloned().unwrap_or_default();
                let cfgs = self.g.cand_cfg.get(&(t, l)).cloned().unwrap_or_default();
                if !cfgs.iter().any(|c| is_quorum(c, &got)) {
                    self.viol("C17", format!("node {n} reports {l} as leader of term {t}, which it never was"));
                }
            }
        }
        let joint = m.membership_config.membership().get_joint_config().clone();
        let known = m.membership_config.membership().get_node(&n).is_some();
        let voter = joint.iter().any(|c| c.contains(&n));
        let set = m.membership_config.log_id().is_some();
        if set && ((m.state == ServerState::Follower && !voter) || (m.state == ServerState::Learner && voter)) {
            self.viol("C17", format!("node {n} reports state {:?} in configuration {:?}", m.state, joint));
        }
        let _ = known;
        if let Some(ml) = m.membership_config.log_id() {
            // The reported configuration was in this node's log, snapshot or state machine.
            let cf = self.configs(n);
            let ok = cf.iter().any(|(l, mm)| {
                l.as_ref() == Some(ml) && memb_digest(mm) == memb_digest(m.membership_config.membership())
            });
            let seen = self.g.entries.get(&lkey(ml)).map(|e| e.2).unwrap_or(false);
            if !ok && !seen {
                self.viol("C17", format!("node {n} reports a configuration at {ml} it never had"));
            }
        }
        if let Some(rep) = &m.replication {
            for (t, l) in rep {
                if let Some(l) = l {
                    if self.nodes.contains_key(t) && !self.ever_durable(*t, l) {
                        self.viol("C17", format!("leader {n} reports {t} at {l}, which {t} never held durably"));
                    }
                }
            }
        }
        // ---- C16
        if let Some(q) = &m.last_quorum_acked {
            let t: rt::MIns = **q;
            let mut have: BTreeSet<u64> = BTreeSet::new();
            have.insert(n);
            if let Some(a) = self.g.acks.get(&leader_of(&m.vote)) {
                for (k, v) in a {
                    if *v >= t.0 {
                        have.insert(*k);
                    }
                }
            }
            if m.state == ServerState::Leader && !is_quorum(&joint, &have) {
                let now = rt::now();
                self.viol(
                    "C16",
                    format!(
                        "leader {n} under {} reports quorum contact {}us ago; only {have:?} of {joint:?} accepted \
                         anything sent since",
                        m.vote,
                        (now - t.0) / 1000
                    ),
                );
            }
        }
    }

    // -------------------------------------------------------------------------------------------- clients

    pub fn cli_done(&mut self, i: usize, r: CliRes) {
        let s = self.next_seq();
        let c = self.cli[i].clone();
        self.note(|| format!("<< client {} at {}: {:?}", c.what, c.node, r));
        let (pos, is_read) = match &r {
            CliRes::Wrote(p, l) => {
                let (p, l) = (*p, *l);
                // Truth of the answer.
                match self.g.commits.get(&l.index) {
                    Some(cm) if lkey(&cm.lid) == lkey(&l) => {
                        if let Some(req) = c.req {
                            if cm.req != Some(req) {
                                self.viol("C12", format!("request {req} answered with {l}, which holds another"));
                            } else {
                                let want = self.ghost_prefix(l.index).len() as u32;
                                if want != p {
                                    self.viol("C12", format!("request {req} answered with {p}, applied as {want}"));
                                }
                            }
                        }
                    }
                    Some(cm) => {
                        let o = cm.lid;
                        self.viol("C12", format!("request {:?} answered with {l}; {o} was committed there", c.req));
                    }
                    None => {
                        self.viol("C12", format!("request {:?} answered with {l}, which is not committed", c.req));
                    }
                }
                if !self.quorum_holds(c.node, &l) && !self.is_commit(&l) {
                    self.viol("C05", format!("request {:?} acknowledged at {l} without a durable quorum", c.req));
                }
                if c.req.is_none() {
                    self.cli[i].done = Some((s, r));
                    return;
                }
                (p, false)
            }
            CliRes::Read(p) => (*p, true),
            _ => {
                self.cli[i].done = Some((s, r));
                return;
            }
        };
        // Real-time order.
        let mut bad: Option<String> = None;
        for o in &self.cli {
            if let Some((at, res)) = &o.done {
                if *at >= c.invoked {
                    continue;
                }
                match res {
                    CliRes::Wrote(q, _) if o.req.is_some() => {
                        if (is_read && *q > pos) || (!is_read && *q >= pos) {
                            bad = Some(format!(
                                "{} at {} took effect at {pos} although {} had completed at {q} before",
                                c.what, c.node, o.what
                            ));
                        }
                    }
                    CliRes::Read(q) => {
                        if (is_read && *q > pos) || (!is_read && *q >= pos) {
                            bad = Some(format!(
                                "{} at {} took effect at {pos} although {} had observed {q} before",
                                c.what, c.node, o.what
                            ));
                        }
                    }
                    _ => {}
                }
            }
        }
        if let Some(b) = bad {
            self.viol("C06", b);
        }
        self.cli[i].done = Some((s, r));
    }

    // ------------------------------------------------------------------------------------ quiet-point check

    /// What the leader knows a quorum to have reached is what it takes as committed.
    fn check_reached(&mut self, n: u64, v: &CoreView) {
        let Some(raft) = self.nodes[&n].raft.clone() else { return };
        let m: RaftMetrics<C> = raft.metrics().borrow_watched().clone();
        if m.state != ServerState::Leader || m.vote != v.vote || m.membership_config.log_id() != &v.eff.0 {
            return;
        }
        let Some(rep) = &m.replication else { return };
        let joint = v.eff.1.get_joint_config();
        let best = rep
            .values()
            .flatten()
            .filter(|l| same_leadership(l, &v.vote))
            .filter(|l| {
                let s: BTreeSet<u64> = rep.iter().filter(|(_, x)| x.as_ref() >= Some(l)).map(|(k, _)| *k).collect();
                is_quorum(joint, &s)
            })
            .max()
            .copied();
        if best > v.committed {
            self.viol(
                "C21",
                format!("leader {n} under {} knows {rep:?} of {joint:?}: a quorum reached {best:?}, committed {:?}", v.vote, v.committed),
            );
        }
    }

    pub fn on_core_view(&mut self, n: u64, v: CoreView) {
        let x = &self.nodes[&n];
        let owner = x.owner;
        let quiet = x.ioq.is_empty() && !self.gates.iter().any(|g| g.owner == Some(owner));
        let inc = x.inc;
        let _ = inc;
        if quiet {
            // C08: configurations follow the log.
            let cfgs = self.configs(n);
            if let Some((l, m)) = cfgs.last() {
                if *l != v.eff.0 || memb_digest(m) != memb_digest(&v.eff.1) {
                    self.viol(
                        "C08",
                        format!("node {n}: effective configuration {:?}, its log says {:?}", v.eff, (l, m)),
                    );
                }
            }
            // The committed one is the latest that is.
            if let Some((l, _)) = cfgs.iter().rev().find(|(l, _)| l.map(|l| l.index) <= v.committed.map(|l| l.index)) {
                if v.com.0.map(|l| l.index) < l.map(|l| l.index) {
                    self.viol(
                        "C08",
                        format!("node {n} knows {:?} committed, and takes {:?} for the latest committed configuration, which is {l:?}", v.committed, v.com.0),
                    );
                }
            }
            if let Some(cl) = v.com.0 {
                match self.g.commits.get(&cl.index) {
                    Some(c) if lkey(&c.lid) == lkey(&cl) => {}
                    _ => {
                        // The initial configuration of a fresh state machine has no log id; all others are committed,
                        // or at least not above what this node knows committed.
                        if v.committed.map(|c| c.index < cl.index).unwrap_or(true) {
                            // Openraft keeps "committed" as the one before the effective one.
                            let superseded = v.eff.0.map(|e| e.index > cl.index).unwrap_or(false);
                            if superseded && !self.quorum_holds(n, &cl) {
                                self.viol("C08", format!("node {n}: configuration {cl} considered committed"));
                            }
                        }
                    }
                }
            }
            // C02/C14: the core and its storage agree about the log.
            let last = self.last_lid(n);
            if last != v.last_log {
                self.viol("C14", format!("node {n}: core thinks the log ends at {:?}, it ends at {last:?}", v.last_log));
            }
            // C07: vote known to the core is stored.
            let d = self.nodes[&n].disk.vote;
            if vkey(&v.vote).0 > 0 && d != Some(v.vote) {
                self.viol("C07", format!("node {n}: core holds vote {}, disk {:?}", v.vote, d));
            }
        }
        if quiet && v.state == ServerState::Leader {
            self.check_reached(n, &v);
        }
        if let Some(c) = v.committed {
            let by = if v.state == ServerState::Leader { Some(v.vote) } else { None };
            if let Some(k) = self.g.commits.get(&c.index) {
                if lkey(&k.lid) != lkey(&c) {
                    let o = k.lid;
                    self.diverged(&["C03"], format!("node {n} holds {c} as committed where {o} was"));
                }
            } else {
                self.on_commit(n, &c, by.as_ref(), "core state");
            }
        }
        self.node(n).core = Some(v);
    }
}
