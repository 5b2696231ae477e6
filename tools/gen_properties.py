#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (kept as a generator so that ids, titles and anchors stay in one readable place)."""
import json
S="openraft/src/"
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=[S+f if not f.startswith('/') else f[1:] for f in files],
                        mechanism=[dict(name=n,where=(S+w if not w.startswith('/') else w[1:])) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=S+w) for n,m,w in state]
    if observe: d["anchors"]["observe_at"]=observe
    d["anchors"]["hook_needed"]=hook
    P.append(d)

p("C01","Election safety: a leadership claim is exclusive and quorum-backed",
 "No two nodes ever act as leader under the same vote (term and leader id), and with single-leader-per-term mode enabled, under the same term. A node acts as leader only after a quorum of every voter set of its effective configuration has granted that vote, counting each voter once and never counting learners or nodes outside the configuration. A voter grants a vote only to a candidate whose log is at least as up to date as its own.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every interleaving of elections, vote requests and replies (delayed, lost, duplicated, reordered, answered after the candidate moved on), restarts between granting and persisting, and membership configurations including joint ones",
 "tests elect one leader under benign timing; they do not enumerate competing candidates, stale or duplicated vote replies, crashes around the vote write, or elections during a joint configuration",
 ["engine/engine_impl.rs","engine/handler/vote_handler/mod.rs","engine/handler/establish_handler/mod.rs","proposer/candidate.rs","vote/vote.rs","vote/leader_id/leader_id_adv.rs","vote/leader_id/leader_id_std.rs","core/raft_core.rs"],
 [("vote comparison and log-up-to-date check","engine/engine_impl.rs:handle_vote_req"),("counting grants by quorum","proposer/candidate.rs:grant_by"),("discarding replies for another vote","core/raft_core.rs:does_candidate_vote_match"),("establishing a leader","engine/handler/establish_handler/mod.rs")],
 [("vote","highest vote this node has seen/promised","raft_state/mod.rs"),("candidate","grants collected","engine/engine_impl.rs")],
 ["vote replies and AppendEntries/InstallSnapshot requests on the network","metrics.state/current_leader"])

p("C02","Log matching: equal log ids imply identical entries and identical prefixes",
 "If the logs of two nodes hold an entry with the same log id, the entries are identical and all earlier entries both nodes still hold are identical too. Log ids within one log have consecutive indexes and never-decreasing leader order, and a leader never changes or removes an entry of its own log except by purging.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every interleaving of replication requests from current and deposed leaders (delayed, duplicated, reordered, lost), of conflicting suffixes, truncation, snapshot installation and crashes that lose unsynced writes",
 "tests build a handful of conflict shapes by hand; which suffix is kept or truncated depends on the relative arrival of requests of several leaders, which tests do not enumerate",
 ["engine/handler/following_handler/mod.rs","engine/log_id_list.rs","replication/mod.rs","core/raft_core.rs","engine/handler/leader_handler/mod.rs","progress/entry/mod.rs"],
 [("prev-log check and conflict handling","engine/handler/following_handler/mod.rs:append_entries"),("truncating a conflicting suffix","engine/handler/following_handler/mod.rs:truncate_logs"),("choosing what to send","progress/entry/mod.rs:next_send")],
 [("log ids","index of every log id present","engine/log_id_list.rs")],["log storage of every node"])

p("C03","Committed entries are never lost, replaced or truncated",
 "Once any node reports an entry as committed, every later leader has that entry, no node ever commits, stores as committed, or applies a different entry at that index, and no node truncates it from its log. An entry is committed only after it is persisted on a quorum of every voter set of the configuration in force and only through an entry of the committing leader's own term.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every history of leader changes, partial replication, lost or delayed acknowledgements, and crashes losing unsynced log writes, within 3 to 5 nodes",
 "the dangerous histories (Raft figure 8, acknowledgement before flush, stale acknowledgements reused by a later leader) need several leader changes with specific partial replication, which tests do not enumerate",
 ["engine/handler/replication_handler/mod.rs","engine/handler/leader_handler/mod.rs","engine/engine_impl.rs","progress/mod.rs","raft_state/mod.rs","core/raft_core.rs"],
 [("commit only own-leadership log ids granted by quorum","engine/handler/replication_handler/mod.rs:try_commit_quorum_accepted"),("local progress counts only after flush","engine/handler/replication_handler/mod.rs:update_local_progress"),("replies are sent only after IO is flushed","core/raft_core.rs:run_engine_commands")],
 [("committed","highest committed log id","raft_state/mod.rs")],["AppendEntries leader_commit, applied entries, client replies, log storage"])

p("C04","State machines apply the same committed sequence exactly once in order",
 "Every state machine applies entries in index order without gap and each index at most once between snapshot installations or restarts, and any two nodes that applied the same index applied the identical entry. A node never applies an entry that is not committed.",
 ["schedules","fault_sequences","crash_points","histories"],
 "all interleavings of commit advance, apply, snapshot build/install, leader change and restart",
 "tests compare end states of a few runs; gaps or repeats appear only when apply, snapshot install and leader change overlap in particular orders",
 ["core/sm/worker.rs","core/raft_core.rs","core/sm/handle.rs","engine/engine_impl.rs","engine/handler/following_handler/mod.rs","raft_state/io_state.rs"],
 [("submitting committed ranges","core/raft_core.rs:apply_to_state_machine"),("serial state machine worker","core/sm/worker.rs"),("commit bounded by locally accepted log","engine/handler/following_handler/mod.rs:commit_entries")],
 [("applied","last applied log id","raft_state/io_state.rs")],["RaftStateMachine::apply calls"])

p("C05","Acknowledged writes survive crashes and leader changes",
 "After a client write is acknowledged, the entry stays in the replicated history whatever minority of voters is lost for good, whichever nodes crash and restart at any instant, and even if every node crashes and restarts, provided each node's storage keeps what it reported as durable. A node never acknowledges log entries, a vote or a snapshot to another node before its own storage reported them durable.",
 ["crash_points","schedules","fault_sequences"],
 "every crash point between a storage call and its completion, on any subset of nodes, with unsynced appends lost, combined with any order of message deliveries",
 "tests stop nodes cleanly with storage that never loses data; a crash in the window between submitting and completing an IO is never exercised",
 ["core/raft_core.rs","engine/command.rs","raft_state/io_state.rs","raft_state/io_state/io_id.rs","storage/callback.rs","engine/handler/replication_handler/mod.rs","replication/mod.rs"],
 [("responses wait for the flushed IO id","engine/command.rs:condition"),("leader counts itself only when flushed","engine/handler/replication_handler/mod.rs:update_local_progress"),("IO completion ordering","raft_state/io_state.rs")],
 [("io progress","accepted/submitted/flushed IO ids","raft_state/io_state.rs")],["client write replies, RPC replies, storage contents after a crash"])

p("C06","Linearizability of client writes and linearizable reads",
 "All successful client writes and all reads performed after a successful linearizability check appear to take effect in one total order that respects real time: a read observes every write acknowledged before the read began, observes no state older than an earlier such read, and observes only committed writes. A deposed leader that cannot reach a quorum never confirms such a read.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of concurrent writes, reads, elections, partitions, heartbeat replies and apply progress on 3 to 5 nodes",
 "tests check a read after a write on a stable leader and one isolated leader; the stale-read windows are at leader change, before the first entry of a new leader commits, and under delayed quorum replies",
 ["core/raft_core.rs","raft/mod.rs","engine/handler/leader_handler/mod.rs","raft_state/mod.rs","raft/message/client_write.rs"],
 [("read log id = max(noop, committed)","engine/handler/leader_handler/mod.rs:get_read_log_id"),("quorum confirmation of leadership","core/raft_core.rs:handle_check_is_leader_request"),("waiting for apply","raft/mod.rs:ensure_linearizable")],
 None,["client_write replies","ensure_linearizable followed by a read of the state machine"])

p("C07","Votes are durable promises",
 "A node's stored and announced vote never moves backwards, also across crash and restart, and it never grants two different candidates the same term when they are incomparable. A node replies positively to a vote or log request only after the vote it relied on is durable, and after replying it never accepts entries, snapshots or commit information from a leader with a smaller vote.",
 ["crash_points","schedules","fault_sequences","histories"],
 "every crash point around vote persistence, and every order of vote, append and snapshot requests carrying smaller, equal and greater votes",
 "unit tests call single handlers on prepared states; the promise must survive arbitrary request orders and crashes",
 ["engine/handler/vote_handler/mod.rs","engine/engine_impl.rs","vote/vote.rs","raft_state/mod.rs","core/raft_core.rs","utime.rs"],
 [("monotonic vote update","engine/handler/vote_handler/mod.rs:update_vote"),("reply after persisted vote","engine/engine_impl.rs:handle_vote_req"),("rejecting smaller votes","engine/engine_impl.rs:handle_append_entries")],
 [("vote","promised vote","raft_state/mod.rs")],["save_vote calls, vote/append/snapshot replies"])

p("C08","Membership changes preserve safety and take effect consistently",
 "Cluster configurations change only through log entries; a change that could create two disjoint majorities is refused or performed through a joint configuration in which decisions need a majority of both voter sets; at most one change is in flight, learners and removed nodes never count. Every node's effective configuration is the latest one in its own log or snapshot and reverts when that log entry is truncated; its committed configuration is the latest committed one.",
 ["schedules","fault_sequences","histories","inputs"],
 "all sequences of add/remove voters, add/remove/replace learners, retained or dropped, interleaved with elections, partial replication, truncation of uncommitted configurations, snapshots and restarts, on 3 to 5 nodes",
 "tests run chosen changes to completion on a healthy cluster; disjoint quorums appear only when leader failure, truncation or restart hits a change midway",
 ["membership/membership.rs","membership/effective_membership.rs","raft_state/membership_state/mod.rs","raft_state/membership_state/change_handler.rs","core/raft_core.rs","engine/handler/following_handler/mod.rs","change_members.rs","quorum/joint_impl.rs"],
 [("computing the next safe config","membership/membership.rs:next_coherent"),("refusing concurrent changes","raft_state/membership_state/change_handler.rs"),("revert on truncate","raft_state/membership_state/mod.rs:truncate"),("joint quorum","quorum/joint_impl.rs")],
 [("committed/effective","membership configs of this node","raft_state/membership_state/mod.rs")],["membership entries in logs, membership reported to state machine, metrics and replies"])

p("C09","Snapshots equal the applied prefix and installing one never loses state",
 "A snapshot offered to a follower or used at restart describes exactly the state after applying the committed log up to its last log id, with the configuration in force there. Installing a snapshot never moves a node's applied state, committed position or configuration backwards, never discards log entries that extend beyond it and agree with it, and afterwards the node continues applying right after the snapshot without gap or repeat.",
 ["schedules","fault_sequences","crash_points","histories"],
 "all interleavings of snapshot building, log appends and commits, snapshot transfer (delayed, duplicated, stale, from deposed leaders), installation, purge, and restart",
 "tests install one snapshot into a follower in a known state; stale, duplicate or overlapping installs and the follower's conflicting suffix are not enumerated",
 ["engine/handler/following_handler/mod.rs","engine/handler/snapshot_handler/mod.rs","core/sm/worker.rs","replication/mod.rs","core/raft_core.rs","engine/engine_impl.rs"],
 [("accept only newer snapshots, truncate conflicting logs","engine/handler/following_handler/mod.rs:install_full_snapshot"),("update snapshot meta monotonic","engine/handler/snapshot_handler/mod.rs"),("build from state machine","core/sm/worker.rs")],
 [("snapshot_meta","last known snapshot","raft_state/mod.rs")],["snapshot contents, install_snapshot/apply calls"])

p("C10","Log purging never removes entries that are still needed",
 "A node purges only log entries that are covered by a snapshot it durably has, the remaining log always continues exactly from the purged position, and the number of snapshot-covered entries configured to be kept is kept unless a purge is requested explicitly. Purging never invalidates replication: a follower whose next entry was purged is brought up to date by snapshot.",
 ["schedules","histories","configurations","fault_sequences"],
 "all sequences of writes, snapshots, automatic and manual purges, snapshot installs, lagging followers and restarts, for each keep/batch configuration in a small range",
 "tests cover a few fixed purge configurations; the interaction of purge with in-flight replication, batch limits, restarts and installs is schedule dependent",
 ["engine/handler/log_handler/mod.rs","engine/handler/replication_handler/mod.rs","engine/log_id_list.rs","storage/helper.rs","replication/mod.rs","engine/engine_impl.rs"],
 [("calc purge upto from snapshot and config","engine/handler/log_handler/mod.rs:calc_purge_upto"),("defer purge while in use","engine/handler/replication_handler/mod.rs:try_purge_log"),("snapshot when log is gone","progress/entry/mod.rs:next_send")],
 [("purge_upto","next purge target","raft_state/mod.rs")],["RaftLogStorage::purge calls and log state"])

p("C11","Restart restores exactly the durable state",
 "After a crash or clean stop at any point, a restarted node resumes with a vote, log, configuration, committed position and state machine consistent with what its storage held, re-applying exactly the committed entries its state machine lacks. It comes back as a non-leader unless its stored vote shows it was leader, and then only continues under the very same leadership with its complete log; the restarted cluster continues where it stopped without reusing a log id for a different entry.",
 ["crash_points","histories","configurations"],
 "every crash point in histories of writes, elections, snapshots, purges, membership changes, for durable and volatile state machines, with and without persisted commit position",
 "tests restart at a few fixed points with fully synced storage",
 ["storage/helper.rs","engine/engine_impl.rs","engine/log_id_list.rs","core/raft_core.rs","raft_state/mod.rs","membership/effective_membership.rs"],
 [("loading initial state, re-apply, repair after snapshot","storage/helper.rs:get_initial_state"),("loading log ids","engine/log_id_list.rs:load_log_ids"),("startup as leader/follower","engine/engine_impl.rs:startup")],
 None,["storage calls and metrics right after start"])

p("C12","Every client request gets exactly one truthful answer",
 "Each submitted write or membership change gets at most one reply; a success reply carries the log id at which exactly that request was committed and the result the state machine returned for it, no request is written to the log twice, and one refused with a redirect is never applied. When a leader is deposed or its entry truncated, clients still waiting get an error instead of a wrong result or silence, and a redirect names a node that is or was leader.",
 ["schedules","fault_sequences","histories"],
 "all interleavings of several outstanding writes with leader changes, truncation of unacknowledged entries, restart and shutdown",
 "tests issue requests one at a time on a stable leader; response mix-ups need several outstanding requests across a leader change",
 ["core/raft_core.rs","core/sm/worker.rs","raft/impl_raft_blocking_write.rs","raft/mod.rs","raft/message/client_write.rs"],
 [("response channels keyed by log index","core/raft_core.rs:client_resp_channels"),("failing channels on truncation and leader loss","core/raft_core.rs"),("collecting results with entries","core/sm/worker.rs")],
 [("client_resp_channels","outstanding responders","core/raft_core.rs")],["client_write / change_membership replies vs applied sequence"])

p("C13","A healed cluster recovers and converges",
 "Once faults stop and messages flow, a cluster with a live quorum elects a leader within a bounded number of election timeouts, serves writes again, and brings every reachable voter and learner to the same log, applied state and configuration once a further write commits, whatever happened before. No sequence of messages, faults and client operations makes a node panic, stop or hang.",
 ["schedules","fault_sequences","crash_points","histories"],
 "every explored history (partitions, crashes, lost/duplicated messages, membership changes, snapshots) followed by healing and a bounded amount of time",
 "tests check progress after hand-picked failures; stuck replication or election states depend on what was in flight when the fault occurred",
 ["core/raft_core.rs","replication/mod.rs","engine/engine_impl.rs","progress/entry/mod.rs","progress/inflight/mod.rs","core/tick.rs","engine/handler/leader_handler/mod.rs","engine/handler/replication_handler/mod.rs","core/heartbeat/worker.rs"],
 [("election timer","core/raft_core.rs:handle_tick_election"),("inflight tracking and retry","progress/entry/mod.rs"),("replication backoff/retry loop","replication/mod.rs"),("log reversion handling","progress/entry/mod.rs:update_conflicting")],
 None,["metrics, logs and state machines of all nodes after healing"])

p("C14","The storage API is driven within its contract",
 "On every node, appended entries always continue the log without gap or overlap, truncation never touches committed or purged entries and purge never exceeds what was applied or snapshotted, the stored vote and commit position never decrease, and no call reads entries outside the stored range. State machine calls are serialised, apply receives exactly consecutive committed entries, and installed snapshots are never older than what was applied.",
 ["schedules","fault_sequences","histories","crash_points"],
 "every storage-call history produced by the explored clusters, with slow and reordered IO completion",
 "existing stores tolerate out-of-contract calls silently, so tests would not notice them; calls depend on schedule",
 ["core/raft_core.rs","core/sm/worker.rs","storage/v2/raft_log_storage.rs","storage/v2/raft_state_machine.rs","engine/handler/following_handler/mod.rs","replication/mod.rs"],
 [("ordering commands","core/raft_core.rs:run_engine_commands"),("command conditions","engine/command.rs")],
 None,["every RaftLogStorage / RaftStateMachine call"])

p("C15","Leader leases suppress disruption and leader transfer is safe",
 "While a follower has heard from a valid leader within the leader lease, it refuses the vote requests of candidates; only once the lease has expired, or was released by that leader's transfer of leadership, may it grant a vote. Transferring leadership hands over only to a node that holds the leader's log, never yields two leaders under one vote, and the cluster keeps or regains a leader able to serve, whatever node the transfer named.",
 ["schedules","fault_sequences","histories"],
 "all orders of heartbeats, elections, transfers and clock advances around the lease boundary",
 "tests wait real seconds for one or two timings; boundary timings and lost transfer messages are not enumerated",
 ["engine/engine_impl.rs","utime.rs","core/raft_core.rs","raft/mod.rs","engine/handler/leader_handler/mod.rs","engine/handler/vote_handler/mod.rs"],
 [("lease check on vote request","engine/engine_impl.rs:handle_vote_req"),("Leased vote","utime.rs"),("transfer","engine/handler/leader_handler/mod.rs:transfer_leader")],
 [("vote lease","last time the vote was refreshed","utime.rs")],["vote replies with virtual clock"])

p("C16","Reported quorum contact time never overstates leadership",
 "The time of last contact with a quorum that a leader reports is never later than an instant at which a quorum of its configuration had in fact accepted messages sent under its own vote. In particular rejections, replies to a higher vote, learners' replies, and replies addressed to an earlier leadership never extend it.",
 ["schedules","fault_sequences","histories"],
 "all orders of heartbeat and replication replies (accepting, rejecting, delayed, lost) against virtual time and leader changes",
 "tests only check that the metric advances on a healthy cluster",
 ["core/heartbeat/worker.rs","engine/handler/replication_handler/mod.rs","engine/engine_impl.rs","core/raft_core.rs","replication/mod.rs","proposer/leader.rs"],
 [("clock progress by quorum","proposer/leader.rs:last_quorum_acked_time"),("heartbeat replies","core/heartbeat/worker.rs"),("replication replies","replication/mod.rs")],
 [("clock_progress","last send time acked per target","proposer/leader.rs")],["metrics.millis_since_quorum_ack/last_quorum_acked vs accepted messages on the wire"])

p("C17","Metrics and waits report only what happened",
 "Published metrics of a node describe one state it really was in: applied never exceeds committed log, snapshot and purged positions exist in storage, the reported vote is one the node stored, and leader and state match it, replication progress never exceeds what the target durably accepted, and applied, purged and snapshot positions and term never go backwards within one run. A wait returns success only with metrics satisfying its condition and returns as soon as such metrics are published, otherwise it times out or reports shutdown.",
 ["schedules","histories","inputs"],
 "every published metrics value in every explored history, and every sequence of metrics values up to a bound for waits",
 "tests poll metrics at a few points and mostly use them as an oracle instead of checking them",
 ["core/raft_core.rs","metrics/raft_metrics.rs","metrics/wait.rs","metrics/wait_condition.rs","metrics/metric.rs","core/server_state.rs"],
 [("publishing metrics","core/raft_core.rs:report_metrics"),("wait loop","metrics/wait.rs:metrics")],
 None,["metrics, data_metrics, server_metrics watch channels; Raft::wait"])

p("C18","Chunked snapshot transfer delivers exactly the sent snapshot or nothing",
 "A snapshot transferred in chunks is installed only if the received bytes are exactly the bytes of the snapshot that was sent under that id, for every chunk size and every loss, delay, duplication of chunks, receiver restart or concurrent transfer. A transfer terminates once messages get through, is cancelled when replication stops, and is rejected when the receiver has seen a greater vote.",
 ["fault_sequences","inputs","schedules"],
 "all chunk sizes from 1 byte to beyond the snapshot size, snapshot sizes including empty, and all assignments of delivery faults to the chunk requests and replies up to a bound",
 "tests use one chunk-size and at most one mismatch; stale or duplicated chunks are not exercised",
 ["network/snapshot_transport.rs","raft/mod.rs","network/v2/adapt_v1.rs","network/v1/network.rs","raft/message/install_snapshot.rs"],
 [("chunk sending with retry/reset","network/snapshot_transport.rs:send_snapshot"),("offset and id checks on receive","network/snapshot_transport.rs:receive_snapshot")],
 None,["bytes passed to install_snapshot vs bytes read from the sender"])

p("C19","Payload limits and size hints are honoured without losing progress",
 "A replication request never carries more entries than configured or than the hint the network returned while that hint is in force, log readers may return fewer entries than asked, and none of this ever makes an entry skipped, sent out of order, or replication stall. A zero or repeated hint, or storage returning short reads, never breaks replication.",
 ["inputs","configurations","fault_sequences"],
 "every max payload setting in a small range, every sequence of too-large answers and hints up to a bound, and every short-read pattern",
 "tests use one or two limits and one hint",
 ["replication/mod.rs","replication/hint.rs","progress/entry/mod.rs","network/rpc_type.rs","error.rs","config/config.rs"],
 [("hinted entry limit with ttl","replication/hint.rs"),("send_log_entries","replication/mod.rs:send_log_entries"),("max_payload_entries","progress/entry/mod.rs")],
 None,["AppendEntries requests on the wire"])

p("C20","Storage failure or shutdown stops a node cleanly and truthfully",
 "If a storage operation fails, the node stops as a fatal error, never acknowledges the failed write, vote or snapshot to clients or peers, and every later or pending API call returns that fatal error instead of hanging. Shutdown terminates all of the node's tasks, makes pending and later calls fail, is idempotent, and leaves the rest of the cluster able to continue.",
 ["fault_sequences","schedules","crash_points"],
 "a failure injected at every storage call of every explored history, and shutdown at every point of it with calls outstanding",
 "tests inject very few errors, and shut down idle nodes",
 ["core/raft_core.rs","raft/raft_inner.rs","raft/mod.rs","core/sm/worker.rs","core/tick.rs","storage/callback.rs","replication/mod.rs","raft/core_state.rs"],
 [("fatal propagation","core/raft_core.rs:main"),("core stop error for API calls","raft/raft_inner.rs:get_core_stopped_error"),("storage error notification","storage/callback.rs")],
 None,["API results after an injected storage error or shutdown; live tasks"])

p("C21","Quorum and configuration arithmetic is exact",
 "For every configuration, a set of nodes is a quorum exactly when it contains a majority of each voter set; any two quorums of one configuration and of two configurations a change steps between directly intersect. The value a quorum is reported to have reached is exactly the greatest value reached by such a set, after any sequence of progress updates and configuration changes.",
 ["inputs","configurations"],
 "all configurations over up to 5 nodes with up to 2 voter sets plus learners, all changes from them, all assignments of progress values from a small domain and all update orders up to a bound",
 "unit tests check hand-picked examples",
 ["quorum/quorum_set_impl.rs","quorum/joint_impl.rs","quorum/coherent_impl.rs","membership/membership.rs","progress/mod.rs","membership/into_nodes.rs","change_members.rs"],
 [("majority","quorum/quorum_set_impl.rs"),("joint quorum","quorum/joint_impl.rs"),("quorum-accepted computation","progress/mod.rs:VecProgress")],
 None,["public membership API; commit decisions on the wire"],
 )

p("C22","Initialization happens once and only on a pristine node",
 "A cluster can be initialized only on a node with empty log and no vote, with a configuration naming that node as voter, and any other attempt is refused without changing state. Racing initializations with the same members on different nodes, with elections and joins interleaved, never produce diverging committed histories.",
 ["schedules","inputs","histories","crash_points"],
 "all interleavings of initialize calls on several nodes with elections, message loss and restarts, and all member sets over a small universe",
 "tests call initialize in fixed orders",
 ["engine/engine_impl.rs","core/raft_core.rs","raft/mod.rs","error.rs"],
 [("checks before initialize","engine/engine_impl.rs:initialize")],None,["initialize results, first log entries"])

p("C23","Bundled log stores and state machines honour the storage contract",
 "The stores shipped with the project return from reads exactly what was appended and not truncated or purged, keep vote, commit position, purge position and snapshots as last written, and where they claim persistence recover all of it after being dropped and reopened, and after being cut off at any point everything they had reported done, in a state consistent with some prefix of the operations. Building, installing and restarting reproduce the same applied state, and a snapshot finished late never replaces a newer one.",
 ["histories","inputs","crash_points"],
 "all operation sequences up to a bounded depth over small argument domains, with reopen at any point, and every point at which the process is killed, or the power fails with unsynced writes lost, against a reference model",
 "the conformance suite runs a fixed list of short scenarios per store",
 ["/stores/memstore/src/lib.rs","/stores/rocksstore/src/lib.rs","/stores/sledstore/src/lib.rs","/examples/memstore/src/log_store.rs"],
 [("memstore","/stores/memstore/src/lib.rs"),("rocksstore","/stores/rocksstore/src/lib.rs"),("sledstore","/stores/sledstore/src/lib.rs"),("log store of the examples","/examples/memstore/src/log_store.rs")],None,["RaftLogStorage / RaftStateMachine API of each store"])

p("C24","Timers, elections and automatic snapshots follow switches and configuration",
 "On its own a node starts an election only if it is a voter, elections and ticks are switched on, and it has heard no leader and granted no vote for the lease and election timeout (longer after seeing a greater log); a voter that hears nothing does start one within a bounded time. A leader with heartbeats on leaves no member waiting beyond a few intervals, so a connected cluster keeps its leader through any single lost or late message; with the switches off nothing is sent. Snapshots are built when asked for or when the policy is met, never otherwise, and then always. Contradictory configurations are refused, everything else means what it says.",
 ["schedules","inputs","histories"],
 "all sequences of switches, partitions, restarts and pauses up to a bounded depth over all assignments of election timeouts; every single message delay or loss on clusters running on their own timers; all small configurations and command lines",
 "tests sleep for fixed times in a few arrangements and parse a handful of values",
 ["core/raft_core.rs","core/tick.rs","core/heartbeat/worker.rs","core/heartbeat/handle.rs","config/config.rs","engine/time_state.rs","engine/engine_config.rs","raft/runtime_config_handle.rs","engine/handler/following_handler/mod.rs","engine/handler/replication_handler/mod.rs","engine/handler/snapshot_handler/mod.rs","utime.rs"],
 [("election timer","core/raft_core.rs:handle_tick_election"),("tick loop","core/tick.rs"),("heartbeats","core/heartbeat/worker.rs"),("snapshot policy","config/config.rs:SnapshotPolicy::should_snapshot"),("validation","config/config.rs:Config::validate")],None,
 ["votes stored and messages sent over time; calls of the snapshot builder; Config::build and validate"])

with open("/verif/properties.jsonl","w") as f:
    for d in P:
        assert len(d["title"])<=80,(d["id"],len(d["title"]))
        f.write(json.dumps(d)+"\n")
import jsonschema
sch=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for d in P: jsonschema.validate(d,sch)
print(len(P))
