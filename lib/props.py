"""Source of properties.jsonl and MANIFEST.json: run `python3 lib/props.py` after a change."""
import json, os, sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import plan

SP = "omnipaxos/src/sequence_paxos/"
IS = "omnipaxos/src/storage/internal_storage.rs"
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "state": [{"name": n, "meaning": m} for n, m in state],
                    "observe_at": observe, "hook_needed": None},
    })


prop("C01", "Agreement: no two servers ever decide different logs",
     "For any two servers of a configuration and any index below both their decided indexes, the entry (or stopsign) decided at that index is the same. This holds whatever messages are lost or delayed, whoever takes over as leader and whenever servers crash and restart.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "all interleavings of proposals, message deliveries and losses, leader changes, reconnects and crash/restarts of the servers of a configuration",
     "The tests run a handful of timing-dependent schedules on a healthy or once-interrupted cluster and compare the final logs; the interleavings of two competing leaders with lost synchronisation messages are never reached.",
     [SP + "leader.rs", SP + "follower.rs", SP + "mod.rs", IS, "omnipaxos/src/util.rs"],
     [("prepare phase picks the most up-to-date log of a quorum", SP + "leader.rs:handle_promise_prepare, handle_majority_promises"),
      ("followers adopt the leader's log before accepting", SP + "follower.rs:handle_acceptsync"),
      ("accept sequence numbers detect gaps", "omnipaxos/src/util.rs:SequenceNumber")],
     ["read_decided_suffix and get_decided_idx on every server after every call"],
     [("decided log", "prefix of the log below the decided index, per server")])

prop("C02", "Decided entries are permanent and the decided index never goes back",
     "On one server the decided index never decreases, not even across a crash and restart from the same storage. Once an index has been reported decided with some entry, every later read of it on that server returns the same entry or a compaction that covers it.",
     ["schedules", "crash_points", "histories"],
     "all histories of one server's calls, messages and restarts, including synchronisation with a leader that knows less",
     "Tests read the decided log once at the end; they do not compare it with what was reported earlier, and never sync a server with a leader whose decided index is behind.",
     [IS, SP + "follower.rs", SP + "leader.rs"],
     [("decided index update", IS + ":set_decided_idx, sync_log"), ("decide handling", SP + "follower.rs:update_decided_idx_and_get_accepted_idx")],
     ["get_decided_idx, read_decided_suffix before and after every call and restart"])

prop("C03", "Validity: only proposed entries are decided, each at most once per proposal",
     "Every decided entry was proposed by a client of some server, and no entry is decided more often than it was proposed. Resent, forwarded, batched or re-synchronised messages neither invent, corrupt nor duplicate entries.",
     ["schedules", "fault_sequences", "inputs"],
     "all payloads and all schedules of proposals, resends, forwards, batches and leader changes",
     "Tests use distinct small payloads on nearly loss-free runs and mostly count entries; a duplicate caused by a resend after a lost reply is not exercised.",
     [SP + "leader.rs", SP + "follower.rs", SP + "mod.rs", "omnipaxos/src/storage/state_cache.rs"],
     [("proposal buffering and forwarding", SP + "mod.rs:propose_entry, forward_proposals"), ("merging entries into an unsent message", SP + "leader.rs:send_acceptdecide"), ("batching", "omnipaxos/src/storage/state_cache.rs")],
     ["decided entries of all servers against the multiset of proposals"])

prop("C04", "An entry is decided only when a write quorum has stored it",
     "When any server reports an entry as decided, at least a write quorum of servers (a majority unless configured otherwise) holds that entry at that index in its storage. A server acknowledges entries to a leader only after they are in its storage, and a leader announces nothing as decided that is not.",
     ["schedules", "configurations", "crash_points"],
     "all schedules, quorum configurations and batching settings; the storage contents at the moment of the first decision",
     "Tests cannot look at the storage of every server at the instant of a decision; premature decisions are invisible unless a crash follows in that window.",
     [SP + "leader.rs", SP + "follower.rs", "omnipaxos/src/util.rs"],
     [("counting acknowledgements", "omnipaxos/src/util.rs:is_chosen, Quorum"), ("acknowledging", SP + "follower.rs:handle_acceptdecide, reply_accepted, flush_batch_follower"), ("deciding", SP + "leader.rs:handle_accepted")],
     ["storage contents of all servers when get_decided_idx first grows; outgoing acknowledgements and decide announcements"])

prop("C05", "Promises only grow, and are stored before they are used",
     "The ballot a server has promised never decreases, including across restarts, and a server never acknowledges entries of a ballot other than the one it has promised. A promise is in the server's storage before the message that makes it leaves the server, and a server only ever leads with ballots carrying its own id.",
     ["schedules", "crash_points", "inputs"],
     "all ballots, message orders and crash points",
     "Regressions of a promise need two competing leaders and a message from the older one at the right moment, or a crash between reply and write; tests do neither.",
     [SP + "follower.rs", SP + "leader.rs", IS, "omnipaxos/src/ballot_leader_election.rs"],
     [("prepare", SP + "follower.rs:handle_prepare"), ("ballot check", SP + "follower.rs:check_valid_ballot"), ("taking over", SP + "leader.rs:handle_leader"), ("recovery", SP + "mod.rs:with")],
     ["get_promise after every call, the stored promise, outgoing messages"])

prop("C06", "A new leader starts from every entry that may have been decided",
     "When a server completes taking over leadership while no other server has promised a higher ballot, its log contains every entry that had been decided (or accepted by a write quorum) before, at the same index. This holds for every storage state earlier rounds can have left behind and for every quorum that answers.",
     ["histories", "schedules", "configurations"],
     "all storage states reachable by two earlier rounds, all answering quorums, majority and flexible quorums",
     "Needs servers whose accepted round, log length and decided index disagree in specific ways; tests produce clean failovers only.",
     [SP + "leader.rs", SP + "follower.rs", SP + "mod.rs", "omnipaxos/src/util.rs", IS],
     [("choosing the most up-to-date promise", "omnipaxos/src/util.rs:set_promise, PromiseMetaData"), ("adopting its log", SP + "leader.rs:handle_majority_promises"), ("what a promiser sends", SP + "follower.rs:handle_prepare, " + SP + "mod.rs:create_log_sync")],
     ["storage of the server at the moment get_current_leader first reports it in the accept phase"])

prop("C07", "A crash at any point loses nothing that was promised, accepted or decided",
     "If a server crashes before or after any of its storage writes and is rebuilt from its storage, it resumes with the promise, accepted entries and decided index it had made known to others. The cluster then still agrees with everything decided before and can continue once the server is reachable again.",
     ["crash_points", "schedules", "histories"],
     "every storage write of every server as a crash point, under varying schedules and leaders",
     "Tests kill a server between operations; a crash between two writes of one operation cannot be placed there.",
     [SP + "mod.rs", IS, SP + "follower.rs", SP + "leader.rs"],
     [("recovery state and PrepareReq", SP + "mod.rs:with"), ("loading the cache", IS + ":load_cache"), ("atomic sync", IS + ":sync_log")],
     ["storage snapshot taken just before the chosen write; public reads after restart"])

prop("C08", "Lost messages never leave a gap or a reordering in a follower's log",
     "While a server follows a leader in a round, its log is a prefix of that leader's log, whichever messages between them were lost, resent or left over from before a reconnect. In particular messages sent before a re-synchronisation never change the log after it.",
     ["schedules", "fault_sequences"],
     "all schedules of proposals, fetches, deliveries, losses, ticks and reconnects on the links of a leader and a follower",
     "Tests drop whole phases of traffic (partition), not individual messages, and cannot enumerate which message of a session is lost relative to a resend.",
     [SP + "leader.rs", SP + "follower.rs", "omnipaxos/src/util.rs"],
     [("session and counter", "omnipaxos/src/util.rs:SequenceNumber::check_msg_status"), ("re-prepare on a gap", SP + "follower.rs:handle_sequence_num"), ("re-sync", SP + "leader.rs:handle_preparereq, send_accsync")],
     ["stored logs of leader and follower after every step"])

prop("C09", "Batching does not change what is decided",
     "With any batch size, entries are decided in the order the leader took them in, none is lost, duplicated or acknowledged before it is stored, and everything proposed at a stable leader is decided after the flush timeout has passed on the servers. Leader changes, reconnects and reconfigurations while entries are batched do not break this.",
     ["schedules", "configurations", "inputs"],
     "batch sizes 2 and 3, all schedules of proposals, flushes, losses and reconnects within the bounds",
     "The batching test runs one loss-free scenario; a flush between a lost message and a re-sync is not reached.",
     ["omnipaxos/src/storage/state_cache.rs", IS, SP + "leader.rs", SP + "follower.rs"],
     [("batch append and flush", IS + ":append_entries_with_batching, flush_batch"), ("flush timeout", SP + "mod.rs:flush_batch_timeout")],
     ["decided logs, stored logs, acknowledgements"])

prop("C10", "A decided reconfiguration seals the log",
     "Nothing is ever decided after a stopsign, all servers decide the same stopsign with the proposed configuration and metadata at the same index, and a server reports the configuration as stopped exactly when its decided log ends in the stopsign. While a server holds an accepted stopsign it refuses further proposals and hands them back, and the stopsign is eventually decided once the network recovers.",
     ["schedules", "fault_sequences", "histories"],
     "all schedules with a reconfiguration in flight, over leader changes and losses",
     "The reconfiguration test proposes one stopsign on a healthy cluster; overwritten and re-synchronised stopsigns are not covered.",
     [SP + "mod.rs", SP + "leader.rs", SP + "follower.rs", IS],
     [("accepting a stopsign", SP + "leader.rs:accept_stopsign_leader, " + SP + "follower.rs:handle_accept_stopsign"), ("refusing proposals", SP + "mod.rs:append, reconfigure"), ("resend", SP + "leader.rs:resend_messages_leader")],
     ["is_reconfigured, append and reconfigure results, decided logs"])

prop("C11", "Compaction removes only decided entries, and trims only what everybody has",
     "A snapshot or trim beyond the decided index is refused and changes nothing; an accepted one compacts exactly up to the index asked for, never into an undecided suffix or a stopsign. Log trimming (without snapshots) removes an entry anywhere only once every server has it stored, and is possible from then on, so a compacted server can always bring every other server up to date.",
     ["schedules", "inputs", "histories"],
     "all compaction requests (server, index, local or cluster-wide) in all replication states, followed by leader changes",
     "Tests trim and snapshot on fully synchronised clusters; a compaction while a server lags followed by a leader change is not covered.",
     [SP + "mod.rs", IS, "omnipaxos/src/util.rs"],
     [("trim precondition", SP + "mod.rs:trim, omnipaxos/src/util.rs:get_min_all_accepted_idx"), ("bounds", IS + ":try_trim, try_snapshot"), ("syncing past compaction", SP + "mod.rs:create_log_sync")],
     ["results of snapshot and trim, get_compacted_idx, storage of all servers"])

prop("C12", "A snapshot equals the decided entries it replaces, also when sent to others",
     "Whenever a read returns a snapshot for the first k entries, that snapshot is exactly the one obtained by folding the first k decided entries in order, none missing, repeated or reordered. This includes snapshots produced by repeated compaction and those installed by synchronising with another server.",
     ["schedules", "histories", "inputs"],
     "all payloads, compaction points, and synchronisations between servers with different decided indexes",
     "Tests use an idempotent or last-value snapshot on which a repeated or missing entry goes unnoticed.",
     [IS, SP + "mod.rs"],
     [("building", IS + ":create_snapshot, create_diff_snapshot"), ("installing", IS + ":sync_log"), ("choosing full or delta", SP + "mod.rs:create_log_sync")],
     ["read_decided_suffix returning a snapshotted entry, compared with the decided log"])

prop("C13", "Reads return exactly what the log holds, for every index and range",
     "Reading an index or a range returns the entries stored there in order, each marked decided exactly when it lies below the decided index, with the compacted prefix reported as one snapshot or trimmed entry and a stopsign as the last entry. A read that lies beyond the end of the log returns nothing, the decided suffix stops at the decided index, and no index or range makes a read panic.",
     ["inputs", "histories"],
     "all 64-bit indexes and all kinds of range bounds, on all small logs with and without compacted prefix, stopsign and undecided tail",
     "Tests read a few in-range indexes; bounds at the compaction point, the stopsign, the end of the log and the largest index are not combined.",
     ["omnipaxos/src/omni_paxos.rs", IS],
     [("bounds and entry types", IS + ":read, get_entry_type"), ("decided suffix", IS + ":read_decided_suffix"), ("public reads", "omnipaxos/src/omni_paxos.rs:read, read_entries, read_decided_suffix")],
     ["results of read, read_entries and read_decided_suffix"])

prop("C14", "Exactly the valid configurations are accepted, and quorums are as configured",
     "A configuration is accepted exactly when it has at least two distinct nonzero node ids, a nonzero configuration id, nonzero sizes and timeouts where required, includes the server itself, and its flexible quorums (if any) are in range and overlap; an accepted one builds a node that never panics on start. The same rule guards the next configuration of a reconfiguration, and a leader waits for exactly the configured number of promises and acknowledgements (a majority by default).",
     ["inputs", "configurations"],
     "all field values of a configuration, all cluster sizes and quorum sizes within the bounds",
     "Tests try a few invalid values; duplicates, zero ids and sums that overflow are not among them, and quorum sizes are tested for one cluster size.",
     ["omnipaxos/src/omni_paxos.rs", "omnipaxos/src/util.rs", SP + "mod.rs"],
     [("validation", "omnipaxos/src/omni_paxos.rs:ClusterConfig::validate, ServerConfig::validate, OmniPaxosConfig::validate"), ("quorums", "omnipaxos/src/util.rs:Quorum"), ("next configuration", "omnipaxos/src/omni_paxos.rs:reconfigure")],
     ["results of validate, build and reconfigure; number of answers before a leader is ready or decides"])

BL = "omnipaxos/src/ballot_leader_election.rs"
prop("C15", "Ballots are totally ordered, unique to their leader and never reused",
     "Ballots of a configuration are totally ordered, first by number, then by priority, then by server id, and two ballots compare equal only if they are the same. A server leads only with ballots carrying its own id, each higher than the ones it used before, and never again with a ballot it used before a crash.",
     ["inputs", "crash_points", "schedules"],
     "all ballot field values; all takeovers, restarts and priorities within the bounds",
     "Tests elect leaders with default priorities and small numbers; ties, extreme values and a restart of a leader right after its promise was stored are not covered.",
     [BL, SP + "leader.rs", "omnipaxos/src/omni_paxos.rs"],
     [("order", BL + ":Ord for Ballot"), ("taking over", BL + ":check_takeover, omnipaxos/src/omni_paxos.rs:try_become_leader"), ("recovery", BL + ":with")],
     ["comparison of ballots; ballots in outgoing messages"])

prop("C16", "A server that can reach a majority is elected, and a working leader is kept",
     "Whatever happened before, once connectivity is such that some server can exchange messages with a majority (even if links between others are down), a bounded number of heartbeat rounds later a server that reaches a majority leads and gets proposals decided, and leadership then does not change. A leader that still reaches a majority is not replaced because some other servers lost contact with it (with flexible quorums: a read quorum to become leader, a write quorum to stay).",
     ["fault_sequences", "schedules", "configurations"],
     "all symmetric connectivities of the cluster, after phases of other connectivities with restarts, manual takeovers and priority changes",
     "The tests cover full connectivity and a crashed leader; the number of partial connectivities and their sequences is far beyond a few examples.",
     [BL, "omnipaxos/src/omni_paxos.rs", SP + "leader.rs"],
     [("heartbeat round", BL + ":hb_timeout, update_leader, update_happiness, check_takeover"), ("starting Paxos with the elected ballot", "omnipaxos/src/omni_paxos.rs:election_timeout")],
     ["get_current_leader, get_promise and decided logs after the heartbeat rounds"])

prop("C17", "After the network recovers, replication catches up and makes progress",
     "Once messages are delivered again, broken connections have been reported as re-established and some server leads, a proposal at the leader is decided on every server within a bounded number of message exchanges and ticks, and all servers have the same decided log. No sequence of earlier losses, restarts or leader changes leaves a server permanently behind.",
     ["schedules", "fault_sequences", "crash_points"],
     "all fault histories within the bounds, each followed by recovery",
     "Tests wait with timeouts for one recovery scenario; a fault history after which a server stays stuck forever shows only for the right lost message.",
     [SP + "leader.rs", SP + "follower.rs", SP + "mod.rs"],
     [("resending", SP + "leader.rs:resend_messages_leader, " + SP + "follower.rs:resend_messages_follower"), ("reconnect", SP + "mod.rs:reconnected"), ("re-prepare", SP + "leader.rs:handle_preparereq")],
     ["decided index of every server after recovery"])

MS = "omnipaxos_storage/src/memory_storage.rs"
PS = "omnipaxos_storage/src/persistent_storage.rs"
ST = "omnipaxos/src/storage/mod.rs"
prop("C18", "The in-memory storage returns exactly what was written last",
     "After any sequence of legal writes, direct or in transactions, every getter of MemoryStorage returns what the last write to it left, and reads by index return the entries appended or overwritten at those indexes. An interval that is not completely stored, because it was removed or never written, reads as empty, and removing what is already removed changes nothing.",
     ["inputs", "histories"],
     "all sequences of storage writes within the bounds, all values written, all 64-bit read indexes",
     "The storage is only exercised indirectly by the tests, at indexes the protocol happens to use; transactions that combine removal, overwriting and appending at each offset are not sampled.",
     [MS, ST],
     [("log with a removed prefix", MS + ":append_on_prefix, get_entries, get_suffix, trim"), ("transactions", MS + ":write_atomically")],
     ["the Storage trait"])

prop("C19", "The persistent storage survives restarts, crashes and failed writes intact",
     "After any sequence of legal writes, and after closing and reopening, PersistentStorage returns exactly what was written last, like the in-memory storage does. A write or transaction that fails or is interrupted by a crash takes effect completely or not at all, and later writes are unaffected by it.",
     ["inputs", "histories", "crash_points", "fault_sequences"],
     "all sequences of storage writes and reopenings within the bounds, a failure or crash at every database write, all values written, all 64-bit read indexes",
     "Tests reopen the database after a completed run; they do not fail or interrupt a write, nor reopen after each kind of overwriting and removal.",
     [PS, ST],
     [("recovering the end of the log on opening", PS + ":open"), ("transactions", PS + ":write_atomically, batch_*"), ("overwriting and removal of key ranges", PS + ":batch_append_on_prefix, trim")],
     ["the Storage trait before and after reopening"])

UC = "omnipaxos/src/unicache/"
prop("C20", "UniCache: every follower decodes exactly the entries the leader proposed",
     "With the unicache feature, an entry that reaches a follower encoded is decoded to the entry its leader appended, field by field, whatever the cache sizes, eviction policies and earlier entries. This holds for followers synchronised at any time, after leader changes, losses, restarts and with batching, and when caches and messages are serialised on the way.",
     ["inputs", "schedules", "histories", "fault_sequences"],
     "all sequences of cached values, synchronisations and leader changes within the bounds, for LRU and LFU caches of sizes 1 to 3 and 255",
     "Tests run with UniCache disabled; where caches are tested, the cache neither fills up nor changes hands between leaders.",
     [UC + "lru_cache.rs", UC + "lfu_cache.rs", UC + "lfu/mod.rs", "omnipaxos/src/storage/state_cache.rs", IS, "omnipaxos_macros/src/lib.rs"],
     [("encoding and decoding", UC + "lru_cache.rs:try_encode, decode; " + UC + "lfu_cache.rs"), ("handing the cache to followers", SP + "leader.rs:send_accsync, " + SP + "follower.rs:handle_acceptsync"), ("encoding batches", "omnipaxos/src/storage/state_cache.rs:encode_entries"), ("derived entry types", "omnipaxos_macros/src/lib.rs:unicache_entry_derive")],
     ["decided logs of all servers; results of decode"])

prop("C21", "Proposals at any server reach the leader and are decided once",
     "A proposal (an entry or a reconfiguration) accepted by any server, whether it leads, follows or knows no leader yet, is kept or forwarded until a leader has it. If no messages are lost and the leader it reaches is not replaced meanwhile, every entry (unless a reconfiguration gets to the leader first) is decided exactly once on all servers and a proposed reconfiguration is decided.",
     ["schedules", "inputs"],
     "all orders of proposals at any server, takeovers and partial deliveries within the bounds",
     "Tests propose at one server of a settled cluster; proposals made before a leader is known or while one takes over are not covered.",
     [SP + "mod.rs", SP + "leader.rs", SP + "follower.rs"],
     [("buffering and forwarding", SP + "mod.rs:propose_entry, forward_proposals, forward_stopsign"), ("handing over to a leader", SP + "follower.rs:forward_buffered_proposals, " + SP + "leader.rs:handle_majority_promises, handle_forwarded_proposal, handle_forwarded_stopsign")],
     ["decided logs of all servers after traffic has settled"])

prop("C22", "Outgoing messages are addressed correctly and handed over exactly once",
     "Every message a server hands out carries its own id as sender and another member of the configuration as receiver, and replies go to the server they answer. Fetching outgoing messages returns each message once, keeps what the caller's buffer already holds, and preserves the order per receiver.",
     ["schedules", "inputs"],
     "all schedules within the bounds and all states of the caller's buffer",
     "Tests route messages by receiver and would silently drop a misaddressed one.",
     [SP + "mod.rs", "omnipaxos/src/omni_paxos.rs", SP + "follower.rs"],
     [("handing over", SP + "mod.rs:take_outgoing_msgs, omnipaxos/src/omni_paxos.rs:take_outgoing_messages")],
     ["messages returned by take_outgoing_messages"])

prop("C23", "Lost messages are repaired by resending, without any reconnect notice",
     "If messages are lost while nobody is told about it, then once messages are delivered again the resend timers and the next proposals at the leader are enough to bring every server up to date. No lost prepare, promise, synchronisation, entry, acknowledgement, stopsign or decide message leaves a server or the round stuck.",
     ["schedules", "fault_sequences"],
     "all schedules within the bounds, with any of the messages lost",
     "Tests lose messages only together with a reported disconnection, after which everything is re-synchronised anyway.",
     [SP + "leader.rs", SP + "follower.rs", SP + "mod.rs"],
     [("resend timer", SP + "mod.rs:resend_message_timeout"), ("gap detection", SP + "follower.rs:handle_sequence_num")],
     ["decided index of every server after ticks and two proposals"])

prop("C24", "Messages survive serialisation unchanged",
     "With the serde feature, every message of every kind can be serialised and deserialised, whatever its field values, and the receiver gets exactly the ballots, indexes, sequence numbers, entries, snapshots and stopsigns that were sent. A cluster whose messages travel serialised behaves as one whose messages are handed over directly.",
     ["inputs", "schedules"],
     "all field values of all message kinds within the length bounds",
     "Tests pass messages as objects within one process; no message is ever serialised.",
     ["omnipaxos/src/messages.rs", "omnipaxos/src/util.rs", ST, "omnipaxos/src/ballot_leader_election.rs"],
     [("message types", "omnipaxos/src/messages.rs"), ("contents", "omnipaxos/src/util.rs:LogSync, SequenceNumber; omnipaxos/src/omni_paxos.rs:ClusterConfig")],
     ["a message after bincode serialisation and deserialisation"])

prop("C25", "Timers act exactly at every configured number of ticks",
     "For arbitrary timeouts, heartbeats are requested at every multiple of the election timeout, unanswered prepares are resent at every multiple of the resend timeout and batched entries are sent or acknowledged at every multiple of the flush timeout, counted in calls to tick, and none of it happens at other ticks. The three timers do not influence one another.",
     ["inputs", "configurations"],
     "all 64-bit nonzero timeouts, for a leader in either phase and a follower",
     "Tests use one fixed setting of the timeouts and wait long enough for anything to happen.",
     ["omnipaxos/src/omni_paxos.rs", "omnipaxos/src/util.rs"],
     [("timers", "omnipaxos/src/omni_paxos.rs:tick, omnipaxos/src/util.rs:LogicalClock"), ("what they trigger", SP + "mod.rs:resend_message_timeout, flush_batch_timeout")],
     ["messages handed out after each tick"])

prop("C26", "What a server reports about leader, progress and peers is true",
     "A server names the owner of its promised ballot as leader, says that the leader is in the accept phase only once that leader has completed its takeover in that ballot, and all its reports agree with one another. A leader never reports a server to have accepted more than that server has in its storage, and the heartbeats a server lists are those of exactly the servers it could exchange messages with in the last heartbeat round.",
     ["schedules", "fault_sequences", "histories"],
     "all schedules, losses, crashes and connectivities within the bounds",
     "Tests poll the leader until it is the expected one; that a report is wrong for a moment, or names a leader that never took over, is not observable there.",
     ["omnipaxos/src/omni_paxos.rs", "omnipaxos/src/utils/ui.rs", BL, "omnipaxos/src/util.rs"],
     [("status", "omnipaxos/src/omni_paxos.rs:get_current_leader, get_ui_states"), ("progress of the servers", "omnipaxos/src/utils/ui.rs:ClusterState, omnipaxos/src/util.rs:LeaderState::set_accepted_idx"), ("replies of the last round", BL + ":new_hb_round, get_ballots")],
     ["get_current_leader, get_promise and get_ui_states after every call"])

prop("C27", "A configuration read from a TOML file is the one written there",
     "OmniPaxosConfig::with_toml yields, for every file that describes a valid configuration, exactly that configuration with the defaults for the server settings left out, and an error (never a panic) for every other file. The translation of the text into keys and values by the toml crate is taken for granted.",
     ["inputs"],
     "all values of all settings, any of them left out",
     "Tests parse one or two fixed files.",
     ["omnipaxos/src/omni_paxos.rs"],
     [("parsing", "omnipaxos/src/omni_paxos.rs:with_toml")],
     ["the returned configuration or error"])

NA = []
NOTE = {}
TECH = "symbolic execution of the compiled code (LLVM IR) with Z3 deciding every branch and assertion; counterexamples replayed natively"


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    ids = [p["id"] for p in P]
    assert len(set(ids)) == len(ids)
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            f.write(json.dumps(p) + "\n")
    na = {i for i, _ in NA}
    claimed = [i for i in sorted(ids) if i not in na]
    assert set(claimed) == set(plan.PLAN), set(claimed) ^ set(plan.PLAN)
    man = {
        "version": 1,
        "setup_cmd": "./check --setup",
        "checks": [{
            "property": i,
            "quick_cmd": "./check %s quick" % i,
            "thorough_cmd": "./check %s thorough" % i,
            "technique": TECH,
            "level": "other",
            "level_note": "bounded: holds for every value of the symbolic inputs and every schedule within the bounds of: " + "; ".join("%s (%s)" % (n, plan.E[n]["bounds"]) for n in plan.PLAN[i][0]),
            "evidence_file": "evidence/%s.json" % i,
        } for i in claimed],
        "not_applicable": [{"property": i, "reason": r} for i, r in NA],
    }
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
