"""What each check runs: harness entries (see ../harness/src), their bounds, and the time they may take."""

BUILDS = {
    "main": {"features": []},
    "disk": {"features": ["--features", "disk"]},
    "uni": {"features": ["--features", "unicache"]},
    "toml": {"features": ["--features", "toml"]},
}

# entry: (build, what it explores, the bounds, cover points every complete run must reach)
E = {}


def entry(name, what, bounds, covers=("converged",), build="main"):
    E[name] = {"build": build, "what": what, "bounds": bounds, "covers": covers}


TAKE = "a cluster of 3 real nodes; per epoch some node takes over, proposes an entry (56 arbitrary payload bits) and a part of the network works for 0 to 6 delivery rounds; then the network recovers and a leader must get a proposal decided everywhere"
entry("h_take2", TAKE, "2 epochs")
entry("h_take3", TAKE, "3 epochs")
entry("h_take3r", TAKE + "; log without snapshots", "3 epochs")
entry("h_take2c", TAKE + "; one node crashes just before an arbitrary storage write and restarts from its storage", "2 epochs, crash at any of the first 12 writes of any node")
entry("h_take3c", TAKE + "; one node crashes just before an arbitrary storage write and restarts from its storage", "3 epochs, crash at any of the first 18 writes of any node")
entry("h_take2s", TAKE + "; a reconfiguration is proposed in one epoch", "2 epochs")
entry("h_take2sc", TAKE + "; node 1 leads already; a reconfiguration is proposed in one epoch; entries are batched in twos; one node crashes just before an arbitrary storage write", "2 epochs, crash at any of the first 12 writes of any node")
SS = "a reconfiguration with an arbitrary next configuration and metadata, with or without 2 entries before it, proposed at any server before or after a leader is known; some server misses it at first, one may restart, any takes over; every server must report, store and return exactly what was proposed"
entry("h_ss", SS, "3 nodes, up to 4 next servers, up to 2 bytes of metadata", ("carried", "stopsign read"))
entry("h_ssr", SS + "; no snapshots", "3 nodes, up to 4 next servers, up to 2 bytes of metadata", ("carried", "stopsign read"))
entry("h_take3s", TAKE + "; a reconfiguration is proposed in one epoch", "3 epochs")

FREE = "leader 1 and follower 2 of a 3-node cluster under an arbitrary schedule of proposals, message fetches, deliveries, losses, ticks and reconnects on their two links; then the network recovers"
entry("h_free6", FREE + "; follower's Prepare still in flight", "schedules of 6 steps out of 9 operations")
entry("h_free7", FREE + "; follower's Prepare still in flight", "schedules of 7 steps out of 9 operations")
entry("h_free6s", FREE + "; with reconfigurations", "schedules of 6 steps out of 10 operations")
entry("h_lost5", FREE + "; follower's AcceptSync was lost, and traffic goes on before anybody reconnects", "schedules of 5 steps out of 9 operations")
entry("h_lost6", FREE + "; follower's AcceptSync was lost, and traffic goes on before anybody reconnects", "schedules of 6 steps out of 9 operations")
entry("h_lost6s", FREE + "; follower's AcceptSync was lost; with reconfigurations", "schedules of 6 steps out of 10 operations")
entry("h_sync5", FREE + "; follower in sync", "schedules of 5 steps out of 9 operations")
entry("h_sync6s", FREE + "; follower in sync; with reconfigurations", "schedules of 6 steps out of 10 operations")
entry("h_batch5", FREE + "; entries are batched in twos", "schedules of 5 steps out of 9 operations")
entry("h_batch6", FREE + "; entries are batched in twos", "schedules of 6 steps out of 9 operations")
entry("h_batch5s", FREE + "; entries are batched in twos; with reconfigurations", "schedules of 5 steps out of 10 operations")
entry("h_batch6l", FREE + "; entries are batched in twos; AcceptSync was lost; with reconfigurations", "schedules of 6 steps out of 10 operations")
entry("h_batch7", FREE + "; entries are batched in threes; with reconfigurations", "schedules of 7 steps out of 10 operations")
MIX = "leader 1 and follower 2 with different batch sizes, nothing lost between them, follower 3 disappears after the schedule; once the flush timers have fired, everything must be decided"
entry("h_mixb5", MIX, "schedules of 5 steps out of 8 operations, batch sizes 1 to 3", ("flushed", "converged"))
entry("h_mixb6", MIX, "schedules of 6 steps out of 8 operations, batch sizes 1 to 3", ("flushed", "converged"))
entry("h_mixb5r", MIX + "; log without snapshots", "schedules of 5 steps out of 8 operations, batch sizes 1 to 3", ("flushed", "converged"))

UNN = "messages are lost without anybody being told (no reconnect notice); afterwards only timers and two more proposals may repair it"
entry("h_resend2", TAKE + "; " + UNN, "2 epochs")
entry("h_resend2s", TAKE + "; a reconfiguration is proposed in one epoch; " + UNN, "2 epochs")
entry("h_resend3", TAKE + "; " + UNN, "3 epochs")
entry("h_resend5", FREE + "; follower's Prepare in flight; with reconfigurations; " + UNN, "schedules of 5 steps out of 9 operations")
entry("h_resend5i", FREE + "; follower in sync; with reconfigurations; " + UNN, "schedules of 5 steps out of 9 operations")
entry("h_resend6", FREE + "; follower's Prepare in flight; with reconfigurations; " + UNN, "schedules of 6 steps out of 9 operations")

DROP = "3 nodes: proposals by everybody, a leader change, a possible reconfiguration, timers; an arbitrary set of messages is lost; then recovery"
entry("h_drop2", DROP + " without any reconnect notice", "any 2 of the first 44 messages")
entry("h_drop2r", DROP + " without any reconnect notice; no snapshots, batches of 1 or 2", "any 2 of the first 44 messages")
entry("h_drop2n", DROP + "; batches of 1 or 2", "any 2 of the first 44 messages")
entry("h_drop3", DROP + " without any reconnect notice; batches of 1 or 2", "any 3 of the first 44 messages")

DUP = DROP.replace("an arbitrary set of messages is lost", "an arbitrary set of messages (forwarded proposals excepted) arrives twice")
entry("h_dup2", DUP + "; batches of 1 or 2", "any 2 of the first 44 messages")
entry("h_dup2r", DUP + "; no snapshots, batches of 1 or 2", "any 2 of the first 44 messages")

BUF = "two identical clusters of 3 nodes under the same operations (proposals, takeovers, ticks, reconnects, delivery), one fetching into empty buffers, one into buffers that hold messages, roomy or full"
entry("h_buffer4", BUF, "4 operations out of 7, 1 or 2 messages in the buffer", ("compared",))
entry("h_buffer6", BUF, "6 operations out of 7, 1 or 2 messages in the buffer", ("compared",))

DUAL = "node 1 leads with messages in flight when node 2 takes over; both propose and the six links of the cluster deliver in any order; then the network recovers"
entry("h_dual5", DUAL, "schedules of 5 steps out of 8 operations")
entry("h_dual6", DUAL, "schedules of 6 steps out of 8 operations")
entry("h_dual7", DUAL, "schedules of 7 steps out of 8 operations")
entry("h_dual6b", DUAL + "; entries are batched in twos", "schedules of 6 steps out of 8 operations")

COMP = "entries decided while node 3 may lag, an optional stopsign or undecided tail, compaction requests at arbitrary nodes and indexes, an arbitrary leader change over a partial network, then recovery"
entry("h_comp", COMP + " (snapshots)", "2 entries, 1 request; node ids 1,2,3 or 1,3,5")
entry("h_compr", COMP + " (trimming)", "2 entries, 1 request; node ids 1,2,3 or 1,3,5")
entry("h_comp2", COMP + " (snapshots)", "2 entries, 2 requests")
entry("h_comp2r", COMP + " (trimming)", "2 entries, 2 requests")
entry("h_compc", COMP + " (snapshots); a node crashes just before an arbitrary storage write", "2 entries, 1 request, crash at any of the next 4 writes of any node")
entry("h_comprc", COMP + " (trimming); a node crashes just before an arbitrary storage write", "2 entries, 1 request, crash at any of the next 4 writes of any node")
entry("h_comp3", COMP + " (snapshots)", "3 entries, 2 requests")

MANY = "280 entries (numbered, proposed one by one, in bursts at two nodes or all at once), batches of 1, 7 or 100, node 3 getting none, half or all of them, compaction up to one of several indexes, a leader change; then recovery"
entry("h_many", MANY, "280 entries")
entry("h_manyr", MANY + "; trimming", "280 entries")

ROUND = "3 nodes restart from an arbitrary storage state that two earlier rounds can have left behind (who accepted, promised, decided how much), somebody leads a third round over a partial network, then the cluster recovers"
Q = "round 1: 2 entries, round 2: 1 entry; extreme values of what is known to be decided"
FULL = "round 1: up to 2 entries, round 2: up to 1 entry, any values of what is known to be decided"
entry("h_round", ROUND, Q)
entry("h_roundr", ROUND + "; log without snapshots", Q)
entry("h_rounds", ROUND + "; round 2 may end in a stopsign", "1 entry per round")
entry("h_roundc", ROUND + "; decided prefixes may be snapshotted", Q)
entry("h_roundt", ROUND + "; prefixes may be trimmed", Q)
entry("h_roundn", ROUND + "; round 3 stops after 0 to 5 delivery rounds", "1 entry per round")
entry("h_roundf", ROUND, FULL)
entry("h_roundrf", ROUND + "; log without snapshots", FULL)
entry("h_roundsf", ROUND + "; round 2 may end in a stopsign", FULL)
entry("h_roundcf", ROUND + "; decided prefixes may be snapshotted", FULL)
entry("h_roundtf", ROUND + "; prefixes may be trimmed", FULL)
entry("h_roundnf", ROUND + "; round 3 stops after 0 to 5 delivery rounds", FULL)

ELECT = "nodes restart with what round 1 left behind; node 1 collects promises for round 2 in any order while the others may crash and restart in between; then the cluster recovers"
entry("h_elect4", ELECT, "4 nodes, 2 entries, 3 steps")
entry("h_elect4r", ELECT + "; log without snapshots", "4 nodes, 2 entries, 3 steps")
entry("h_elect4q", ELECT + "; read quorum 3, write quorum 2", "4 nodes, 2 entries, 4 steps")
entry("h_elect5", ELECT, "5 nodes, 2 entries, 4 steps")
entry("h_elect5r", ELECT + "; log without snapshots", "5 nodes, 2 entries, 4 steps")
entry("h_elect5q", ELECT + "; read quorum 4, write quorum 2", "5 nodes, 2 entries, 4 steps")

READ = "a node restarts from an arbitrary log (compacted prefix, entries with arbitrary payloads, optional stopsign, arbitrary decided index); one read of any kind at arbitrary 64-bit indexes and bounds"
entry("h_read", READ + " (snapshots)", "up to 2 compacted and 2 further entries", ("read", "entry read", "decided suffix read", "range read"))
entry("h_readr", READ + " (trimming)", "up to 2 compacted and 2 further entries", ("read", "entry read", "decided suffix read", "range read"))
entry("h_read4", READ + " (snapshots)", "up to 3 compacted and 4 further entries", ("read", "entry read", "decided suffix read", "range read"))
entry("h_read4r", READ + " (trimming)", "up to 3 compacted and 4 further entries", ("read", "entry read", "decided suffix read", "range read"))

CONF = "a cluster and server configuration of arbitrary values (64-bit ids, quorum sizes, timeouts), validated and proposed as the next configuration"
entry("h_config", CONF, "up to 3 nodes", ("configuration checked", "valid configuration"))
entry("h_config5", CONF, "up to 5 nodes", ("configuration checked", "valid configuration"))
entry("h_build", "a node is built from an arbitrary small configuration, proposes, takes over and ticks", "up to 3 nodes, ids 0 to 4, buffer and batch size 0 or 1", ("node built",))

QUO = "a leader of a cluster of any size and any valid quorum sizes collects promises and acknowledgements one by one"
entry("h_quorum5", QUO, "2 to 5 nodes", ("quorums reached",))
entry("h_quorum7", QUO + "; log without snapshots", "2 to 7 nodes", ("quorums reached",))

PRIO = "; nodes have arbitrary 32-bit priorities, and rounds of the same number compete"
entry("h_take2p", TAKE + PRIO, "2 epochs")
entry("h_take3p", TAKE + PRIO, "3 epochs")
entry("h_dual5p", DUAL + PRIO, "schedules of 5 steps out of 8 operations")
entry("h_dual6p", DUAL + PRIO, "schedules of 6 steps out of 8 operations")

entry("h_ballot", "three ballots with arbitrary fields are compared", "none: all 32-bit numbers and priorities, 64-bit ids", ("compared", "ordered", "rounds differ"))
BLE = "a cluster that starts cold or with a leader goes through phases of arbitrary symmetric connectivity with a restart, a manual takeover or a priority change, then gets a connectivity in which some server reaches a majority; a leader must emerge, decide and stay"
entry("h_ble3", BLE, "3 nodes, all 8 connectivities, 1 phase of 1, 2 or 5 heartbeat rounds, 8 rounds to elect; servers' clocks in step or staggered", ("leader elected",))
entry("h_ble3x", BLE, "3 nodes, 2 phases of 1 or 4 rounds, clocks in step", ("leader elected",))
entry("h_ble4x", BLE, "4 nodes, no phase before, all 64 connectivities", ("leader elected", "leader kept"))
entry("h_ble4", BLE, "4 nodes, all 64 connectivities, 1 phase of 1 or 4 rounds, clocks in step", ("leader elected",))
HB = "a server in some heartbeat round gets heartbeat replies and requests with arbitrary rounds, configurations, ballots and flags"
entry("h_hb2", HB, "2 messages, round 1 or 2, ballot numbers below 2^31", ("heartbeat counted", "heartbeats handled"))
entry("h_hb3", HB, "3 messages, round 1 or 2, ballot numbers below 2^31", ("heartbeat counted", "heartbeats handled"))
BLEQ = "; with flexible quorums: reaching a read quorum is enough to become leader, reaching a write quorum to stay"
entry("h_ble4q", BLE + BLEQ, "4 nodes, read quorum 3, write quorum 2, no phase before, all 64 connectivities, 16 rounds to elect", ("leader elected", "leader kept"))
entry("h_ble5q", BLE + BLEQ, "5 nodes, read quorum 4, write quorum 2, no phase before, all 1024 connectivities, 16 rounds to elect", ("leader elected", "leader kept"))
entry("h_ble5", BLE, "5 nodes, no phase before, all 1024 connectivities", ("leader elected", "leader kept"))
entry("h_ble5x", BLE, "5 nodes, 1 phase with one server cut off, then all 1024 connectivities, clocks in step", ("leader elected",))

FWD = "3 nodes, nothing is lost: proposals at any node before, during and after takeovers by any node, partial delivery in between; in the end everything is decided exactly once"
entry("h_fwd4", FWD, "4 operations out of 7", ("forwarded",))
entry("h_fwd4s", FWD + "; with a reconfiguration", "4 operations out of 10", ("forwarded",))
entry("h_fwd5", FWD, "5 operations out of 7", ("forwarded",))
entry("h_fwd5s", FWD + "; with a reconfiguration", "5 operations out of 10", ("forwarded",))
entry("h_fwd5b", FWD + "; with a reconfiguration; entries batched in twos, no snapshots", "5 operations out of 10", ("forwarded",))
LATE = "3 nodes, nothing is lost: a proposal (1 or 2 entries, or an entry and a reconfiguration) forwarded to a leader that has meanwhile followed another; then whole links delivered in any order and more proposals at any node; in the end everything is decided exactly once"
entry("h_fwdx", LATE, "2 further operations out of 9", ("passed on",))
entry("h_fwdxb", LATE + "; entries batched in twos, no snapshots", "2 further operations out of 9", ("passed on",))
entry("h_fwdx3", LATE, "3 further operations out of 9", ("passed on",))
entry("h_fwdxq", LATE + "; a leader needs promises of all 3", "3 further operations out of 9", ("passed on",))
entry("h_fwd7", FWD, "7 operations out of 7", ("forwarded",))

STEP = "one follower restarts from an arbitrary storage (arbitrary ballots: 31-bit numbers, 32-bit priorities, any owner) and handles leaders' messages with arbitrary ballots, sequence numbers and decided indexes; its state and answers are compared with a reference"
entry("h_step1", STEP, "1 message of 5 kinds, log of 2 entries and optional stopsign", ("handled", "promised", "prepare ignored", "older round", "newer round", "more up to date"))
entry("h_step2", STEP, "2 messages of 5 kinds, log of at most 1 entry", ("handled", "promised", "synchronised"))
entry("h_stepa1", STEP, "first taken to the accept phase of an arbitrary round and session, then 1 message of 5 kinds, log of at most 2 entries", ("handled", "entry accepted", "stopsign accepted", "decided", "gap", "outdated"))
entry("h_stepa2", STEP, "first taken to the accept phase of an arbitrary round and session, then 2 messages of 5 kinds, log of at most 1 entry", ("handled", "entry accepted", "stopsign accepted", "decided", "gap", "outdated"))
LEAD = "a leader with 3 entries in flight handles acknowledgements, refusals and requests with arbitrary ballots from arbitrary servers"
entry("h_lead2", LEAD, "5 nodes, 2 messages", ("led", "acknowledged", "stale acknowledgement", "asked"))
entry("h_lead3", LEAD, "5 nodes, 3 messages", ("led", "acknowledged", "stale acknowledgement", "asked"))
entry("h_lead4", LEAD, "4 nodes, 4 messages", ("led", "acknowledged", "stale acknowledgement", "asked"))
CAND = "a server restarts from an arbitrary log and takes over; it gets promises of this or an earlier round of its own with arbitrary accepted rounds, accepted and decided indexes and entries; what it adopts and sends is compared with a reference, then one acknowledgement and a trim request"
entry("h_prep", CAND, "5 nodes, 3 promises, logs of at most 2 entries", ("candidate", "leads", "stale promise"))
entry("h_prep3", CAND, "3 nodes, 3 promises, logs of at most 2 entries", ("candidate", "leads", "stale promise"))

STO = "any compacted prefix and log, then writes of every kind (direct or in a transaction) with arbitrary values, compared with a reference after each; last, one read at arbitrary 64-bit indexes"
entry("h_mem1", STO, "at most 2 compacted and 3 further entries, 1 write or a transaction of 2", ("read", "read outside"))
entry("h_mem2", STO, "at most 2 compacted and 2 further entries, 2 writes", ("read", "read outside"))
entry("h_mem3", STO, "at most 2 compacted and 1 further entry, 3 writes", ("read", "read outside"))
FAR = "a log synchronised far beyond what was there, starting at 254, 2^16-1, 2^32-2, 2^40-1 or beyond 2^56, then one write of every kind (direct or in a transaction of up to 2)%s and one read around its ends"
entry("h_memfar", FAR % "", "3 entries, 1 write or a transaction of 2", ("read near",))
STOD = STO + "; the storage may be closed and reopened after each write"
entry("h_disk1", STOD, "at most 2 compacted and 3 further entries, 1 write or a transaction of 2", ("read", "read outside", "reopened"), "disk")
entry("h_disk2", STOD, "at most 2 compacted and 2 further entries, 2 writes", ("read", "read outside", "reopened"), "disk")
entry("h_disk3", STOD, "at most 2 compacted and 1 further entry, 3 writes", ("read", "read outside", "reopened"), "disk")
entry("h_diskfar", FAR % ", possibly a reopen", "3 entries, 1 write or a transaction of 2", ("read near", "reopened"), "disk")
FLT = "one write or transaction of any kind %s, from any compacted prefix and log; then another write, possibly a reopen, and one read"
entry("h_diskf", FLT % "fails in the database or because an entry cannot be serialised", "at most 2 compacted and 2 further entries", ("failed",), "disk")
entry("h_diskf1", FLT % "fails in the database or because an entry cannot be serialised", "at most 2 compacted and 1 further entry", ("failed",), "disk")
entry("h_diskc", FLT % "is cut short by a crash before any of its database writes", "at most 2 compacted and 2 further entries", ("crashed",), "disk")
entry("h_diskc1", FLT % "is cut short by a crash before any of its database writes", "at most 2 compacted and 1 further entry", ("crashed",), "disk")
for n in ("h_take2c", "h_comp", "h_compr", "h_round", "h_rounds", "h_roundn", "h_take3c", "h_roundcf", "h_comp2"):
    entry(n + "@disk", E[n]["what"] + "; the nodes run on the persistent storage", E[n]["bounds"], E[n]["covers"], "disk")


FIELD = "a leader's and a follower's cache of one field (%s): the leader encodes values, the follower is synchronised anew or takes over, caches sent as such or serialised; every decoded value is compared"
CF = ("cache hit", "synchronised", "leader changed", "encoded")
for c in ("lru", "lfu"):
    entry("h_%s1" % c, FIELD % c, "size 1, 7 operations, 3 values, 2 takeovers", CF, "uni")
    entry("h_%s2" % c, FIELD % c, "size 2, 7 operations, 4 values, 2 takeovers", CF, "uni")
    entry("h_%s3" % c, FIELD % c, "size 3, 7 operations, 5 values, 2 takeovers", CF, "uni")
    entry("h_%s2x" % c, FIELD % c, "size 2, 9 operations, 4 values, 2 takeovers", CF, "uni")
    entry("h_%sfull" % c, FIELD % c, "size 255 with 8-bit encoding, filled and overfilled, then 3 of 7 values and a takeover", ("encoded",), "uni")
DER = "an entry type with three cached fields as the macro derives it (different sizes, encodings and policies) and arbitrary other fields; encoded, sent, decoded"
entry("h_derive", DER, "3 entries, synchronisation or takeover before each", ("encoded",), "uni")
entry("h_derivex", DER, "5 entries, synchronisation or takeover before each", ("encoded",), "uni")
entry("h_take2r", TAKE + "; log without snapshots", "2 epochs")
entry("h_take2cr", TAKE + "; one node crashes just before an arbitrary storage write; log without snapshots", "2 epochs, crash at any of the first 12 writes of any node")
entry("h_lost5r", FREE + "; follower's AcceptSync was lost; no snapshots", "schedules of 5 steps out of 9 operations")
entry("h_sync5r", FREE + "; follower in sync; no snapshots", "schedules of 5 steps out of 9 operations")
entry("h_batch5r", FREE + "; entries are batched in twos; with reconfigurations; no snapshots", "schedules of 5 steps out of 10 operations")
entry("h_dual4", DUAL, "schedules of 4 steps out of 8 operations")
entry("h_dual4r", DUAL + "; no snapshots", "schedules of 4 steps out of 8 operations")
entry("h_dual5r", DUAL + "; no snapshots", "schedules of 5 steps out of 8 operations")
for n in ("h_take2", "h_take2r", "h_take2c", "h_take2cr", "h_lost5", "h_lost5r", "h_sync5", "h_sync5r", "h_batch5", "h_batch5r", "h_dual4", "h_dual4r", "h_dual5", "h_dual5r", "h_fwd4", "h_take2s", "h_drop2", "h_drop2r"):
    entry(n + "@uni", E[n]["what"] + "; with UniCache (%s, size 2, 3 values) and serialised messages" % ("LFU" if n.endswith("r") else "LRU"), E[n]["bounds"], E[n]["covers"], "uni")
WIRE = "one message of any of the 15 kinds with arbitrary field values is serialised, deserialised and compared field by field"
entry("h_wire", WIRE, "at most 2 entries, nodes, metadata bytes", ("message received",), "disk")
entry("h_wire4", WIRE, "at most 4 entries, nodes, metadata bytes", ("message received",), "disk")
TIM = "a leader, a leader nobody answers, or a follower gets an entry before each tick; election, resend and flush timeouts are arbitrary 64-bit values"
entry("h_timer9", TIM, "9 ticks", ("ticked", "flushed", "acknowledged"))
entry("h_timer16", TIM, "16 ticks", ("ticked", "flushed", "acknowledged"))
TOML = "a configuration file whose settings have arbitrary 64-bit values is read with with_toml; result against a reference of what is valid; up to 3 nodes"
entry("h_toml", TOML, "any one of 12 settings left out, or none", ("accepted", "refused"), "toml")
entry("h_toml2", TOML, "any subset of 12 settings left out", ("accepted", "refused"), "toml")

# property: (quick entries, further thorough entries)
PLAN = {
    "C01": (["h_drop2", "h_lost5", "h_dual6", "h_round", "h_take2c", "h_dual5p", "h_dup2", "h_lead2", "h_prep"], ["h_drop3", "h_take3", "h_take3r", "h_lost6s", "h_dual7", "h_roundf", "h_roundsf", "h_elect5", "h_dual6p", "h_take3p", "h_stepa2"]),
    "C02": (["h_take2c", "h_comp", "h_round", "h_dual5", "h_stepa1", "h_ss"], ["h_take3c", "h_roundcf", "h_roundrf", "h_comp2", "h_comp2r", "h_stepa2"]),
    "C03": (["h_dual5", "h_take2c", "h_lost5", "h_batch5s", "h_fwd4", "h_step1", "h_many", "h_dup2"], ["h_take3", "h_dual7", "h_free7", "h_batch7", "h_roundf", "h_fwd5b", "h_fwd7"]),
    "C04": (["h_quorum5", "h_quorum7", "h_dual6", "h_take2c", "h_elect4q", "h_batch5", "h_lead2", "h_stepa1", "h_prep"], ["h_take3", "h_dual7", "h_elect5q", "h_elect5", "h_roundf", "h_lead3", "h_lead4", "h_stepa2"]),
    "C05": (["h_dual6", "h_take2c", "h_roundn", "h_step1", "h_stepa1", "h_lead2", "h_take2p", "h_prep3"], ["h_take3", "h_take3c", "h_dual7", "h_roundnf", "h_step2", "h_stepa2", "h_dual6p"]),
    "C06": (["h_quorum5", "h_round", "h_elect4", "h_elect4q", "h_rounds", "h_step1", "h_prep", "h_take2c"], ["h_roundf", "h_roundcf", "h_elect5", "h_elect5q", "h_take3", "h_step2"]),
    "C07": (["h_take2c", "h_roundn", "h_elect4", "h_take2c@disk", "h_comp@disk", "h_compc", "h_take2sc", "h_ss"], ["h_take3c", "h_roundnf", "h_roundcf", "h_elect5", "h_roundn@disk", "h_take3c@disk", "h_round@disk", "h_rounds@disk", "h_compr@disk", "h_roundcf@disk"]),
    "C08": (["h_drop2", "h_lost6", "h_sync5", "h_free6", "h_stepa1", "h_dup2r"], ["h_free7", "h_lost6s", "h_sync6s", "h_stepa2"]),
    "C09": (["h_drop2n", "h_batch6", "h_batch5s", "h_batch6l", "h_dual6b", "h_many", "h_mixb5"], ["h_batch7", "h_mixb6", "h_mixb5r"]),
    "C10": (["h_quorum5", "h_drop2", "h_take2s", "h_rounds", "h_batch5s", "h_fwd4s", "h_ss", "h_ssr"], ["h_take3s", "h_roundsf", "h_free6s", "h_lost6s", "h_sync6s", "h_fwd5s"]),
    "C11": (["h_compr", "h_comp2r", "h_comp", "h_roundt", "h_manyr", "h_comprc", "h_prep3"], ["h_comp2", "h_roundtf", "h_roundcf", "h_elect5"]),
    "C12": (["h_comp2", "h_elect4", "h_round", "h_many", "h_compc"], ["h_comp3", "h_roundcf", "h_elect5", "h_take3"]),
    "C13": (["h_read", "h_readr", "h_take2s", "h_comp"], ["h_read4", "h_read4r"]),
    "C14": (["h_config", "h_config5", "h_build", "h_quorum5", "h_quorum7"], []),
    "C15": (["h_ballot", "h_ble3", "h_take2p", "h_roundn", "h_hb3"], ["h_ble3x", "h_take2c", "h_take3p", "h_dual6p", "h_take3c"]),
    "C16": (["h_ble3", "h_ble4x", "h_ble4q", "h_ble5", "h_ble5q", "h_hb2"], ["h_ble3x", "h_ble4", "h_ble5x"]),
    "C17": (["h_quorum5", "h_drop2n", "h_lost5", "h_take2s", "h_sync5", "h_roundn", "h_manyr", "h_mixb5"], ["h_take3", "h_take3c", "h_free7", "h_lost6s", "h_roundnf", "h_elect5", "h_fwd7"]),
    "C18": (["h_mem1", "h_mem2", "h_memfar"], ["h_mem3"]),
    "C19": (["h_disk1", "h_disk2", "h_diskfar", "h_diskf1", "h_diskc1"], ["h_disk3", "h_diskf", "h_diskc"]),
    "C20": (["h_lru1", "h_lru2", "h_lru3", "h_lfu1", "h_lfu2", "h_lfu3", "h_lrufull", "h_lfufull", "h_derive", "h_take2@uni", "h_take2r@uni", "h_batch5@uni", "h_batch5r@uni", "h_dual4@uni", "h_dual4r@uni", "h_lost5@uni"], ["h_lru2x", "h_lfu2x", "h_derivex", "h_sync5@uni", "h_sync5r@uni", "h_lost5r@uni", "h_fwd4@uni", "h_take2s@uni", "h_take2c@uni", "h_take2cr@uni", "h_dual5@uni", "h_dual5r@uni", "h_drop2@uni", "h_drop2r@uni"]),
    "C21": (["h_fwd4", "h_fwd4s", "h_fwd5", "h_fwdx", "h_fwdxb", "h_fwdx3", "h_fwdxq", "h_ss"], ["h_fwd5s", "h_fwd5b", "h_fwd7"]),
    "C22": (["h_buffer4", "h_dual5", "h_lost5", "h_take2s", "h_step1", "h_lead2", "h_hb2"], ["h_buffer6", "h_dual7", "h_take3", "h_free6s"]),
    "C23": (["h_resend2", "h_resend2s", "h_drop2", "h_drop2r", "h_resend5", "h_resend5i"], ["h_drop3", "h_resend3", "h_resend6"]),
    "C24": (["h_wire", "h_wire4", "h_take2@uni", "h_take2s@uni"], ["h_sync5@uni", "h_fwd4@uni", "h_drop2@uni"]),
    "C25": (["h_timer9"], ["h_timer16"]),
    "C26": (["h_take2c", "h_dual5", "h_ble3", "h_ble4x", "h_comp", "h_drop2", "h_batch5s", "h_resend5", "h_hb3"], ["h_take3c", "h_dual7", "h_ble3x", "h_ble5", "h_comp2r", "h_drop3", "h_batch7"]),
    "C27": (["h_toml", "h_toml2"], []),
}

BUDGET = {"quick": 420, "thorough": 5400}
SECONDS = {"quick": 240, "thorough": 900}

HARNESS = {k: v["what"] for k, v in E.items()}


def steps(prop, tier):
    q, t = PLAN[prop]
    names = q if tier == "quick" else q + t
    return [{"entry": n, "build": E[n]["build"], "seconds": SECONDS[tier], "covers": E[n]["covers"]} for n in names]


def entry_build(name):
    return E[name]["build"]


def bounds(prop, tier):
    return {s["entry"]: E[s["entry"]]["bounds"] for s in steps(prop, tier)}


EXPLAIN = (
    "The crates in /repo are compiled to LLVM IR together with the harness and executed symbolically: every choice the "
    "harness leaves open (payloads, which operation comes next, which message is delivered or lost, which write a crash "
    "precedes, indexes, storage states) is a solver variable; at every branch and assertion that depends on one, Z3 decides "
    "which outcomes are possible under the path condition, and both sides are followed. A run is complete when every "
    "feasible path within the bounds has been executed to its end and no assertion of the property can fail on any of them; "
    "reachable panics, overflows and memory faults count as failures. A counterexample is replayed on the natively "
    "compiled code before it is reported. A harness that ran out of time is reported as not exhausted."
)
OUTSIDE = (
    "Longer schedules, more entries, more nodes and more rounds than stated; payloads are pairwise distinct; messages do "
    "not overtake each other on a link (a duplicate follows its original at once); the I/O of the storage back end and the user's network; memory exhaustion."
)
ASSUME = [
    "The Entry type does not influence the protocol other than through the Entry and Snapshot traits (payload of 64 bits, snapshot = list of payloads).",
    "Links are FIFO; a link that lost messages is re-established by calling reconnected on both ends.",
    "Storage writes are atomic per call and survive a crash once the call returned.",
    "rustc's LLVM IR at opt-level 2 with overflow checks means what the machine code does; the engine's semantics of it agree with native execution (sample paths are replayed natively in the thorough tier).",
]
