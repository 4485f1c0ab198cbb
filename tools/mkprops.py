#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

SEQ_TESTS = "The existing tests call single commands on a private in-memory database from one goroutine, a handful of fixed inputs each; they never run two commands concurrently and never go through the server."

p("C01", "String commands are atomic and linearizable across connections",
  "Whatever connections concurrently issue string commands (SET with any options, GET, GETRANGE, SETRANGE, APPEND, STRLEN, SETNX, SETEX, INCR/INCRBY/DECR/DECRBY, INCRBYFLOAT, MGET, MSET), every reply and the final data are those of executing the commands one at a time, each with its documented Redis effect, in an order consistent with real time. In particular no acknowledged increment, append or set-if-absent is lost or granted twice, and no reader ever receives a value that was never stored.",
  ["schedules", "histories", "inputs"], "every interleaving of any number of connections, every sequence of string commands with any arguments, on shared and distinct keys",
  SEQ_TESTS, ["memdb/strings.go", "memdb/locks.go", "memdb/concurrentMap.go", "server/handler.go"],
  [("per-key lock held around each read-modify-write", "memdb/strings.go"), ("striped key locks", "memdb/locks.go"), ("segment locks of the concurrent map", "memdb/concurrentMap.go"), ("reply built from the stored bytes and serialised after the command returns", "server/handler.go")],
  ["replies on the client connections", "final GET/STRLEN of every key"],
  [dict(name="stored string value", meaning="bytes held for a key", where="memdb/memdb.go dict")])
p("C02", "List commands are atomic and linearizable across connections",
  "Whatever connections concurrently issue list commands (LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP, LINDEX, LINSERT, LLEN, LPOS, LRANGE, LREM, LSET, LTRIM, LMOVE), every reply and the final lists are those of executing the commands one at a time, each with its documented Redis effect, in an order consistent with real time. In particular each pushed element is popped or moved at most once, none is lost, and list order and length always agree.",
  ["schedules", "histories", "inputs"], "every interleaving of any number of connections, every sequence of list commands with any indexes, counts and options",
  SEQ_TESTS, ["memdb/list.go", "memdb/list_struct.go", "memdb/locks.go"],
  [("per-key lock around list mutation", "memdb/list.go"), ("doubly linked list with sentinels and a length field", "memdb/list_struct.go")],
  ["replies on the client connections", "final LRANGE/LLEN of every key"])
p("C03", "Hash commands are atomic and linearizable across connections",
  "Whatever connections concurrently issue hash commands (HSET, HMSET, HSETNX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HSTRLEN, HDEL, HINCRBY, HINCRBYFLOAT, HRANDFIELD), every reply and the final hashes are those of executing the commands one at a time, each with its documented Redis effect, in an order consistent with real time. In particular no acknowledged field update or field increment is lost and a multi-field write is never seen half done.",
  ["schedules", "histories", "inputs"], "every interleaving of any number of connections, every sequence of hash commands with any fields and values",
  SEQ_TESTS + " No hash command has any test.", ["memdb/hash.go", "memdb/hash_struct.go", "memdb/locks.go"],
  [("per-key lock around hash access", "memdb/hash.go"), ("map of fields", "memdb/hash_struct.go")],
  ["replies on the client connections", "final HGETALL/HLEN of every key"])
p("C04", "Set commands are atomic and linearizable across connections",
  "Whatever connections concurrently issue set commands (SADD, SREM, SCARD, SISMEMBER, SMEMBERS, SPOP, SRANDMEMBER, SMOVE, SINTER, SUNION, SDIFF and their STORE forms), every reply and the final sets are those of executing the commands one at a time, each with its documented Redis effect, in an order consistent with real time; where Redis leaves the choice of member open, any member present may be chosen. In particular a member is popped by at most one connection and add/remove counts are exact.",
  ["schedules", "histories", "inputs"], "every interleaving of any number of connections, every sequence of set commands, missing and expired operands included",
  SEQ_TESTS + " Only set difference on two literals is tested.", ["memdb/set.go", "memdb/set_struct.go", "memdb/locks.go"],
  [("per-key and multi-key locks around set access", "memdb/set.go"), ("map of members and the set algebra over it", "memdb/set_struct.go")],
  ["replies on the client connections", "final SMEMBERS/SCARD of every key"])
p("C05", "Commands naming several keys take effect on all of them at one instant",
  "A command that names several keys (MSET, MGET, DEL, EXISTS, RENAME, LMOVE, SMOVE, SINTER/SUNION/SDIFF and their STORE forms) reads and writes all of them at a single instant: no other connection ever observes a state in which only some of its keys have been read or changed. Moving commands conserve data: what leaves the source is in the destination, exactly once, and a renamed value keeps its content and lifetime.",
  ["schedules", "histories"], "every interleaving of multi-key commands with each other and with single-key commands on overlapping keys, in any key order, with any hash collisions",
  SEQ_TESTS + " Atomicity across keys is only visible to a second connection.", ["memdb/strings.go", "memdb/keys.go", "memdb/list.go", "memdb/set.go", "memdb/locks.go"],
  [("all key locks taken together, in sorted order, deduplicated", "memdb/locks.go MLock/MRLock")],
  ["replies on the client connections", "final dump of every key"])
p("C06", "A key lives for its whole lifetime and is gone within a second after it",
  "A key given an expiry (SET EX/PX/EXAT/PXAT, SETEX, EXPIRE with NX/XX/GT/LT) stays readable with its value until that lifetime has elapsed and is unobservable through every command, as if deleted, at most one second (the resolution of expiry) after it has; a key without expiry never disappears. TTL reports the remaining seconds to within one second, -1 without expiry and -2 without key; PERSIST, KEEPTTL, plain overwrites, RENAME and failed conditional writes keep, drop or move the expiry as Redis documents.",
  ["histories", "schedules", "inputs"], "every sequence of commands and every passage of time between and during them, on every value type",
  "The tests set an expiry and read it back in the same instant; they never let time pass, so nothing after the first second of a key's life is exercised.",
  ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go"],
  [("expiry table consulted before each command", "memdb/memdb.go CheckExpire/DeleteExpiredKey"), ("expiry set, moved and cleared with the value", "memdb/keys.go, memdb/strings.go")],
  ["replies on the client connections at known simulated times"],
  [dict(name="expires", meaning="deadline in unix seconds per key", where="memdb/memdb.go")])
p("C07", "Cleaning up expired keys never harms a newer write",
  "When a key's lifetime ends while several connections use it, every reply is still that of some one-at-a-time execution consistent with real time in which the old value vanished at one instant. In particular a write acknowledged after the old value expired is never removed by the clean-up of the old one, no element or byte of the expired value turns up in the new one, and the new value does not inherit the old expiry.",
  ["schedules", "histories"], "every interleaving of readers that notice the expiry with writers re-creating the key, at every instant relative to the deadline",
  "It needs the clock to pass a deadline between two particular steps of one connection while another connection writes; the tests have neither a second connection nor a moving clock.",
  ["memdb/memdb.go", "memdb/strings.go", "memdb/list.go", "memdb/hash.go", "memdb/set.go", "memdb/keys.go"],
  [("lazy deletion on access", "memdb/memdb.go DeleteExpiredKey")],
  ["replies on the client connections", "final dump of every key"])
p("C08", "Every complete request is answered: no deadlock, hang or starvation",
  "Every complete request received on a healthy connection is answered after a bounded amount of work by the server, whatever commands other connections run at the same time and in whatever order they name their keys. No schedule of commands leaves two connections waiting for each other, and no request makes the server loop forever.",
  ["schedules", "inputs", "configurations"], "every interleaving of any commands over overlapping keys, every key order and repetition within a command, every segment count including total collision",
  "A deadlock needs two multi-key commands to interleave at their lock acquisitions; the single-goroutine tests cannot block.",
  ["memdb/locks.go", "memdb/memdb.go", "memdb/list_struct.go", "memdb/concurrentMap.go", "server/handler.go"],
  [("locks acquired in sorted deduplicated order and released on every path", "memdb/locks.go and each command"), ("bounded loops over the stored structures", "memdb/*_struct.go")],
  ["a reply for each request within a step budget once the network is quiet"])
p("C09", "Each request gets exactly one reply, in order, however the bytes arrive",
  "On every connection the sequence of replies corresponds one to one, in order, to the sequence of complete requests sent, for any fragmentation, coalescing, delay or pipelining of the byte stream and any slowness of the reader; each reply is one well-formed RESP value. Keys, fields and values are binary safe: any bytes of any length, including CR, LF, NUL and the empty string, are stored and returned unchanged.",
  ["fault_sequences", "inputs", "schedules"], "every split of the byte stream into reads, every pipelining depth, every payload content and size",
  "The parser tests feed a few literal messages in one piece from memory; no test drives the connection loop, splits a message or pipelines requests.",
  ["resp/parser.go", "resp/data.go", "server/handler.go"],
  [("incremental stream parser feeding the connection loop", "resp/parser.go"), ("length-prefixed replies", "resp/data.go"), ("one write per executed command", "server/handler.go")],
  ["raw reply bytes on each connection"])
p("C10", "Databases are isolated and each connection selects its own",
  "A connection's SELECT affects only the commands that connection sends afterwards; every new connection starts in database 0 whatever others have selected. Commands read and change only the keys of the database their connection has selected, an invalid SELECT is refused with an error and leaves the selection unchanged, and equal key names in different databases are unrelated.",
  ["schedules", "histories", "configurations"], "every interleaving of SELECT and data commands over any number of connections and databases",
  "No test covers SELECT or the server at all; the property is about two or more connections.",
  ["server/handler.go", "memdb/memdb.go"],
  [("table of databases and the connection's current one", "server/handler.go")],
  ["replies on the client connections", "final dump of every database"])
p("C11", "No client can crash the server or disturb other clients",
  "Whatever bytes a client sends (malformed, truncated, oversized or hostile requests, wrong argument counts, extreme numbers), and however its connection fails (reset, half close, stall, write failure) at whatever point, the server process keeps running, other clients' data and replies are unaffected, and new connections are served. A request that was not received completely is never executed, not even in part.",
  ["inputs", "fault_sequences", "schedules"], "every byte stream a client can send, every point at which a connection can fail, concurrently with well-behaved clients",
  "The tests only feed well-formed messages to the parser and well-formed commands to the executors; connection faults are not exercised.",
  ["resp/parser.go", "server/handler.go", "memdb/list.go", "memdb/set.go", "memdb/hash.go", "memdb/strings.go", "util/util.go"],
  [("argument validation in each command", "memdb/*.go"), ("protocol validation in the stream parser", "resp/parser.go"), ("error handling of the connection loop", "server/handler.go")],
  ["liveness of the server process", "replies of well-behaved clients", "service of a fresh connection"])
p("C12", "A finished connection leaves nothing behind",
  "Once a connection has ended, for whatever reason (orderly close, half close, reset, protocol error, failed write, failure in the middle of a request), the server closes its side and every activity serving that connection ends within a bounded number of steps. However many connections come and go, the server's number of live activities and open connections returns to what it was before.",
  ["fault_sequences", "schedules"], "every way and every point at which a connection can end, in any number and interleaving",
  "No test opens a connection; a leaked reader is invisible to a test that only looks at results.",
  ["resp/parser.go", "server/handler.go"],
  [("parser ends and signals the connection loop", "resp/parser.go"), ("connection loop closes the connection when it ends", "server/handler.go")],
  ["server-side Close of each connection", "number of live server goroutines at quiescence"])
p("C13", "KEYS lists exactly the keys that exist",
  "A KEYS reply contains every key matching the pattern (?, *, [set], [^set], [a-z] as documented in util.go) that existed throughout the call, no key that does not match or existed at no time during the call, no key twice and nothing that never was a key, whatever other connections add, remove, rename or let expire meanwhile. With no concurrent change it equals the set of matching live keys.",
  ["schedules", "histories", "configurations"], "every interleaving of KEYS with insertions, deletions, renames and expirations, every segment count",
  "The only KEYS test lists three keys of an otherwise idle database.",
  ["memdb/concurrentMap.go", "memdb/keys.go", "util/util.go"],
  [("walk of all segments under their locks", "memdb/concurrentMap.go Keys"), ("lazy deletion of expired keys while listing", "memdb/keys.go")],
  ["KEYS replies against the recorded history of key existence"])
p("C14", "The server starts, accepts, and shuts down cleanly under faults",
  "A started server serves every connection it accepts; failed accept attempts, however many and in whatever pattern, never stop it from serving later ones. On SIGINT or SIGTERM it stops listening and exits with success within a bounded number of steps whatever its clients are doing, and the address can be bound again by a new server that starts empty; a server that cannot listen exits with failure.",
  ["fault_sequences", "schedules"], "every pattern of accept failures, every instant of a signal relative to connection and command activity, repeated restarts",
  "No test starts the server.",
  ["main.go", "server/server.go"],
  [("accept loop handing connections to the serving loop", "server/server.go"), ("signal handling and listener close", "server/server.go")],
  ["service of new connections", "exit status", "the listening address"])
p("C15", "Concurrent commands never race on shared memory",
  "In no interleaving of connections do two of the server's goroutines access the same stored data, connection state, selection or log state at the same time, at least one of them writing, without synchronisation ordering the accesses. (In Go such a race may abort the whole process, as concurrent map access does, or return torn data.)",
  ["schedules"], "every interleaving of any commands, connects, disconnects and log writes",
  "The tests run one goroutine; the race detector has nothing to detect in them.",
  ["memdb/concurrentMap.go", "memdb/locks.go", "memdb/strings.go", "memdb/hash.go", "memdb/set.go", "memdb/list.go", "server/handler.go", "logger/logger.go"],
  [("key locks, segment locks, log mutex", "memdb/locks.go, memdb/concurrentMap.go, logger/logger.go")],
  ["happens-before analysis of every shared access in simulated schedules"])
p("C16", "A command answered with an error changes nothing",
  "A command that replies with an error (wrong type, wrong number of arguments, unparsable or out-of-range number, bad option, unknown command) leaves every key, value, type and expiry exactly as it was, and concurrent connections never see it half applied. A command applied to a key of another type always fails, except those that replace or handle any type (SET, MSET, SETEX, DEL, RENAME, EXPIRE, the destination of a STORE form and the like).",
  ["inputs", "histories", "schedules"], "every failing command in every state, interleaved with successful ones",
  "The tests contain no failing command apart from EXPIRE on a missing key.",
  ["memdb/strings.go", "memdb/list.go", "memdb/hash.go", "memdb/set.go", "memdb/keys.go"],
  [("arguments and type checked before the first mutation", "each command in memdb")],
  ["full dump (type, value, expiry) before and after each failing command", "replies of concurrent connections"])
p("C17", "No ghost keys: an emptied list, hash or set ceases to exist",
  "A list, hash or set that loses its last element through any command, or would be created or stored empty, does not exist afterwards: EXISTS, TYPE, KEYS, TTL and every typed command agree that the key is absent, and a value later created under that name starts without the old expiry. Conversely a key with at least one element exists.",
  ["histories", "schedules", "inputs"], "every sequence of removals, moves, stores and failed creations on every collection type, concurrently or not",
  "No test empties a collection and looks at the key afterwards.",
  ["memdb/list.go", "memdb/hash.go", "memdb/set.go", "memdb/memdb.go"],
  [("key and expiry deleted when the collection becomes empty", "memdb/list.go, memdb/hash.go, memdb/set.go")],
  ["EXISTS/TYPE/KEYS/TTL and typed reads of every key after every step"])
p("C18", "Results do not depend on the sharding configuration",
  "The replies to any sequence of commands, at any passage of time, are the same for every segment count and database count the server is started with (as far as the databases used exist); keys that share a segment or a lock behave like keys that do not, also within one command.",
  ["configurations", "histories"], "every positive segment count from one to thousands, every database count, every sequence of commands over colliding and non-colliding keys",
  "All tests use 100 segments, where their few keys never collide.",
  ["memdb/concurrentMap.go", "memdb/locks.go", "memdb/memdb.go", "config/config.go"],
  [("key to segment and key to lock mapping", "memdb/concurrentMap.go, memdb/locks.go")],
  ["transcripts of the same workload under different configurations"])
p("C19", "The log is complete, ordered, filtered and survives restart and disk faults",
  "Every message logged at or above the configured level appears in the log file exactly once, on one unbroken line carrying its own level, in the order its goroutine logged it, and messages below the level do not appear, whatever goroutines log concurrently. Lines written before a crash or restart are still there, unaltered, afterwards; failing or short log writes never stop the server from serving, and logging resumes when the disk recovers.",
  ["schedules", "crash_points", "fault_sequences"], "every interleaving of logging goroutines, every crash and restart point, every failing or short write of the log file",
  "The logger has no tests; interleaving, restart and disk faults cannot be reached from the others.",
  ["logger/logger.go", "main.go"],
  [("prefix and line written under one mutex", "logger/logger.go"), ("log file opened at start", "logger/logger.go Init")],
  ["content of the simulated log file across restarts", "replies on the client connections"])
p("C20", "A configuration file is applied completely or the server does not start",
  "For every configuration file, read in whatever pieces and with a read error at whatever point, the server either starts with exactly the settings in the file (defaults and flags for the rest) or exits with failure; it never hangs, crashes or runs with part of the file. Layout such as blank lines, indentation, letter case of names, a missing or present final newline, and unknown names does not change the outcome.",
  ["fault_sequences", "inputs", "configurations"], "every file content and layout, every chunking of its reads and every position of a read error",
  "The one config test reads one fixed file from a healthy disk, and does not pass.",
  ["config/config.go", "main.go"],
  [("line-by-line parse with error propagation", "config/config.go ParseConfFile"), ("exit on configuration error", "main.go")],
  ["listening address", "log location and level", "number of databases", "exit status"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
