#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (and checks the ids). Edit here, then run."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": hook,
        },
    })

CLIENT = "replies read by a client on a TCP connection to the server process"
DICT = ("keyspace", "key to value map of one database", "memdb/memdb.go MemDb.dict")
EXP = ("deadlines", "key to expiry deadline map of one database", "memdb/memdb.go MemDb.expires")
LOCKS = ("key locks", "striped reader/writer locks serialising commands on a key", "memdb/locks.go LocksManager")
CLOCK = "virtual clock and lock-event perturbation, injected by a build overlay of the standard library's time and sync packages (no change in /repo)"

prop("C01", "String commands reply and store exactly what Redis specifies",
 "For every sequence of string commands from one client (SET with all its options, GET, GETRANGE, SETRANGE, MGET, MSET, SETEX, SETNX, STRLEN, INCR, INCRBY, DECR, DECRBY, INCRBYFLOAT, APPEND), every reply and every value read back afterwards is the one documented for the Redis command, for arbitrary binary keys and values and for every index, offset or increment in the 64-bit range. "
 "Integer arithmetic is exact: an operation whose operand is not an integer or whose result does not fit in 64 bits is refused and changes nothing.",
 ["inputs", "histories"], "all sequences of string commands with arbitrary byte-string arguments and 64-bit integers",
 "The string tests issue two or three fixed commands per command name; option combinations, boundary offsets, overflow, missing keys and longer histories are never run.",
 ["memdb/strings.go"], [("string command executors", "memdb/strings.go")], [DICT], [CLIENT], CLOCK)

prop("C02", "List commands behave as operations on one ordered sequence",
 "For every sequence of list commands from one client (LPUSH, RPUSH, LPUSHX, RPUSHX, LPOP, RPOP, LLEN, LINDEX, LSET, LINSERT, LRANGE, LTRIM, LREM, LPOS, LMOVE), replies and contents are those of the documented Redis operation on a plain sequence of byte strings: order, duplicates and length are preserved, negative and out-of-range positions follow the Redis conventions, and counts, directions, RANK, COUNT and MAXLEN select exactly the documented elements. "
 "Walking a list from either end, by index, by range or by popping always yields the same sequence.",
 ["inputs", "histories"], "all sequences of list commands, all 64-bit indexes and counts, all list lengths",
 "Only LPOS and LREM have a test, on one six-element list each; LINSERT, LMOVE, LTRIM, LSET, pops and pushes are never executed by a test.",
 ["memdb/list.go", "memdb/list_struct.go"], [("list executors", "memdb/list.go"), ("doubly linked list with length counter", "memdb/list_struct.go")], [("list", "linked nodes between two sentinels plus a length", "memdb/list_struct.go List")], [CLIENT])

prop("C03", "Hash commands behave as operations on one field-to-value map",
 "For every sequence of hash commands from one client (HSET, HMSET, HSETNX, HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN, HEXISTS, HSTRLEN, HDEL, HINCRBY, HINCRBYFLOAT), replies and contents are those of the documented Redis operation on a map from binary field to binary value; the views given by different commands agree with each other at all times. "
 "HINCRBY is exact in 64 bits and is refused, without effect, on a non-integer field or on overflow.",
 ["inputs", "histories"], "all sequences of hash commands with arbitrary byte-string fields and values",
 "No test executes any hash command.",
 ["memdb/hash.go", "memdb/hash_struct.go"], [("hash executors", "memdb/hash.go"), ("field map", "memdb/hash_struct.go")], [("hash", "map from field to bytes", "memdb/hash_struct.go Hash")], [CLIENT])

prop("C04", "Set commands compute exact set membership and algebra",
 "For every sequence of set commands from one client (SADD, SREM, SCARD, SISMEMBER, SMEMBERS, SMOVE, SUNION, SINTER, SDIFF and their STORE forms), replies and contents are those of mathematical sets of byte strings: added and removed counts are exact, union, intersection and difference treat a missing key as the empty set whatever its position, and a STORE form replaces the destination by exactly the result, even when the destination is also an operand. "
 "Computing a union, intersection or difference never alters its operands.",
 ["inputs", "histories"], "all sequences of set commands over any number of keys, including repeated and missing keys",
 "Only Set.Difference is tested, on two hand-made sets; no set command is executed by a test.",
 ["memdb/set.go", "memdb/set_struct.go"], [("set executors", "memdb/set.go"), ("set algebra", "memdb/set_struct.go")], [("set", "map of members", "memdb/set_struct.go Set")], [CLIENT])

prop("C05", "DEL, EXISTS, TYPE and RENAME keep one consistent keyspace",
 "After any single-client history over keys of all types, EXISTS, TYPE, KEYS and each type's own read commands agree on which keys exist, their type and their contents. "
 "DEL removes exactly the named keys and returns how many it removed; RENAME moves value, type and remaining time to live to the new name, replacing whatever was there, and fails without effect if the source does not exist. "
 "A key created again after DEL, RENAME or expiry starts afresh, inheriting neither contents nor time to live.",
 ["inputs", "histories"], "all histories mixing commands of all types on the same keys",
 "The key tests store Go strings directly in the map with one key per test and never mix types, re-create keys or look at the time to live after RENAME.",
 ["memdb/keys.go", "memdb/memdb.go", "memdb/concurrentMap.go"], [("key executors", "memdb/keys.go"), ("segmented map", "memdb/concurrentMap.go")], [DICT, EXP], [CLIENT], CLOCK)

prop("C06", "A command answered with an error changes nothing",
 "Every request that cannot be carried out - unknown command, wrong number of arguments, malformed or out-of-range argument, unknown or conflicting option, or a key holding another type - is answered with an error reply, and after an error reply every key, value, type and time to live is exactly what it was before. "
 "In particular a command for one type never reads, converts or destroys a value of another type, except those documented to replace any value (SET, MSET, SETEX, RENAME's target, STORE destinations), and command and option names are recognised in any letter case.",
 ["inputs", "histories"], "all invalid requests against all keyspace states",
 "No test sends a wrong-type, wrong-arity or malformed command, let alone compares the database before and after.",
 ["memdb/strings.go", "memdb/list.go", "memdb/hash.go", "memdb/set.go", "memdb/keys.go", "server/handler.go"], [("argument and type checks before mutation", "memdb/*.go executors"), ("command table lookup", "server/handler.go ExecCommand")], [DICT, EXP], [CLIENT])

prop("C07", "A list, hash or set that becomes empty ceases to exist",
 "Whenever the last element of a list, hash or set is removed, by whatever command (pops, LREM, LTRIM, LMOVE, HDEL, SREM, SPOP, SMOVE, a STORE form with an empty result), the key is gone: EXISTS returns 0, TYPE returns none, KEYS omits it, its time to live is forgotten and any type may be stored under the name. "
 "No command, successful or failed, ever leaves behind or creates an empty collection.",
 ["inputs", "histories"], "all histories that create and drain collections, including failing commands on missing keys",
 "No test drains a collection through a command and then looks at the key.",
 ["memdb/list.go", "memdb/hash.go", "memdb/set.go"], [("delete-if-empty on every removing path", "memdb/list.go, memdb/hash.go, memdb/set.go")], [DICT, EXP], [CLIENT])

prop("C08", "KEYS returns exactly the keys its glob pattern matches",
 "For every pattern built from literal bytes, ?, *, [set], [^set] and [a-z] ranges and every set of existing keys, KEYS returns each matching key exactly once and no other key, where ? matches any one byte, * any run of bytes including none, and a bracket one byte in (or, with ^, not in) the set. "
 "Every other pattern, however malformed, still gets an array reply containing only existing keys, each at most once.",
 ["inputs"], "all byte-string patterns against all byte-string keys",
 "The pattern test tries about twenty pattern and string pairs; combinations such as a star followed by a wildcard or bracket are not among them.",
 ["util/util.go", "memdb/keys.go"], [("recursive glob matcher", "util/util.go PattenMatch"), ("key listing", "memdb/keys.go keysKey")], [DICT], [CLIENT])

prop("C09", "An expired key is invisible, and no key expires early",
 "A key given a time to live (EXPIRE, SETEX, SET EX/PX/EXAT/PXAT) is fully visible to every command until that time has elapsed and is never visible to any command once one further second has passed; once seen as expired it stays gone until it is written again. "
 "Every command of every type treats an expired key exactly as a key that does not exist, in every argument position.",
 ["inputs", "histories", "schedules"], "all commands, all argument positions, all times relative to the deadline",
 "The tests check the stored deadline right after EXPIRE or SETEX; none lets a key expire.",
 ["memdb/memdb.go", "memdb/keys.go", "memdb/strings.go", "memdb/list.go", "memdb/hash.go", "memdb/set.go"], [("lazy deletion before each access", "memdb/memdb.go DeleteExpiredKey")], [DICT, EXP], [CLIENT], CLOCK)

prop("C10", "A time to live changes only when a command says so",
 "TTL reports -2 for a missing key, -1 for a key without a time to live and otherwise the remaining seconds; EXPIRE with none, NX, XX, GT or LT sets the deadline exactly when documented (no time to live counts as infinite for GT and LT), and PERSIST returns 1 only when it removed one. "
 "Plain SET, MSET and STORE forms discard the previous time to live, SETEX and SET with an expiry option replace it, SET KEEPTTL and every in-place modification keep it, RENAME transfers it, and a conditional SET that does not set leaves it alone.",
 ["inputs", "histories"], "all histories of commands on keys with and without a time to live",
 "Tests cover EXPIRE with NX and XX once each and PERSIST once; no test checks the time to live after modifying, overwriting or conditionally setting a key.",
 ["memdb/keys.go", "memdb/strings.go", "memdb/memdb.go"], [("deadline bookkeeping", "memdb/memdb.go SetExpire, DeleteExpire"), ("SET options", "memdb/strings.go setString")], [EXP], [CLIENT], CLOCK)

prop("C11", "Commands on one key are linearizable across connections",
 "For every interleaving of commands issued by concurrent connections on one key of any type, there is a total order of the commands, consistent with the real-time order of request and reply, in which every reply is the one the sequential command would give. "
 "In particular concurrent increments, appends, pushes, SETNX, HSETNX, HINCRBY and SADD never lose an update, and at most one of several competing SETNX, HSETNX or SET NX wins.",
 ["schedules", "histories"], "all interleavings of any number of connections on one key",
 "All tests are single-threaded.",
 ["memdb/locks.go", "memdb/strings.go", "memdb/list.go", "memdb/hash.go", "memdb/set.go", "memdb/concurrentMap.go"], [("per-key lock held across read-modify-write", "memdb/locks.go, all executors")], [LOCKS, DICT], [CLIENT + ", with call and return times"], CLOCK)

prop("C12", "Multi-key commands are atomic to every observer",
 "A command that touches several keys (MSET, MGET, DEL, EXISTS, RENAME, LMOVE, SMOVE, SUNION, SINTER, SDIFF and their STORE forms) takes effect, and observes all its keys, at one instant between its request and its reply. "
 "No concurrent command, single- or multi-key, ever sees some of its keys updated and others not, whatever keys are shared and in whatever order they are named.",
 ["schedules", "histories"], "all interleavings of multi-key and single-key commands over overlapping key sets",
 "All tests are single-threaded and MSET is the only multi-key writer tested.",
 ["memdb/locks.go", "memdb/strings.go", "memdb/keys.go", "memdb/list.go", "memdb/set.go"], [("ordered multi-lock over all keys of the command", "memdb/locks.go MLock, MRLock")], [LOCKS], [CLIENT + ", with call and return times"], CLOCK)

prop("C13", "Concurrent moves, pops and counters lose and duplicate nothing",
 "With any number of connections pushing, popping and moving elements between lists (LPUSH, RPUSH, LPOP, RPOP with and without count, LMOVE, RENAME) and sets (SADD, SPOP, SMOVE, SREM), every element ever added is at the end either held exactly once or was handed out exactly once, and elements one producer pushed at one end come out of the other end in the order it pushed them. "
 "Concurrent INCRBY, DECRBY, HINCRBY and APPEND add up exactly.",
 ["schedules", "histories"], "all concurrent workloads of producers, consumers and movers",
 "All tests are single-threaded; pops and moves are not tested at all.",
 ["memdb/list.go", "memdb/set.go", "memdb/strings.go", "memdb/hash.go", "memdb/locks.go"], [("exclusive key locks around structural changes", "memdb/list.go, memdb/set.go")], [LOCKS], [CLIENT], CLOCK)

prop("C14", "Removing an expired key never destroys a newer write",
 "When several connections touch a key whose time to live has run out, the outcome is as if the key had vanished at its deadline and the commands had then run one after another on a missing key: every write acknowledged after the deadline survives, with the contents and time to live it was given, no matter which other commands notice the expiry at the same moment. "
 "The same holds when the key is given a new time to live, persisted, renamed over or re-created concurrently.",
 ["schedules", "histories"], "all interleavings of commands on keys past their deadline",
 "No test lets a key expire and none is concurrent.",
 ["memdb/memdb.go", "memdb/keys.go"], [("lazy deletion under the key lock", "memdb/memdb.go DeleteExpiredKey")], [EXP, LOCKS], [CLIENT + ", with call and return times"], CLOCK)

prop("C15", "No data race among concurrently served connections",
 "Whatever commands any number of connections send at the same time, including connecting, disconnecting, SELECT and KEYS, the server never accesses shared memory from two goroutines without synchronisation when one of them writes. "
 "Replies are built from data no other connection can be modifying.",
 ["schedules", "inputs"], "all pairs of commands on the same and on different keys, and connection set-up and tear-down",
 "No test starts a second goroutine on the database, and the suite is not run with the race detector.",
 ["memdb/concurrentMap.go", "memdb/locks.go", "memdb/strings.go", "server/handler.go", "server/server.go", "logger/logger.go"], [("segment locks and key locks", "memdb/concurrentMap.go, memdb/locks.go"), ("log mutex", "logger/logger.go")], [LOCKS, DICT], ["Go race detector reports of the server process"], CLOCK)

prop("C16", "Every command completes: no deadlock, no runaway execution",
 "Every well-formed request on an open connection is answered after a finite amount of work proportional to its data, whatever other connections are doing: commands naming overlapping keys in any order, repeated keys or the same key as source and destination never block one another for good, and no command leaves a key unusable for later commands, also when it fails. "
 "This holds for every database size and number of segments, down to one.",
 ["schedules", "inputs", "configurations"], "all concurrent workloads, all repetitions and orders of keys, all lock collisions",
 "No test holds two keys at once from two goroutines or uses a small segment count.",
 ["memdb/locks.go", "memdb/list_struct.go", "memdb/memdb.go"], [("locks taken in sorted, de-duplicated order and released on every path", "memdb/locks.go getSortedLocks")], [LOCKS], [CLIENT, "CPU time, thread states and goroutine dump of the server process"], CLOCK)

prop("C17", "One reply per request, in order, however the bytes arrive",
 "For every sequence of requests a client sends, split into TCP segments at any byte boundaries, with pauses of any length between them, and pipelined to any depth, the server executes each request exactly once in the order sent and returns exactly one reply per request in that order. "
 "Arguments are binary safe and arbitrary in number: any bytes, including CR, LF, NUL and RESP markers, any length from empty to megabytes, arrive and come back unchanged.",
 ["inputs", "histories"], "all request sequences, all segmentations, all pipeline depths, all argument bytes",
 "The parser test feeds complete messages from one in-memory reader; nothing is split, pipelined or sent through a connection.",
 ["resp/parser.go", "server/handler.go", "resp/data.go"], [("stream parser", "resp/parser.go"), ("per-connection handler loop", "server/handler.go Handle")], [("parse state", "partial array and pending bulk length", "resp/parser.go readBuffer")], ["bytes sent and received on a TCP connection"])

prop("C18", "RESP values survive encoding and decoding unchanged",
 "For every simple string, error, integer, bulk string, null bulk, empty array, null array and flat array of these, decoding the encoding yields the same kind and content, for any way the bytes are split on arrival and any sequence of values on one stream. "
 "Every reply the server sends is one well-formed RESP value, also when it quotes bytes chosen by the client.",
 ["inputs"], "all RESP values and sequences of them, all chunkings; all request contents",
 "The codec tests decode a dozen literal messages and never re-encode.",
 ["resp/data.go", "resp/parser.go", "server/handler.go"], [("encoders", "resp/data.go ToRedisFormat"), ("decoder", "resp/parser.go ParseStream")], [], ["values returned by the decoder for the encoder's output", "bytes received on a TCP connection"])

prop("C19", "No byte stream from a client can take the server down",
 "Whatever bytes a client sends - malformed, truncated, oversized or contradictory protocol headers, null or nested elements, empty requests, any command with any arguments, short of filling the memory - the server process keeps running, the data of other clients is untouched and other connections keep being served. "
 "A stream that is not valid RESP leads at most to an error reply or to that one connection being closed, and executes nothing the client did not send.",
 ["inputs", "fault_sequences"], "all byte streams, cut off at any point",
 "No test sends malformed input to the server; the parser tests contain one malformed header.",
 ["resp/parser.go", "server/handler.go", "memdb/strings.go", "memdb/hash.go", "memdb/set.go", "util/util.go"], [("protocol checks", "resp/parser.go"), ("argument checks", "memdb executors")], [], ["liveness of the process and replies on independent witness connections"])

prop("C20", "Connections are independent and release everything when they end",
 "A client that is idle, slow, stalls in the middle of a request, never reads its replies or disconnects at any byte never delays or alters what other clients observe. "
 "However a connection ends - closed cleanly, reset, cut in mid-request or after a protocol error - its socket and all its goroutines are released, so any number of past connections leaves the server's resource use where it started.",
 ["fault_sequences", "schedules"], "all disconnection points, all numbers of connections, all client stalls",
 "No test opens a connection.",
 ["server/handler.go", "server/server.go", "resp/parser.go"], [("handler returns and closes on error, parser goroutine ends with its stream", "server/handler.go, resp/parser.go")], [("parser goroutine", "one per connection, feeds the handler through a channel", "resp/parser.go ParseStream")], ["open file descriptors and goroutines of the server process", CLIENT])

prop("C21", "SELECT is per connection and databases are isolated",
 "Each connection works on database 0 until its own SELECT succeeds and then on exactly the database it selected; SELECT on one connection never affects another. "
 "Commands on one database never read or change keys of another, and SELECT accepts exactly the indexes 0 to the configured number of databases minus one, answering anything else with an error and leaving the selection as it was.",
 ["schedules", "inputs", "configurations"], "all interleavings of SELECT and commands on several connections, all database counts",
 "No test exercises SELECT or more than one connection.",
 ["server/handler.go"], [("database selection", "server/handler.go Select")], [("selected database", "database the connection's commands run on", "server/handler.go Manager.db")], [CLIENT])

prop("C22", "KEYS is exact for keys that are stable while it runs",
 "While other connections create, delete, rename and expire keys, each KEYS reply lists every matching key that exists throughout the call, lists no key that never existed during the call, and lists no key twice. "
 "The listing never fails, whatever the number of keys and the write load.",
 ["schedules", "histories"], "all interleavings of KEYS with creating and deleting commands",
 "The KEYS test lists three keys with nothing running concurrently.",
 ["memdb/concurrentMap.go", "memdb/keys.go"], [("segment by segment listing", "memdb/concurrentMap.go Keys")], [("key count", "number of keys in the map", "memdb/concurrentMap.go count")], [CLIENT], CLOCK)

prop("C23", "Configuration takes effect as written or start-up is refused",
 "For every configuration given by flags and configuration file, a setting in the file overrides the flag and a setting absent from the file keeps its flag or default value; listening address and port, number of databases, log directory and log level are those configured. "
 "Any file that is unreadable, lacks a value or carries an invalid one makes the process report it and exit with a failure status instead of crashing, hanging or starting with something else; blank lines, a missing or present final newline, extra spaces and letter case of the names do not matter.",
 ["configurations", "inputs"], "all combinations of flags and configuration file contents",
 "The one configuration test reads one file (and does not pass); flags, precedence, defects in the file and the effect on the running server are untested.",
 ["config/config.go", "main.go", "server/server.go", "logger/logger.go"], [("flag and file parsing", "config/config.go Init, ParseConfFile")], [("Conf", "effective configuration", "config/config.go")], ["listening sockets, exit status, SELECT range and log file of the server process"])

prop("C24", "The log keeps every event once, whole, at the configured level",
 "For any number of concurrent connections, redis.log in the configured directory contains one line for every connection opened and one for every connection its client closed cleanly, each line whole and carrying its level, and none below the configured level. "
 "Neither ending the server, by a signal it handles or a kill, nor starting it again on the same directory loses any line.",
 ["schedules", "configurations"], "all concurrent connection histories, all log levels, restarts",
 "The logger has no test.",
 ["logger/logger.go", "server/server.go", "server/handler.go"], [("log mutex and level filter", "logger/logger.go")], [("logger", "shared writer with a mutable prefix", "logger/logger.go")], ["contents of redis.log"])

prop("C25", "SIGINT and SIGTERM stop the server cleanly in any state",
 "Whenever SIGINT or SIGTERM arrives - idle, with connected, stalled or busy clients, or under load - the process stops accepting connections and exits with status 0 without a crash, and the port can be bound again at once. "
 "If it cannot listen on its address in the first place it exits with a failure status.",
 ["schedules", "fault_sequences"], "all arrival times of the signal relative to client activity",
 "No test starts the server.",
 ["server/server.go", "main.go"], [("signal channel and deferred listener close", "server/server.go Start")], [], ["exit status and listening socket of the server process"])

prop("C26", "Behaviour does not depend on segment count or number of keys",
 "For every configured number of segments from one upwards and any number of keys, the same request sequence gives the same replies: every stored key is found again with its own value, keys whose hashes collide in a segment or lock never mix, and counting, listing and deleting stay exact as the keyspace grows and shrinks.",
 ["configurations", "inputs"], "all segment counts, all key populations",
 "Tests use one segment count and at most three keys.",
 ["memdb/concurrentMap.go", "memdb/locks.go", "util/util.go"], [("hash modulo segment count", "memdb/concurrentMap.go getKeyPos, memdb/locks.go GetKeyPos")], [("segments", "one locked map per segment", "memdb/concurrentMap.go segment")], [CLIENT])

prop("C27", "A reply never shows a torn or later-modified value",
 "Every value in a reply is, byte for byte, a value the key (or element or field) held at one instant between request and reply, however large it is and however many connections are overwriting, appending to or patching it meanwhile. "
 "In particular a reader never sees bytes of two different writes mixed except as a write itself defined them, and modifying a key never changes the value of another key or element that was set from, or read as, the same data.",
 ["schedules", "histories"], "all concurrent readers and in-place writers on large values",
 "Tests are single-threaded and use values of a few bytes.",
 ["memdb/strings.go", "server/handler.go", "resp/data.go"], [("values are replaced, not modified, after they can be referenced by a reply", "memdb/strings.go")], [DICT], [CLIENT], CLOCK)

prop("C28", "Random-selection commands return only valid picks",
 "SPOP, SRANDMEMBER and HRANDFIELD return only current members or fields; a positive count returns that many distinct ones (or all if fewer), a negative count returns exactly its absolute value, possibly repeating, WITHVALUES pairs every field with its own value, and the reply is a single value exactly when no count was given. "
 "SPOP removes exactly what it returns, the others remove nothing, every member can be picked, and members may be any bytes, including the empty string.",
 ["inputs", "histories"], "all sets and hashes, all counts",
 "No test executes any of these commands.",
 ["memdb/set.go", "memdb/set_struct.go", "memdb/hash.go", "memdb/hash_struct.go"], [("random picks by map iteration", "memdb/set_struct.go Random, Pop; memdb/hash_struct.go Random, RandomWithValue")], [], [CLIENT])

assert len({p["id"] for p in P}) == len(P)
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
