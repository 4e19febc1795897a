#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- protocol
p("C01", "Request decoding is total and safe on arbitrary bytes",
  "For every byte sequence a client can send, decoding one request ends with either a complete request or an error: it never panics, never reports success without a request, and never recurses without bound. The memory set aside for one argument and the number of nested levels are limited by fixed constants, whatever lengths the client declares.",
  ["inputs"], "all byte sequences, however split or truncated",
  "decode_test.go decodes four well-formed messages; the space of malformed headers, lengths, truncations and nestings is unbounded.",
  ["protocol/decode.go", "protocol/consts.go"],
  [("DecodeFromReader / readArray / readBulkStrings", "protocol/decode.go"), ("header length parsing", "protocol/decode.go:readBulkOrArrayLength")],
  observe=["return values of protocol.DecodeFromReader"])
p("C02", "Decoded arguments are exactly the bytes the client sent",
  "Each argument of a decoded request is exactly the payload the client framed: a bulk argument has precisely its declared number of bytes, all of them received and followed by CRLF, and arguments keep their order. Input that is cut short or whose framing does not match is reported as an error, never padded, shortened or guessed.",
  ["inputs", "fault_sequences"], "all request byte streams and all ways a stream can be split into reads or cut off",
  "Tests feed each message whole through a bytes.Buffer that always fills the destination, so short reads and lying lengths never happen.",
  ["protocol/decode.go", "protocol/api.go"],
  [("readBulkStrings", "protocol/decode.go"), ("readArray", "protocol/decode.go"), ("decodeSingleLine", "protocol/decode.go")],
  observe=["Receive.Elements"])
p("C03", "Every reply is one well-formed RESP value",
  "Whatever the stored data, every reply sent is exactly one well-formed RESP value: array counts and bulk length prefixes equal what follows them, lines end in CRLF, and encoding never panics. Client- or keyspace-supplied text is only ever sent in length-prefixed bulk form, never inside a status or error line.",
  ["inputs", "histories"], "every command, every stored value type, every reply path",
  "No test encodes a reply built from stored data; a wrong payload type or a raw CR/LF only shows for particular data histories.",
  ["protocol/encode.go", "redis/*.go", "event/handler.go"],
  [("ResponseItem.encode", "protocol/encode.go"), ("reply constructors", "protocol/encode.go"), ("handlers building replies", "redis/*.go")],
  observe=["bytes written to the connection"])
# ---------------------------------------------------------------- serving
p("C04", "Every received request is executed and answered exactly once",
  "Every complete request received on a connection, including several arriving in one read or one request split across reads, is handed to the executor exactly once and its reply, produced from that request, is written back to that same connection exactly once, in request order. A request that cannot be decoded is never executed.",
  ["schedules", "inputs", "histories"], "all chunkings of the inbound stream, all interleavings of pool tasks",
  "The e2e test sends one message per connection in one write and reads one reply.",
  ["server/v2/server.go", "event/handler.go", "server/v1/server.go"],
  [("Server.React", "server/v2/server.go"), ("HandleRequest", "event/handler.go")],
  observe=["conn.AsyncWrite / conn.Write"])
p("C05", "Commands execute one at a time over the shared data",
  "No two commands ever run concurrently: stored data is read or written only by the command currently being executed, and the next command starts only after the previous one finished, whatever the number of connections. In particular data is never touched from connection, timeout or shutdown code.",
  ["schedules", "configurations"], "all interleavings of connections, timeouts, start-up preloading and shutdown, in every build configuration",
  "No test drives concurrent clients; a violation is a race that appears only under particular schedules.",
  ["event/event_pool.go", "event/worker.go", "event/handler.go", "redis/command.go", "cmd/server/main.go", "lib/shard_map/shard_map.go"],
  [("single worker", "event/event_pool.go:startWorker"), ("worker waits for the result", "event/worker.go:run"), ("ExecuteAsync", "redis/command.go")],
  state=[("keyspace", "unsynchronised maps shared by all commands", "datastruct/keys.go:defaultCache")])
p("C06", "A failing command cannot take the server down or go unanswered",
  "Whatever a command does while executing, including panicking, the server process keeps running, the executor goes on to the next command, and the waiting client receives a reply (an error reply if the command failed). Every wait for a command's completion ends.",
  ["inputs", "fault_sequences", "schedules"], "every command outcome: result, error, nil result, panic, expired deadline",
  "No test makes a handler panic or time out.",
  ["redis/command.go", "event/worker.go", "event/handler.go"],
  [("ExecuteAsync result hand-off", "redis/command.go"), ("worker loop", "event/worker.go"), ("deadline select", "event/handler.go")])
p("C07", "Shutdown loses no accepted request and cannot deadlock or panic",
  "Stopping the server, which SIGINT or SIGTERM sent to the process does too, ends every worker, every request accepted by the executor before shutdown is still executed and answered, stopping more than once is harmless, and requests that arrive during or after shutdown are refused rather than crashing the process.",
  ["schedules", "histories"], "all interleavings of in-flight requests with shutdown",
  "The e2e test stops an idle server once.",
  ["event/event_pool.go", "event/worker.go", "server/v2/server.go", "server/v1/server.go", "cmd/server/main.go"],
  [("EventPool.Stop", "event/event_pool.go"), ("worker.run drain", "event/worker.go"), ("OnShutdown", "server/v2/server.go")])
# ---------------------------------------------------------------- dispatch
p("C08", "Every documented command name reaches its own implementation",
  "Each supported command name, in any letter case, is dispatched to the one handler that implements it; no handler is left unregistered, no two names or handlers collide, and any other name yields an unknown-command error without touching data. The handler receives exactly the arguments that followed the name.",
  ["inputs", "programs"], "all command names and letter cases; all handlers in the package",
  "Tests never go through the command table except for one malformed e2e message.",
  ["redis/command.go", "redis/*.cmd.go", "redis/*.go", "cmd/gen_redis_cmd/main.go"],
  [("implementedCommands", "redis/*.cmd.go"), ("NewCommandFromReceive", "redis/command.go"), ("ExecuteAsync lookup", "redis/command.go")])
p("C09", "Too few or badly formed arguments give an error and change nothing",
  "For every command and every argument list, a missing, surplus-paired (odd field/value lists) or non-numeric argument where one is required produces an error reply with no effect on stored data; a handler never reads an argument the client did not supply.",
  ["inputs"], "all commands with all argument counts and contents",
  "No handler has a test; argument counts below, at and above each bound are never exercised.",
  ["redis/keys.go", "redis/string.go", "redis/list.go", "redis/set.go", "redis/sorted_set.go", "redis/hash_table.go"],
  [("len(c.Values) guards", "redis/*.go"), ("strconv parse guards", "redis/*.go")])
# ---------------------------------------------------------------- keyspace discipline
p("C10", "A command never mistakes one kind of value for another",
  "A command applied to a key holding a different kind of value always answers with a type error, leaves that value unchanged and never panics; conversely the kind recorded for a key always matches the value stored under it, and TYPE reports the kind by its Redis name.",
  ["inputs", "histories"], "every command against every key kind, after every history of writes",
  "Data structure tests build containers directly and never mix kinds under one key.",
  ["datastruct/keys.go", "datastruct/*.go", "datastruct/consts.go"],
  [("loadKeyInfo type check", "datastruct/keys.go"), ("KeyInfo construction", "datastruct/*.go")],
  state=[("KeyInfo", "kind tag plus value", "datastruct/keys.go")])
p("C11", "A command touches only the keys named in its arguments",
  "Every key a command looks up, creates, changes or deletes is one of the arguments that the command defines as key positions, used unmodified; no other key is read or written, and members, fields, values, indexes or counts are never used as keys.",
  ["inputs"], "all commands, all argument values",
  "No test runs handlers, so an argument passed in the wrong position goes unnoticed.",
  ["redis/*.go", "datastruct/*.go"],
  [("c.Values positions", "redis/*.go"), ("defaultCache.keys accesses", "datastruct/*.go")])
p("C12", "Read commands never change stored data",
  "Commands that only query (GET, MGET, EXISTS, TYPE, KEYS, LLEN, LRANGE, LINDEX, SCARD, SMEMBERS, SISMEMBER, SDIFF, SINTER, SUNION, HGET and the other H-queries, ZSCORE, ZRANK, ZCARD, ZCOUNT, Z-ranges) leave every stored key, value, member, order and count exactly as it was; the source keys of the *STORE commands are likewise unchanged.",
  ["inputs", "histories"], "every query command on every state",
  "Tests look at the answer of a query, never at the state it leaves behind.",
  ["datastruct/*.go", "lib/shard_map/shard_map.go"],
  [("query functions", "datastruct/*.go"), ("set algebra on shared operands", "datastruct/set.go")])
p("C13", "A command that replies with an error has changed nothing",
  "Whenever a command's reply is an error, the stored data is exactly what it was before the command: no key created, no member removed, no value or counter altered.",
  ["inputs", "histories"], "every command, every state, every error path (MSET-like loops included)",
  "Error paths of the commands are untested, let alone the state they leave.",
  ["datastruct/*.go", "redis/*.go"],
  [("checks before mutations", "datastruct/*.go"), ("SMove two-key check", "datastruct/set.go")])
p("C14", "An acknowledged write is stored under its key",
  "When a write command succeeds, its effect is in the data later commands see: a newly created value is installed under its key with the right kind, the value written is the one given, and nothing a successful command built or changed for the key is left detached.",
  ["inputs", "histories"], "every write command on absent and present keys",
  "Tests call container methods on containers they created themselves, so a container never installed under its key is invisible to them.",
  ["datastruct/*.go"],
  [("create-and-install paths", "datastruct/*.go:LPush,SAdd,HSet,HIncrBy,ZAdd,ZIncr,Set,IncrBy,Append")])
p("C15", "Distinct keys never share storage",
  "Each stored value belongs to exactly one key: after any command, changing the value of one key can never change another key's value, and no stored container is reachable through two keys.",
  ["histories", "inputs"], "all command histories, including the *STORE commands with one or many sources and source equal to destination",
  "No test runs a *STORE command and then changes one side.",
  ["datastruct/set.go", "datastruct/*.go"],
  [("SDiffStore / SInterStore / SUnionStore result", "datastruct/set.go")])
p("C16", "A collection emptied by removals no longer exists",
  "When the last element of a list, set, hash or sorted set is removed, the key is gone: EXISTS reports 0, TYPE reports none, KEYS omits it, and the key can be reused for any kind of value; a command never leaves an empty collection stored.",
  ["histories"], "all histories of additions and removals",
  "Tests work on bare containers and never look at the keyspace after the last removal.",
  ["datastruct/list.go", "datastruct/set.go", "datastruct/hash_table.go", "datastruct/sorted_set.go", "datastruct/keys.go"],
  [("removal commands", "datastruct/*.go")])
# ---------------------------------------------------------------- containers
p("C17", "Set and hash sizes always equal their number of members",
  "After any history of commands, the size reported for a set or hash (SCARD, HLEN and the emptiness test every other command uses) equals the number of members actually stored; adding an existing member or removing a missing one does not change it.",
  ["histories", "inputs"], "all histories of adds, removes, pops, moves, stores and increments",
  "set_test.go is entirely commented out and hash tests never check the length; drift needs multi-step histories.",
  ["datastruct/set.go", "datastruct/hash_table.go", "lib/shard_map/shard_map.go"],
  [("set.length maintenance", "datastruct/set.go"), ("hashTable.length maintenance", "datastruct/hash_table.go")],
  state=[("length", "cached member count", "datastruct/set.go, datastruct/hash_table.go")])
p("C18", "The sorted set's lookup table and ordered index hold the same members",
  "After any history of commands every member of a sorted set is present exactly once in both its by-name lookup and its ordered index, with the same score; adding, re-scoring, removing and popping keep the two in step.",
  ["histories", "inputs"], "all histories of ZADD (all flags), ZINCR, ZREM, ZPOPMIN, ZPOPMAX",
  "Tests insert once and read; no test pops or removes and then asks by name.",
  ["datastruct/sorted_set.go"],
  [("zAdd", "datastruct/sorted_set.go"), ("ZRem / ZPopMin / ZPopMax", "datastruct/sorted_set.go")],
  state=[("zSet.m", "member -> score pointer", "datastruct/sorted_set.go"), ("zSet.zsl", "ordered index", "datastruct/sorted_set.go")])
p("C19", "Sorted sets are ordered by score, then member, everywhere",
  "Every operation on a sorted set (insert, re-score, delete, rank, score ranges) uses one and the same total order, score first and member bytes second, and searches the ordered index to the true position, so elements with equal scores are found, ranked and removed correctly; bounds given as exclusive exclude exactly the equal scores and not-a-number scores never enter.",
  ["inputs", "histories"], "all score and member orderings including ties and infinities, all tower heights",
  "Tests use six elements with distinct scores; the level of each element is random.",
  ["datastruct/sorted_set.go"],
  [("search loops", "datastruct/sorted_set.go:insert,updateScore,delete,rank"), ("score bounds", "datastruct/sorted_set.go:minScoreRank,maxScoreRank,zRangeByScore,count")])
p("C20", "Lists stay intact under every push, pop, insert and removal",
  "After any history of list commands the list read from head to tail is the exact reverse of the list read from tail to head, its length equals the number of elements, an empty list has neither head nor tail, and elements are never lost, duplicated or resurrected.",
  ["histories", "inputs"], "all histories of pushes, pops, LREM with any count, LINSERT, LSET",
  "Tests perform one removal on a fresh list and read it forwards only; they never continue using a list that a removal emptied.",
  ["datastruct/list.go"],
  [("List methods", "datastruct/list.go")],
  state=[("head/tail/length", "ends and size of the doubly linked list", "datastruct/list.go")])
p("C21", "List positions are resolved exactly",
  "LINDEX and LSET act on precisely the element at the requested offset, counting from the head for non-negative and from the tail for negative indexes, and report out-of-range for every other offset; LRANGE returns exactly the elements whose offsets lie in the clamped interval, in order.",
  ["inputs", "histories"], "all list lengths and all integer indexes",
  "A handful of index/length pairs on lists of four to six elements.",
  ["datastruct/list.go"],
  [("lIndexNode", "datastruct/list.go"), ("LRange clamping", "datastruct/list.go")])
p("C22", "Integer replies tell what actually happened",
  "The integer a command returns always equals the effect or fact it stands for: members or fields actually added or removed (SADD, SREM, SMOVE, HDEL, HSETNX, ZREM, DEL), presence (EXISTS, SISMEMBER, HEXISTS), or the current size (LPUSH, RPUSH, LLEN, SCARD, HLEN, ZCARD, S*STORE).",
  ["inputs", "histories"], "all argument lists, including duplicates and missing members, on all states",
  "Tests check one or two concrete counts on one container.",
  ["datastruct/*.go", "redis/*.go"],
  [("return counts", "datastruct/*.go"), ("NewResponseWithInteger call sites", "redis/*.go")])
p("C23", "Counters never wrap around silently",
  "INCR, INCRBY, DECR, DECRBY and HINCRBY either store and return the exact mathematical sum or reply with an out-of-range error and leave the value unchanged, for every stored value and every increment.",
  ["inputs"], "all pairs of 64-bit integers",
  "Tests add small numbers.",
  ["datastruct/string.go", "datastruct/hash_table.go", "redis/string.go"],
  [("IncrBy", "datastruct/string.go"), ("hashTable.incrBy", "datastruct/hash_table.go"), ("decrBy negation", "redis/string.go")])
p("C24", "Values are stored and returned byte for byte",
  "A value written by SET, MSET, APPEND, LPUSH/RPUSH/LSET/LINSERT, SADD, HSET/HMSET/HSETNX or as a sorted-set member is returned unchanged, byte for byte, by every command that reads it; recognising a hash value as a number never alters its text.",
  ["inputs"], "all byte strings",
  "Tests use short plain words and small canonical numbers.",
  ["datastruct/string.go", "datastruct/hash_table.go", "util/strconv.go", "redis/hash_table.go"],
  [("ConvertToValidValue", "util/strconv.go"), ("hash value formatting", "datastruct/hash_table.go, redis/hash_table.go")])
p("C25", "The sharded map behaves as one map",
  "For every key and history the sharded map is indistinguishable from a single map: each operation acts only on the entry for its key, conditional operations report presence truthfully and write only in the case they promise, and iteration visits every entry of every shard until the callback stops it.",
  ["inputs", "histories"], "all keys (hence all shards), all operation sequences and callbacks",
  "lib/shard_map has no tests at all.",
  ["lib/shard_map/shard_map.go"],
  [("GetShard", "lib/shard_map/shard_map.go"), ("Map methods", "lib/shard_map/shard_map.go")])
p("C26", "Commands on missing keys give the documented empty answer",
  "A query or removal on a key that does not exist answers with that command's empty form (nil, 0, or an empty list) and not with an internal not-found error; set algebra treats missing keys as empty sets.",
  ["inputs", "histories"], "all commands on absent keys",
  "No test runs a command against an absent key.",
  ["redis/*.go", "datastruct/*.go"],
  [("ErrNil handling", "redis/*.go")])
# ---------------------------------------------------------------- declined (runtime quantities)
p("C27", "Sorted-set ranks and index ranges name the right elements",
  "ZRANK, ZRANGE, ZREVRANGE and the pops return exactly the elements at the requested positions of the score order, for every set and every interval.",
  ["inputs", "histories"], "all sorted sets, all tower-height outcomes, all indexes",
  "Tests use one set of six elements; positions depend on span arithmetic over random tower heights.",
  ["datastruct/sorted_set.go"],
  [("span bookkeeping", "datastruct/sorted_set.go:insert,deleteNode"), ("findElementByRank", "datastruct/sorted_set.go")])
p("C28", "Concurrent clients observe a linearizable history",
  "For all concurrent client histories there is one order of all commands, consistent with real time, that explains every reply, timed-out commands included.",
  ["schedules", "histories"], "all concurrent client histories",
  "No test runs more than one client.",
  ["event/*.go", "server/v2/server.go"],
  [("single worker order", "event/worker.go")])
p("C29", "Every request is answered within its deadline",
  "A reply or a deadline error is sent within ten seconds of receipt however busy the executor is.",
  ["schedules"], "all loads and schedules",
  "Tests never load the executor.",
  ["event/handler.go"],
  [("context deadline", "event/handler.go")])
p("C30", "KEYS, DEL, EXISTS and TYPE answer for exactly the keys that are there",
  "KEYS pattern returns each existing key that the glob matcher accepts, once, and no other; DEL removes the key it names and no other and answers how many it removed; EXISTS and TYPE answer whether the key is there and what kind of value it holds.",
  ["inputs", "histories"], "all keyspaces, all keys and all patterns, relative to what the glob package matches",
  "KEYS has no test; an answer depends on every key that is stored and on the shard it lives in.",
  ["datastruct/keys.go", "redis/keys.go"],
  [("glob.Compile / Match", "datastruct/keys.go"), ("walk over the shards", "lib/shard_map/shard_map.go")])
p("C31", "Set commands name exactly the members they are defined to",
  "SADD, SREM, SMOVE and SPOP change exactly the members they name; SCARD, SISMEMBER, SMEMBERS and SDIFF, SINTER, SUNION answer, and *STORE commands store, exactly the members of the mathematical result, each once, for every combination of sets.",
  ["inputs", "histories"], "all sets, all members, all presence combinations of up to three source keys",
  "Tests fix two small sets; results depend on which members, keys and duplicates are present.",
  ["datastruct/set.go", "redis/set.go"],
  [("set algebra", "datastruct/set.go"), ("replies", "redis/set.go")])
p("C32", "Hash commands store and answer exactly the fields given",
  "Every hash command reads or changes exactly the fields it names: HSET, HMSET and HSETNX leave each field with the value given, HDEL removes the field, HINCRBY and HINCRBYFLOAT leave and answer the sum or refuse a field of another kind unchanged, and HGET, HMGET, HGETALL, HKEYS, HVALS, HLEN and HEXISTS answer with exactly what is stored.",
  ["inputs", "histories"], "all hashes, all fields and values, present or missing",
  "Tests use one hash with a handful of fields; iteration and presence cases vary with every history.",
  ["datastruct/hash_table.go", "redis/hash_table.go"],
  [("field access", "datastruct/hash_table.go"), ("replies", "redis/hash_table.go")])
p("C33", "List commands leave and answer exactly the defined elements",
  "LPUSH, RPUSH, LPOP, RPOP, LSET, LINSERT and LREM leave exactly the list they are defined to leave, and LINDEX, LRANGE, LLEN and the pops answer exactly the elements asked for, for every list, offset and count.",
  ["inputs", "histories"], "all lists within the bounded lengths, every placement of equal elements, all offsets and counts",
  "Tests use one or two short lists; errors sit at ends, duplicates, negative offsets and one-element lists.",
  ["datastruct/list.go", "redis/list.go"],
  [("linked list", "datastruct/list.go"), ("replies", "redis/list.go")])
p("C34", "Sorted-set commands keep exactly the members and scores given",
  "ZADD (with NX, XX and INCR), ZINCR and ZREM leave exactly the members and scores they are defined to leave, each member once and with one score in the table and in the ordered index alike, and ZSCORE, ZRANK and ZCARD answer from that; a member or score of nothing else changes.",
  ["inputs", "histories"], "all sorted sets, all placements of the named members among them, repeated members in one command, all flags",
  "Tests add a few distinct members; errors sit at repeated members, flags, unchanged scores and the last member removed.",
  ["datastruct/sorted_set.go", "redis/sorted_set.go"],
  [("sorted set", "datastruct/sorted_set.go"), ("replies", "redis/sorted_set.go")])
p("C35", "String commands leave and answer exactly the texts and numbers defined",
  "SET, MSET, APPEND, INCR, DECR, INCRBY and DECRBY leave exactly the text they are defined to leave under each key and no other change, GET and MGET answer exactly the stored text or nil, the counters and APPEND answer the new value or length, and keys of another kind and texts that are no numbers are refused without change.",
  ["inputs", "histories"], "all texts and numbers that do not overflow, all keys present, missing or of another kind, repeated keys in one command",
  "Tests use fresh keys and short values; errors sit at keys of other kinds, missing keys in the middle and texts that are no numbers.",
  ["datastruct/string.go", "redis/string.go"],
  [("strings", "datastruct/string.go"), ("replies", "redis/string.go")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
