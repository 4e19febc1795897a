package main

func anyCmd(string, *Spec) bool { return true }

func kindIn(ks ...string) func(string, *Spec) bool {
	return func(_ string, s *Spec) bool { return contains(ks, s.kind) }
}

const perCmd = "Every registered command is interpreted abstractly on an arbitrary argument list and an arbitrary well-formed keyspace, all paths, loops to a fixpoint. "

var inductive = []string{"each command starts from a keyspace that satisfies the class invariants (C10, C15-C18, C20); the same analysis shows that every command re-establishes them"}

var propChecks = map[string]*propCheck{
	"C01": {other: []func(*ctx){decodeRequests}, rule: "The decoder is interpreted on a reader of which nothing is known (every read gives an arbitrary line, arbitrary bytes, or an error). Every index, slice and allocation on every path must follow from the path's facts as a linear inequality over lengths, offsets and declared lengths; what is set aside at once must have a constant upper bound, in recursive functions at every call; some parameter must move towards a bound on every cycle of recursive calls; success comes with a request."},
	"C02": {other: []func(*ctx){decodeRequests}, rule: "The decoder is interpreted with ghost state for the header line that was read and not dealt with, for the number of complete values of the current array and for the arguments so far. Every argument must be exactly the declared number of bytes that were read completely, or everything between the first byte and CRLF of its own line, with CRLF known to follow, appended to the end; success needs as many values as declared, every header dealt with and no read that failed. Recursive calls are cut: a call stands for the values it is asked for, and the callee is checked for that."},
	"C03": {cmds: anyCmd, other: []func(*ctx){encodeReplies, fixedLines}, assume: inductive, rule: "The encoder is interpreted on an arbitrary response: the text it writes is a term, read back with the grammar of the protocol; the header must announce the number of items, and by induction over the loop every round must write exactly the next item as one value of its kind, its length prefix being the length of the payload term that follows, for every kind of item (status, error, integer, text, nil); it must not panic. Every command is interpreted on an arbitrary argument list and keyspace: each item it answers has a payload type the encoder accepts, and status and error lines hold constant text; so do the error lines made by the executor and the request handling."},
	"C04": {other: []func(*ctx){delivery, decodeRequests}, configs: []string{"debug"}, rule: "Where the decoder ends because the input is not complete yet it must return the reader's own error, which the server tells apart from malformed input. The event loop's callbacks, the worker they submit to and the request handling are interpreted on an arbitrary connection state and an arbitrary frame, with ghost state for the bytes still to be decoded, the requests decoded, the next one to be handled and the reply owed. On every path every decoded request is handed to the request handling exactly once and in order, one worker at a time per connection; its own reply, and nothing else, is written to its own connection once before the next; the bytes of an unfinished request are carried over, copied, in front of the next frame; a malformed request is never handed on; the handling builds one event from the request it was given and answers with that event's result."},
	"C05": {other: []func(*ctx){serialExec}, configs: []string{"debug", "v1"}, rule: "The constructor of the executor, its goroutine and everything they start are interpreted on all paths (goroutines as the set of message sequences they can produce, panics and defers included): at most one goroutine takes events, a command is started and an event completed only when the previous command's goroutine has handed over its result after the implementation returned. Over the call graph: implementations are reached only through the executor's goroutine (or, before the server starts, from main, one after the other), and no code outside an implementation reaches the package variables that hold the data."},
	"C06": {other: []func(*ctx){commandOutcome, requestWait}, configs: []string{"debug"}, rule: "On every path of the executor's goroutine, whatever the implementation does (any result, any error, nil, panic), the event taken is completed with a reply that is known not to be nil, the goroutine neither dies nor waits for a channel nothing is sent to; on every path of the request handling the wait has a deadline and a request that is not empty ends with a reply, which is read only after completion."},
	"C07": {other: []func(*ctx){shutdown, mainStops}, configs: []string{"debug", "v1"}, rule: "Typestate of the event queue: an event is sent only while the lock is held under which the stopped flag was read as false, the queue is closed only after the flag was set under the exclusive lock and only by the caller that found it unset; the worker ends only when it saw the queue closed and empty, and signs off the wait group once; Stop waits for it and leaves no lock held; refused requests are told so and answered by an error; every shutdown entry reaches the executor's Stop."},
	"C08": {other: []func(*ctx){dispatch}, configs: []string{"debug", "v1"}, rule: "The command table, collected from all stores into it in every build configuration, is compared with the list of supported commands and with the functions that have the form of an implementation (no name or function twice, none missing, none bound to another command's implementation, none conditional); on every path of the executor the called function is the table's entry under the lower-cased first element of the request, found before it is called, and gets the elements that follow; other names end in the unknown-command error."},
	"C09": {cmds: anyCmd, assume: inductive, rule: perCmd + "Every path that answers without an error must carry the facts that there were enough arguments, that they come in pairs where required and that the numeric ones were parsed; a path that refuses must have no effect; no path may index beyond the arguments."},
	"C10": {cmds: anyCmd, assume: inductive, rule: perCmd + "Whatever is put into the keyspace must be a key record whose recorded kind is the dynamic type of its value; every path that answers without an error knows the kind of the key it used; no type assertion on a stored value can fail."},
	"C11": {cmds: anyCmd, assume: inductive, rule: perCmd + "The key term of every lookup, store, delete or iteration on the keyspace map must be an unmodified argument at a position the command's specification lists as key."},
	"C12": {cmds: anyCmd, other: []func(*ctx){queryAnswers}, assume: inductive, rule: perCmd + "Effect analysis: a query command has no store, map update or delete on an object owned by the keyspace on any path; *STORE commands only on their destination; queries on sets, hashes, lists, sorted sets and the keyspace are also followed relationally (as for C30 to C34) and must leave every named entry and element as it was."},
	"C13": {cmds: anyCmd, assume: inductive, rule: perCmd + "Effect analysis: the effect set of a path that ends in an error reply, or in a panic (which is answered by an error), is empty."},
	"C14": {cmds: func(_ string, s *Spec) bool { return s.stores != "" }, other: []func(*ctx){writeAnswers}, assume: inductive, rule: perCmd + "On every path that answers success the key is in the keyspace with a value of the command's kind; every value given for a key, field, member or list element is the argument that belongs to it, and what SMOVE, SET, APPEND, HSETNX, HINCRBYFLOAT, LSET, LPUSH and RPUSH leave behind is compared with what they promise; set, hash, list and sorted-set writes are also followed relationally (as for C31 to C34) to the contents they leave."},
	"C15": {cmds: anyCmd, assume: inductive, rule: perCmd + "Ownership: nothing reachable from the value stored under one key belongs to another key or is reachable from another key."},
	"C16": {cmds: anyCmd, other: []func(*ctx){emptyAnswers}, assume: inductive, rule: perCmd + "At the end of every path the number of elements of every changed collection that is still in the keyspace is at least one; set, hash, list and sorted-set removals are also followed relationally (as for C31 to C34) to the last element."},
	"C17": {cmds: kindIn("set", "hash"), other: []func(*ctx){sizeAnswers}, assume: inductive, rule: perCmd + "Affine invariant: for every changed set and hash the size field equals the number of entries of its table at the end of every path; set and hash writes are also followed relationally (as for C31 and C32) and the recorded size compared with the entries."},
	"C18": {cmds: kindIn("zset"), other: []func(*ctx){indexAnswers}, assume: inductive, rule: perCmd + "The entries of the lookup table and of the ordered index (an abstract multiset of members) change together; the table entry points at the score of the member's own node; ZADD, ZINCR and ZREM are also followed relationally (as for C34) to the table and the index they leave."},
	"C19": {cmds: func(n string, s *Spec) bool { return s.kind == "zset" }, other: []func(*ctx){orderedIndex}, assume: inductive, rule: "Every function that takes the ordered index or one of its nodes is interpreted on an arbitrary index. For each search loop and each of the nine ways the next node can compare with what is searched for (score below, equal, above; member below, equal, above) it is decided whether the loop goes on; the set must be that of one of the searches of the one order. Links, scores and ranks are then checked in the terms of what a search ended at: a node is linked between the last node before it and that node's next, keeps its place when re-scored only if the neighbours allow it, is unlinked only from the node before it, the step counts are differences of positions, and a rank or score range is answered as the position it stands for. In the commands, a score bound is parsed from its own argument with '(' and the infinities, and is exclusive exactly then."},
	"C20": {cmds: kindIn("list"), other: []func(*ctx){linkAnswers}, assume: inductive, rule: perCmd + "Shape analysis with list segments: at the end of every path the list is walkable both ways, ends and length agree, nothing is dereferenced that is not there; list commands are also followed relationally (as for C33), to the order of the elements and the links both ways."},
	"C21": {cmds: func(n string, s *Spec) bool { return n == "lindex" || n == "lset" || n == "lrange" }, other: []func(*ctx){offsetAnswers}, assume: inductive, rule: perCmd + "Every stored element is a term elem(list, position); on every path and for every case of the offsets against the length the element answered or replaced has exactly the requested position, and a range answer is as long as the clamped interval and its i-th element is the element at start+i; the three commands are also followed relationally (as for C33) for every offset against every length up to five."},
	"C22": {cmds: func(n string, s *Spec) bool { return s.integer != "" || s.kind == "zset" }, other: []func(*ctx){countAnswers}, assume: inductive, rule: perCmd + "The integer reply, as an affine term, equals the presence, size or difference of sizes it stands for; set, hash, list and sorted-set commands are also followed relationally (as for C31 to C34) on repeated names and on every combination of presence."},
	"C23": {cmds: func(n string, s *Spec) bool { return s.counter }, assume: inductive, rule: perCmd + "Every int64 addition forks into the exact and the wrapped result; a path with a wrapped sum must end in an error without effects, and the sum replied and stored is the exact one."},
	"C24": {cmds: anyCmd, other: []func(*ctx){textAnswers}, assume: inductive, rule: perCmd + "Every text that is stored or answered is, as a term, an unmodified argument or stored text (or the decimal form of a number the command computed); a hash value may be held as a number only on paths where formatting the number gives back the text it was read from; hash commands are also followed relationally (as for C32) from a value held as text or as a number to the reply."},
	"C25": {cmds: anyCmd, other: []func(*ctx){shardedMap}, rule: "Every operation of the sharded map is interpreted abstractly on an arbitrary map, key, value and callback, all paths, and its result and the map it leaves are compared with one big map; in every command each entry is reached only through the shard of its key."},
	"C26": {cmds: anyCmd, other: []func(*ctx){missingAnswers}, assume: inductive, rule: perCmd + "On every path where the key is found missing the reply is the documented empty form; set, hash, list and sorted-set commands are also followed relationally (as for C31 to C34) from every state in which a named key is missing."},
	"C27": {other: []func(*ctx){rankedIndex}, assume: inductive, rule: "Two layers. (1) Every function of the ordered index is interpreted on an arbitrary index: the search that adds spans must hold, at every step, the position of the node it stands on; the element of a rank and the rank of an element are compared with the position they name. (2) ZRANGE, ZREVRANGE, ZPOPMIN, ZPOPMAX and ZRANK are interpreted from the handler to the reply on an index in which a node is known by its position only, once for every case of the offsets (or the count) against the number of elements and with and without WITHSCORES: each element put into the answer must be the one at the position that is due (a linear equation between its position, the offsets, the number of elements and the count of elements answered so far, kept through loops as an invariant), with its own score if and only if scores are asked for; in the end as many are answered as the clamped interval holds, and as many removed, from the right end, as a pop answers."},
	"C30": {other: []func(*ctx){keyAnswers}, assume: inductive, rule: "Relational abstract interpretation from the handler to the reply, on a keyspace that is arbitrary but for two named keys, each present or not, and everything else in it one class 'others' that an iteration may meet any number of times in any order. Whether the pattern matches a key is an uninterpreted fact of the glob package's matcher, made from exactly the pattern asked for and no separators. At the end of every path a named key is in KEYS' answer once if it is present and the fact holds, and not otherwise, and no path answers without the fact; DEL, EXISTS and TYPE answer for exactly the key asked for, and only DEL changes the keyspace, by that key."},
	"C31": {other: []func(*ctx){setAnswers}, assume: inductive, rule: "Relational abstract interpretation from the handler to the reply. The keyspace is arbitrary but for the named keys, and a stored set is arbitrary but for a few named members: for each of those it is known whether it is there, everything else in a map is one class 'others' that an iteration may meet any number of times in any order. The command is followed on every combination of presence and absence, with and without others, through the sharded map (its lookups and callbacks, each return value of a callback included) to the reply it builds. At the end of every path the final keyspace and the reply, as terms, are compared with the definition: set algebra answers and stores exactly the members its definition names, members are added, removed, moved and popped exactly as asked, each of them once, integers are sizes or numbers of changed members, and no two keys end up holding the same set."},
	"C34": {other: []func(*ctx){zsetAnswers}, assume: inductive, rule: "Relational abstract interpretation from the handler to the reply, on a sorted set that is arbitrary but for two named members, each of them there with some score or not; the ordered index is an abstract collection of members with their nodes, whose functions do what C19 shows of them. ZADD with each of its flags, ZINCR, ZREM, ZSCORE, ZRANK and ZCARD are followed on every combination of presence, for new scores that equal the old one and for others, and repeated members; at the end of every path the members and their scores, in the table and in the index, and the reply, as terms, are compared with the definition."},
	"C35": {other: []func(*ctx){stringAnswers}, assume: inductive, rule: "Relational abstract interpretation from the handler to the reply, on keys that hold a text, a value of another kind or nothing, in every combination of up to three keys. Texts are terms (an argument, what a key held, one appended to the other, the decimal form of a sum), lengths are linear in the lengths of texts. At the end of every path what each key holds and the reply are compared with the definition."},
	"C33": {other: []func(*ctx){listAnswers}, assume: inductive, rule: "Relational abstract interpretation from the handler to the reply, on every list of up to five elements (six for LREM, eight for LINDEX, three before a push), each of them either the element the command names or another, with offsets and counts arbitrary numbers of which a path knows what it compared. At the end of every path the list that is left, read through its links both ways, its recorded length and the reply, as terms, are compared with the definition for every number that the path admits. Longer lists are the matter of C20 and C21."},
	"C32": {other: []func(*ctx){hashAnswers}, assume: inductive, rule: "Relational abstract interpretation from the handler to the reply. The keyspace is arbitrary but for the named keys, and a stored hash is arbitrary but for a few named fields: for each of those it is known whether it is there, and its value: a text, or a number recognised in a text, everything else in a map is one class 'others' that an iteration may meet any number of times in any order. The command is followed on every combination of presence and absence, with and without others, through the sharded map (its lookups and callbacks, each return value of a callback included) to the reply it builds. At the end of every path the final keyspace and the reply, as terms, are compared with the definition: exactly the named fields change and get exactly the text given, a query answers exactly the stored values in the order asked for, with an empty reply for each field that is missing, a number held for a text is formatted back to it, and integers are sizes or numbers of fields found."},
}

// commands picks commands by name or by what they work on.
func commands(names ...string) map[string]bool {
	m := map[string]bool{}
	for _, n := range names {
		m[n] = true
	}
	return m
}

var rules = commands

func keyAnswers(c *ctx)    { answered(c, commands("any"), nil, false) }
func setAnswers(c *ctx)    { answered(c, commands("set"), nil, false) }
func hashAnswers(c *ctx)   { answered(c, commands("hash"), nil, false) }
func listAnswers(c *ctx)   { answered(c, commands("list"), nil, false) }
func stringAnswers(c *ctx) { answered(c, commands("string"), nil, false) }
func zsetAnswers(c *ctx)   { answered(c, commands("zset"), nil, false) }
func indexAnswers(c *ctx)  { answered(c, commands("zset"), rules(aTwice), false) }
func countAnswers(c *ctx)  { answered(c, commands("set", "hash", "list", "zset"), rules(aCount), false) }
func textAnswers(c *ctx)   { answered(c, commands("hash"), rules(aText, aAnswer), false) }
func linkAnswers(c *ctx)   { answered(c, commands("list"), rules(aLinks, aOrder, aSize), false) }
func offsetAnswers(c *ctx) {
	answered(c, commands("lindex", "lset", "lrange"), nil, false)
}
func missingAnswers(c *ctx) { answered(c, commands("set", "hash", "list", "zset", "any"), nil, true) }
func queryAnswers(c *ctx) {
	answered(c, commands("exists", "type", "keys", "llen", "lrange", "lindex", "scard", "smembers", "sismember", "sdiff", "sinter", "sunion",
		"hget", "hmget", "hkeys", "hvals", "hgetall", "hexists", "hlen", "zscore", "zrank", "zcard"), rules(aStored, aOrder, aScore), false)
}
func writeAnswers(c *ctx) {
	answered(c, commands("sadd", "smove", "hset", "hmset", "hsetnx", "lpush", "rpush", "lset", "linsert", "zadd", "zincr"), rules(aStored, aText, aOrder, aScore), false)
}
func emptyAnswers(c *ctx) {
	answered(c, commands("srem", "spop", "smove", "hdel", "lpop", "rpop", "lrem", "zrem"), rules(aEmpty), false)
}
func sizeAnswers(c *ctx) {
	answered(c, commands("sadd", "srem", "spop", "smove", "hset", "hmset", "hsetnx", "hdel"), rules(aSize), false)
}
