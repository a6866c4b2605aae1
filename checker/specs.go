package main

// What each property is decided by.

const engineNote = "Abstract interpretation of the SSA form of the working tree: flow- and context-sensitive, following calls, with linear relations between integers, structured strings (literals, symbols, decimal and big-endian renderings, repetitions), an abstract heap, and fixpoints with widening at loops. Replies are drawn symbol by symbol from the grammar of the protocol, faults at every transport call. Nothing is executed and no solver is used. "

func clientT(tier string) []string { return clientUnits("T", tier) }
func clientU(tier string) []string { return clientUnits("U", tier) }
func life(string) []string         { return []string{"life:text", "life:meta", "life:binary"} }

// plusLife adds the constructors, Reconnect, Close and the heartbeat to units of commands.
func plusLife(f func(string) []string) func(string) []string {
	return func(tier string) []string { return append(f(tier), life(tier)...) }
}

func clientTU(tier string) []string { return append(clientT(tier), clientU(tier)...) }

var trusted = []string{
	"the models of the standard library (bufio, fmt, strconv, bytes, strings, encoding/binary, net.Conn, sync, time) describe what these packages do",
	"the transport delivers bytes in order or fails; it does not corrupt them",
}

func propSpecs() map[string]*propSpec {
	m := map[string]*propSpec{}
	add := func(id string, units func(string) []string, rule string, min map[string]int, cross func(*checkRun), assume ...string) {
		m[id] = &propSpec{units: units, rule: engineNote + rule, min: min, cross: cross, assume: append(append([]string{}, trusted...), assume...)}
	}
	grammar := "the server answers with replies of its protocol (status lines, error lines, items, or a line the protocol does not know)"
	add("C01", plusLife(clientT), "Rule: the accesses of the connection by an operation (reads, writes, flushes, deadlines) happen between one acquisition and release of a lock that all operations of the type share; Reconnect holds this lock while it replaces the connection.", map[string]int{"exchange-is-exclusive": 36}, crossExchange)
	add("C02", plusLife(clientTU), "Rules: on every return, also after faults and malformed replies, every lock taken has been released exactly once; no lock is waited for while it is held; the order of acquisition has no cycle.", map[string]int{"released-on-return": 39}, crossOrder)
	add("C03", clientT, "Rule: at the first read of a reply the bytes handed to the connection equal the request the protocol defines for the operation and its operands, and all of them have been flushed.", map[string]int{"exact-request": 30}, nil, grammar)
	add("C04", clientT, "Rule: when a command returns without the connection having failed, the reply of the server has been consumed to its last byte, and nothing was waited for after it.", map[string]int{"reply-read-completely": 30}, nil, grammar)
	add("C05", clientT, "Rule: nil is returned only after the success reply of the command, and after that reply an error is not.", map[string]int{"no-false-success": 30}, nil, grammar)
	add("C06", clientT, "Rule: the identity of the error returned is the shared error for the replies that demand it, and for no other.", map[string]int{"shared-errors": 21}, nil, grammar)
	add("C07", plusLife(clientTU), "Rule: after a transport call failed the error returned is not nil; wrappers around the connection pass on what it returns.", map[string]int{"failure-is-reported": 36}, nil)
	add("C08", clientT, "Rules: no store through memory of the caller; the buffers of a returned item are not reachable from anything but the item.", map[string]int{"caller-memory-unchanged": 9, "own-memory": 2}, nil, grammar)
	add("C09", clientT, "Rules: every I/O on the connection is preceded by arming both deadlines with now + Timeout unless Timeout is known not to be positive; no deadline is set later in the command.", map[string]int{"armed-before-io": 30}, nil)
	add("C10", clientT, "Rules: no byte left behind by an earlier command (pooled header) reaches a request; a header is given back once and not used afterwards.", map[string]int{"no-stale-bytes": 30}, nil)
	add("C11", clientT, "Rule: each field of what a command returns is the field of the reply meant for it.", map[string]int{"fields-from-their-own-place": 8}, nil, grammar)
	add("C12", clientT, "Rules: a multi-get returns one item per hit, with the key of its reply, and no error when the server sent hits and misses only.", map[string]int{"one-item-per-hit": 3, "own-key": 3, "each-hit-once": 3, "keys-requested-once": 3}, nil, grammar)
	add("C13", plusLife(clientT), "Rule: when a transport call of a command failed, the connection has been closed when the command returns.", map[string]int{"closed-after-failure": 30}, nil)
	hist := "operations of one connection take effect one after the other (C01, C18)"
	add("C14", life, "Rules: the constructor applies every option in turn and starts one goroutine exactly if the interval is positive; this goroutine waits for a timer of that interval, probes once in each, looks before each probe whether a channel that Close closes has been closed, reconnects (automatic reconnect on) or closes (off) after a failed probe and only then, and returns only after it has found the connection closed or has closed it. In every state that a sequence of Close, Reconnect and failures leads to, Close leaves the transport closed and the channel closed.", map[string]int{"acts-on-failure": 3, "probe-every-interval": 3, "ends-at-close": 3, "lives-until-close": 3, "heartbeat-started": 3, "close-closes": 3, "close-ends-heartbeat": 3, "options-applied": 3, "options-set-their-field": 2}, nil, hist)
	add("C15", life, "Rules, in every state that a sequence of Close, Reconnect and failed exchanges (with and without bytes left in the buffers, sticky errors, a closed transport) leads to: Reconnect dials the network and address of the connection, closes the previous transport, returns an error exactly if dialing failed, and after a success every field that led to the previous transport leads to the new one, wrapped as the constructor wraps it, through empty buffers without an error.", map[string]int{"dials-configured-address": 6, "old-transport-closed": 3, "new-transport": 3, "empty-buffers": 3, "fails-if-dialing-fails": 3, "fails-only-if-dialing-fails": 3}, nil, hist)
	add("C16", plusLife(clientTU), "Rules: every index, slice bound, allocation size, conversion, type assertion, nil dereference and division is within its bounds for any bytes the server sends.", map[string]int{"no-panic": 30}, nil)
	add("C17", clientT, "Rules: at the first write the key (each key of a list) is known to be 1..250 bytes long and, in the line protocols, free of blanks and control bytes; a command is refused without I/O only if its key is not; the key is part of the request as it is.", map[string]int{"key-checked-before-write": 20, "key-sent-as-given": 20}, nil)
	add("C18", plusLife(clientT), "Rule: two accesses of a field of a connection, one of them a write, hold a common lock; the accesses are those of the commands, of Reconnect and Close, of the goroutine the constructor starts, and of the constructor once it has started it. No command writes to package-level memory without a package-level lock.", map[string]int{"not-written": 3, "common-lock": 6}, crossRaces)
	replica := func(string) []string { return []string{"pool:ReplicaPool"} }
	pools := func(string) []string { return []string{"pool:SinglePool", "pool:ReplicaPool"} }
	poolsRing := func(string) []string { return []string{"pool:SinglePool", "pool:ReplicaPool", "ring"} }
	ring := func(string) []string { return []string{"ring"} }
	opaque := "a call of an operation of a server succeeds with any result or fails with any error"
	add("P01", pools, "Rule: each path of a single-key operation calls the operation of the same name exactly once, on the result of the ring's lookup of the same key, with the arguments of the caller, and returns what it returned.", map[string]int{"one-call": 15, "on-the-owner": 15, "own-arguments": 15, "result-unchanged": 15}, nil, opaque)
	add("P02", poolsRing, "Rule: for 0 to 3 keys of unknown content: every key is part of a multi-get of the server the ring assigns to it and of no other, the list returned is made up of all the lists returned, and an error is returned if one of the calls fails; servers are found by their own names.", map[string]int{"asks-the-owners": 2, "every-key-is-asked-for": 2, "all-items-are-returned": 2, "failure-is-reported": 2, "find-by-name": 1}, nil, opaque)
	add("P03", poolsRing, "Rules: nothing but the names of the servers and constants flows into the places of nodes, nothing but the key and the nodes into a lookup; no clock, randomness, address or changing variable is consulted; the ring is not written to after construction; names are fixed when a connection is made.", map[string]int{"depends-on-names-only": 1, "owner-by-hash": 1, "name-is-fixed": 3, "same-points-at-any-position": 1}, nil)
	add("P04", func(string) []string { return []string{"pool:SinglePool", "ring"} }, "Rule: a pool-wide command calls its operation for each server of the ring, returns an error only if one of them failed and success only if none did, and Close goes on after a failure.", map[string]int{"every-server": 4, "success-only-if-all-succeeded": 3, "error-only-if-one-failed": 3, "close-every-server": 1, "version-of-each": 1}, nil, opaque)
	add("P05", replica, "Rule: on each path of a write the owner among the primaries is called first, the owner among the secondaries only after that call succeeded, and nil is returned only if both succeeded; the rings are filled from the lists of the same role.", map[string]int{"roles": 1, "primary-first": 6, "secondary-after-primary": 6, "on-the-secondary": 6, "acknowledged-by-both": 6}, nil, opaque)
	add("P06", replica, "Rule: after the write of the primary, the secondary is told to store the same key, value, flags and expiration without a CAS (for counters those of the item read back from the primary), or to delete the same key.", map[string]int{"mirrored": 6, "what-the-primary-holds": 5, "on-the-secondary": 6}, nil, opaque)
	add("P07", replica, "Rule: reads call nothing but their own operation on primaries; writes call nothing but their own operation, the read back of a counter on the primary and the mirroring on the secondary.", map[string]int{"only-its-operations": 6, "on-the-primaries": 1, "one-call": 1}, nil, opaque)
	add("P08", ring, "Rules: in a ring with at least one node, looking up any key stays within bounds and gives the server of a node; each node has a configured server, and each configured server has nodes.", map[string]int{"no-panic": 1, "owner-is-configured": 1, "nodes-have-servers": 1, "every-server-has-nodes": 1}, nil)
	add("P09", ring, "Rules: the places of a server are the same terms over its name at any position among any number of servers; the nodes are sorted by their places when the ring is used; the lookup returns the node at which the search has established that it does not lie above the hash while its successor does (invariants of the search loop are found by fixpoint).", map[string]int{"same-points-at-any-position": 1, "points-in-order": 1, "nearest-node": 1}, nil, "no two places coincide")
	add("X01", func(string) []string { return []string{"proxy"} }, "Rules: the handler of the proxy calls the operation of the pool that the request names exactly once, with the operands of the request; memcached errors become responses, other failures are returned, successes give one response per item that carries what the item carries; other requests are refused without a call.", map[string]int{"asks-the-pool": 3, "own-operands": 3, "answers-with-the-item": 2, "one-response-each": 3, "memcached-errors-are-responses": 3, "failures-are-failures": 3, "success-is-success": 3, "others-are-refused": 1}, nil, "an operation of the pool succeeds with any result (a multi-get with up to three items) or fails with any error")
	add("X04", func(string) []string { return []string{"router"} }, "Rules: on every path of main that serves, nothing has failed before, one connection was made for each configured server, over tcp, at the host and port and with the name of that entry, the lists given to the pool as primaries and secondaries are the connections of the servers of that role, and the server's handler is the proxy of that pool; ListenAndServe listens on the address configured, serves the listener and returns the failure otherwise.", map[string]int{"own-servers": 2, "own-address": 2, "one-connection-each": 1, "starts-only-if-all-is-well": 1, "serves-the-pool": 1, "listens-where-configured": 1, "serves-the-listener": 1, "failure-is-returned": 1}, nil, "connections, pool, proxy and server do what X01, P01-P09, C01-C18 and S01-S07 say", "yaml.Unmarshal fails or fills the configuration from the keys its tags name")
	add("X05", func(string) []string { return []string{"pool:SinglePool", "pool:ReplicaPool", "ring", "proxy"} }, "Rule: on no path of an operation of a pool, of a lookup in the ring or of the handler of the proxy is anything written to memory that was reachable from the pool, the ring or the proxy before, or from a package-level variable, unless a lock found there is held exclusively.", map[string]int{"nothing-in-common": 23}, nil, opaque)
	protos := []string{"text", "meta", "binary"}
	serverUnits := func(modes string) func(string) []string {
		return func(string) (l []string) {
			for _, m := range modes {
				if m == 'U' {
					l = append(l, "server:any:U")
					continue
				}
				for _, p := range protos {
					l = append(l, "server:"+p+":"+string(m))
				}
			}
			return l
		}
	}
	handler := "the handler returns up to two responses (each a hit, a miss or an error of any kind) or fails"
	forms := "requests are drawn from the forms of their protocol listed in serverspec.go (valid and invalid), with operands of unknown content; up to three keys"
	add("S01", serverUnits("TRU"), "Rules: with any bytes read from the connection, cut off anywhere, and with any responses of the handler, every index, slice bound, allocation size, conversion, type assertion, nil dereference and division on the way is within its bounds, and no explicit panic is reachable.", map[string]int{"no-panic": 40}, nil, "the handler returns up to two responses of any content, none of them nil, or fails")
	add("S02", serverUnits("T"), "Rule: when the handler is called, the request that was drawn has been consumed to its last byte and nothing was waited for after it; a request whose lengths do not fit is not handed on.", map[string]int{"one-request-at-a-time": 40}, nil, forms)
	add("S03", serverUnits("TU"), "Rules: the request given to the handler carries the operation and the operands of the request drawn, each in its own field; with any line, all its words are handed on where its words are the keys; requests that are not valid never reach the handler; valid ones are not refused.", map[string]int{"own-fields": 40, "no-request-made-up": 60}, nil, forms)
	add("S04", serverUnits("T"), "Rule: when the next request is read, or the connection ends, what has been written and flushed for the last request is exactly one reply of its protocol, or nothing for a quiet miss; nothing is read after the handler or a write has failed.", map[string]int{"one-reply": 40}, nil, forms, handler)
	add("S05", serverUnits("T"), "Rule: the reply written for responses that carry errors is the error or miss reply of the protocol for them and never that of a success, and the other way round.", map[string]int{"errors-are-errors": 40}, nil, forms, handler)
	add("S06", serverUnits("T"), "Rule: the bytes of each item written equal the layout the protocol defines over the fields of the response: key, flags, length and value, CAS where it is asked for.", map[string]int{"declares-what-it-carries": 15}, nil, forms, handler)
	add("S07", serverUnits("TRU"), "Rules: each accepted connection is handed to a goroutine of its own; this goroutine writes to no memory that others can reach without holding a lock and closes the connection on every way out; the loop that accepts touches no connection, goes on until accepting fails and closes the listener.", map[string]int{"own-goroutine": 1, "own-state": 1, "closed-at-end": 40, "listener-closed-at-end": 1, "accepts-until-failure": 1}, nil, "the handler returns up to two responses of any content, none of them nil, or fails")
	add("X03", func(t string) []string { return append(append(clientT(t), serverUnits("T")(t)...), "opcodes") }, "Rules: each verb or opcode that a client command sends (taken from the requests C03 has found right) is one that the server hands to the handler as the same operation (taken from the requests S03 has found right); constants for opcodes have the numbers of the protocol.", map[string]int{"understood": 25}, crossVocab, forms)
	m["X02"] = &propSpec{units: func(string) []string { return []string{"shared"} }, rule: "Flow- and context-insensitive, field-based alias propagation over all functions of the module, from every package-level variable that is given a value at initialisation (variables of package sync and of the test helpers excepted). Rule: outside initialisation no store, map update, copy, append or library call that writes goes through such an alias, and none is returned by an exported function or put into an exported field (shared errors may be returned).", min: map[string]int{"never-written": 30}, assume: []string{"library functions write to their arguments only where the table of writers says so"}}
	return m
}
