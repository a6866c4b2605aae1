#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here so that they are readable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     observe_at=list(observe), hook_needed=None)))
CS="client/server.go"; CC="client/client.go"; CR="client/ring.go"; CL="cluster/cluster.go"; SV="server/server.go"; PX="proxy/replica_pool.go"; ER="errors/errors.go"

p("C01","Commands sharing one connection never interleave",
  """When several goroutines use one server connection, each command's request and the whole of its reply are exchanged
  as one unit: no other command writes to or reads from that connection in between, and a reconnect never swaps the
  connection underneath a running command.""",
  ["schedules"],"every interleaving of calls on one Server value",
  "every test drives a connection from one goroutine; a missing or narrowed critical section only shows under a particular schedule",
  [CS],[("mutex held from before the first connection access to the return of every command","client/server.go: every method of the three Server types"),("Reconnect holds the same mutex","client/server.go: Reconnect")],
  [("conn/raw","the buffered and the raw connection","ServerWith{Text,Meta,Binary}Protocol"),("mu","the lock that makes an exchange exclusive","ServerWith{Text,Meta,Binary}Protocol")],
  ["order of bytes on the wire"])
p("C02","Every exit of a command frees the connection",
  """However a client command or reconnect ends - result, miss, error reply, malformed reply or transport failure - it has
  released its exclusive hold on the connection exactly once when it returns, and it never waits for a hold it already
  has, so one failed command can never block the commands after it.""",
  ["fault_sequences","schedules"],"every exit path of every operation under every fault",
  "tests reach few error exits and never issue another command from another goroutine after one",
  [CS],[("deferred unlock right after lock","client/server.go: every method")],[],["a later command on the same connection proceeds"])
p("C03","Each client command emits exactly its protocol request",
  """For every key, value, flags, expiration, CAS and delta, a client operation sends exactly the one request its protocol
  defines for that operation: the right command or opcode, the caller's operands in their places, every declared length
  equal to the bytes actually sent, properly terminated. The request is handed to the network before the reply is awaited.""",
  ["inputs"],"all argument values of all operations of the three protocols",
  "tests use a handful of short keys, positive expirations and mostly absent flags and CAS",
  [CS,CC],[("fmt.Fprintf request lines","client/server.go: text and meta methods"),("binaryRequestHeader.EncodeTo and Item.marshalBinaryRequestHeader","client/server.go, client/client.go"),("Flush before the first read","client/server.go")],[],["bytes written to the server"])
p("C04","A command reads exactly its own reply",
  """When a client command returns a result, a miss or any other status the server sent, it has read the whole reply to its
  request - every line and the complete body, also of error replies - and nothing after it, so that the next command on
  the connection sees its own reply first.""",
  ["histories","inputs"],"every reply a memcached server can send, followed by any further command",
  "tests issue at most one command after an error reply and never check the following one in the binary protocol",
  [CS],[("body read by TotalBodyLength","client/server.go: binary methods"),("value block of size+2 and END/MN terminator","client/server.go: text and meta get parsing")],
  [("conn.Reader","read position in the reply stream","client/server.go")],["result of the next command on the connection"])
p("C05","Success is reported only for a confirmed success",
  """A client command returns without error only if the server's reply was the success reply of that very command; an error
  line, a non-zero status, or any reply the client does not understand makes it return an error. (Deleting a missing
  key over the meta protocol counts as success.)""",
  ["inputs"],"every reply line or status for every command",
  "tests only produce success replies and a few well-known failures, never error lines or unexpected statuses",
  [CS],[("reply comparison before return nil","client/server.go: every method")],[],["error returned by the command"])
p("C06","Missing and existing keys are reported by the shared error values",
  """On every protocol, a reply saying that the key does not exist makes Get, Touch, Replace, Increment, Decrement, a CAS Set
  and (except over the meta protocol) Delete return exactly the shared not-found error, and a reply saying that it
  already exists (failed Add, CAS conflict) the shared exists error; no other reply is reported as either.""",
  ["inputs"],"every status reply of every command in the three protocols",
  "the mapping is tested for Get, Delete, Add, Replace and CAS Set in some protocols only, and never for replies that must not be mapped",
  [CS,ER],[("switch on the reply token or status","client/server.go"),("ItemNotFound, ItemExists","errors/errors.go")],[],["identity of the returned error"])
p("C07","No I/O or parse failure is swallowed",
  """If writing, flushing, reading or parsing fails while a client command or reconnect runs, it returns a non-nil error;
  it never returns a result or success in spite of the failure.""",
  ["fault_sequences"],"a failure at any I/O or parse step of any operation",
  "no test injects an I/O failure in the middle of an exchange",
  [CS],[("if err != nil { return err }","client/server.go: after every I/O step")],[],["error returned by the operation"])
p("C08","Caller data is never modified and returned items are never shared",
  """No operation modifies the item, key or byte slices its caller passed in, including memory behind a slice's length, and
  an item it returns holds its own memory: it never changes because of a later command on the connection.""",
  ["inputs","histories"],"all items, including values that are sub-slices of larger buffers, and any later commands",
  "tests use freshly allocated values and look at items before the next command",
  [CS,CC],[("separate writes of value and terminator","client/server.go: Set"),("fresh buffer per value, string copies of reply tokens","client/server.go: get parsing")],[],["caller's slices after the call; items after later calls"])
p("C09","A configured timeout bounds every command",
  """If a timeout is configured on a connection, every command arms a read deadline and a write deadline of that length, on
  the connection it uses, before its first byte of I/O; nothing disarms or lengthens them during the command.""",
  ["fault_sequences"],"every command with a server that stalls at any point",
  "no test sets a timeout",
  [CS],[("SetWriteDeadline/SetReadDeadline at the start","client/server.go: every command")],[("Timeout","configured limit","ServerWith{Text,Meta,Binary}Protocol")],["the command returns"])
p("C10","A binary request carries nothing over from earlier commands",
  """Every header field of a binary request - opcode, key, extras and body length, CAS, opaque - is determined by that command
  alone, whatever commands ran before it and whichever of them failed; a header buffer is never used by two commands
  at once or after it has been given back.""",
  ["histories","schedules"],"all sequences of commands on a connection",
  "tests run one or two commands per connection and the header pool usually returns a fresh object",
  [CS],[("header.Reset / getReqHeader","client/server.go"),("sync.Pool of headers","client/server.go")],[("reqHeaderPool","recycled request headers","ServerWithBinaryProtocol")],["header bytes on the wire"])
p("C11","Item metadata is decoded in full range from its own field",
  """For every 32-bit flags value and 64-bit CAS the server can send, the client decodes an item's key, flags, CAS and
  remaining time from the reply fields meant for them, without loss or failure, and a counter's new value and the server's
  version likewise. GetMulti returns the same metadata as
  Get for the same item, and an item that never expires is reported with expiration 0.""",
  ["inputs"],"all flags, CAS and TTL values in all three protocols",
  "tests read back flags 0 and 1 and small CAS values, and never look at the CAS of a GetMulti item",
  [CS],[("strconv parsing of reply tokens","client/server.go: parseGetResponse, readGetFlagToken"),("binary header and extras decoding","client/server.go: Get, GetMulti")],[],["fields of the returned items"])
p("C12","A multi-get on one connection returns every hit",
  """Whatever keys are asked for and whichever of them are missing, GetMulti on a connection requests every key once and
  returns one item for each value the server sends, with that value's own key; a miss never hides the other hits, and
  reading goes on until the terminator of the multi-get.""",
  ["inputs","histories"],"every list of keys and every subset of misses",
  "the tests ask for two or three keys that all exist",
  [CS],[("request loop and reply loop","client/server.go: GetMulti of the three protocols")],[],["items returned"])
p("C13","A connection whose transport failed is not reused",
  """Once reading or writing on a connection has failed or timed out in the middle of an exchange, no later command is
  answered from the remains of that exchange: the connection is closed, and later commands fail until it is reconnected.""",
  ["fault_sequences","histories"],"a timeout or transport error at any point, followed by any command",
  "no test continues to use a connection after a timeout",
  [CS],[("transport wrapper that closes on the first error","client/server.go: constructors and Reconnect")],[],["reply seen by the command after a timeout"])
p("C14","Heartbeat probes until close and acts on failure",
  """With a heartbeat enabled, the connection is probed once in every interval for as long as it is open; closing the
  connection ends the heartbeat for good, and a failed probe leads to a reconnect attempt if automatic reconnect is on and
  otherwise to closing the connection - a failed reconnect attempt does not end the heartbeat.""",
  ["schedules","fault_sequences"],"all lifetimes of a connection with a heartbeat",
  "no test enables the heartbeat",
  [CS],[("heartbeat goroutine","client/server.go: heartbeat"),("closeCh closed by Close","client/server.go: Close")],[("closeCh","tells the heartbeat to stop","ServerWith*Protocol")],["probes on the wire, goroutines left after Close"])
p("C15","Reconnect yields a clean connection or a retryable error",
  """A successful reconnect dials the configured address, closes the previous transport and replaces both the raw and the
  buffered connection by the new one with empty buffers; a failed one returns an error and can be retried, whatever
  state the previous transport is in.""",
  ["fault_sequences","histories"],"every state of the old connection and every dial outcome",
  "one test reconnects once after a server restart; failing dials and repeated reconnects are never tried",
  [CS],[("Reconnect","client/server.go: Reconnect of the three types")],[],["first command after Reconnect"])
p("C16","No server reply can crash the client",
  """Whatever bytes a server sends in reply, however truncated or malformed, a client command returns (an item or an error)
  and never panics, whatever item, key or number its caller passed.""",
  ["inputs"],"all reply byte strings and arguments",
  "tests only see well-formed replies of a real memcached",
  [CS],[("length checks before indexing and slicing replies","client/server.go: reply parsing of the three protocols")],[],["process stays alive"])
p("C17","A key cannot alter the request it is part of",
  """A key that the protocol cannot carry - empty, longer than 250 bytes, or, in the text and meta protocols, containing white
  space or control characters - is refused, by itself or in the key list of a multi-get, with an error before anything is written; so no key can make a
  client send a different command, more than one command, or a request with a wrong length.""",
  ["inputs"],"all keys passed to any keyed operation",
  "tests use keys made of letters, digits, '/' and '_'",
  [CS],[("key check before the request is written","client/server.go: every keyed command")],[],["bytes written to the server"])
p("C18","The state of a connection is free of data races",
  """However many goroutines issue commands on one connection, reconnect it or close it, two accesses of a field of the
  connection of which one is a write are ordered by a lock both hold: the transport, the buffered connection and the closed
  state are never read while they are being replaced. Commands of different connections write to no variable they have in
  common without a lock.""",
  ["schedules"],"every interleaving of commands, Reconnect, Close and the heartbeat of one Server value",
  "tests use a connection from one goroutine and never close it while a command runs",
  [CS],[("mu and closeMu","client/server.go: Close, Reconnect, heartbeat")],[("raw, conn, closed, closeCh","state of the connection","ServerWith{Text,Meta,Binary}Protocol")],["race-free state"])
p("P01","Each single-key operation goes once to the key's owner",
  """Every single-key operation of a pool is executed exactly once, as the same operation with the caller's own arguments,
  on the server the ring assigns to that very key, and the pool returns that server's result and error unchanged.""",
  ["inputs","configurations"],"all keys, all server sets, all operations of the single pool",
  "tests use pools with one server, where any routing mistake is invisible",
  [CC,CR],[("ring.Pick(key).Op(key)","client/client.go: SinglePool methods")],[],["which server receives which operation"])
p("P02","A pool multi-get asks each key of its owner and loses nothing",
  """GetMulti of a pool asks every requested key of exactly the server that owns it (in the replica pool: the owner among the
  primaries), returns all items those servers return, and returns an error instead of a result if any of them fails.""",
  ["inputs","configurations"],"all key lists and server sets",
  "tests use pools with one server and two keys",
  [CC,CL],[("grouping by server name","client/client.go, cluster/cluster.go: GetMulti")],[],["requests per server, merged result"])
p("P03","Placement depends only on the key and the server names",
  """Which server owns a key is a function of the key and the configured server names alone: the same in every process and at
  every time, independent of earlier calls, addresses, connection state, and chance; the ring never changes after it
  has been built and may be used from any number of goroutines.""",
  ["configurations","histories","schedules"],"all server sets, keys and histories of use",
  "tests pick three keys on one hand-made ring in a single process",
  [CR],[("sha1 of name and replica number, crc32 of the key","client/ring.go: NewRing, Pick"),("ring fields written only by NewRing","client/ring.go")],[("nodes, servers","the immutable ring","client/ring.go: Ring")],["server returned by Pick"])
p("P04","Pool-wide commands reach every server",
  """Flush, Version and Close of a pool address every configured server; they report success only if every server succeeded,
  and Close closes every server even when closing one of them fails.""",
  ["configurations","fault_sequences"],"all server sets and failures of any subset",
  "tests use pools with one server that never fails",
  [CC,CR],[("Ring.Each / Ring.Close","client/ring.go, client/client.go")],[],["commands received by each server"])
p("P05","A replica write is acknowledged only when both sides have it",
  """Every write operation of the replica pool is executed on the key's owner among the primaries first; the owner among the
  secondaries is written only after the primary has succeeded, and success is returned only if both have succeeded.""",
  ["fault_sequences","inputs"],"failure of either side at any step of every write operation",
  "tests never make a server fail",
  [CL],[("primary call, error check, secondary call","cluster/cluster.go: Set, Add, Replace, Delete, Increment, Decrement")],[],["operations received by primary and secondary"])
p("P06","The mirror gets exactly what the primary holds",
  """After a successful replica write the secondary has been told to store, unconditionally, the same key, value, flags and
  expiration that were written to the primary (for counters: that the primary holds after the change), or to delete the
  same key; a CAS condition meant for the primary is never applied to the secondary.""",
  ["inputs","histories"],"all items, CAS writes and counters with and without expiration",
  "tests never use CAS through the replica pool and only count on items that have an expiration",
  [CL],[("secondary Set/Delete with the item","cluster/cluster.go")],[],["item stored on the secondary"])
p("P07","Replica reads use the primary only and never write",
  """Reads through the replica pool are answered by the key's owner among the primaries, and neither reads nor writes of the
  replica pool perform any other operation on either side than the ones their name says.""",
  ["inputs","configurations"],"all keys and read operations",
  "with both sides in sync the tests cannot tell which side answered",
  [CL],[("primary.Pick","cluster/cluster.go: Get, GetMulti")],[],["operations received by primary and secondary"])
p("P08","Every key has an owner",
  """With at least one configured server, looking up the owner of any key returns one of the configured servers and
  never panics, whatever the key hashes to.""",
  ["inputs","configurations"],"all keys and all non-empty rings",
  "tests look up a handful of keys",
  [CR],[("bounded binary search and clamping","client/ring.go: Pick")],[],["Pick returns"])
p("S01","No client bytes can crash the server",
  """Whatever bytes a client sends, in whatever order and cut off wherever, and whatever number of responses the handler
  returns, handling them never panics; at worst that client's own connection is closed.""",
  ["inputs"],"all request byte streams in both protocols",
  "tests send only well-formed requests built by the client package",
  [SV],[("length checks before indexing, slicing and allocating","server/server.go: readAsciiRequest, readBinaryRequest, writeAsciiResponse, writeBinaryResponse")],[],["process stays alive, other connections are served"])
p("S02","The server consumes exactly one request at a time",
  """For every accepted request the server reads exactly the bytes that make it up - the command line plus the declared data
  block and its terminator, or the binary header plus exactly its declared body - before it hands it to the handler;
  a request whose lengths do not fit its command is refused and the connection closed.""",
  ["inputs","histories"],"all request streams, pipelined or not",
  "tests send one well-formed request at a time",
  [SV],[("ReadBytes('\\n') and ReadFull of the declared size","server/server.go: readAsciiRequest"),("24-byte header and declared body","server/server.go: readBinaryRequest")],[],["the request following an unusual one"])
p("S03","The handler sees exactly what the client asked",
  """Every parsed request carries the operation the client named and its key or keys, value, flags, expiration, CAS and
  delta exactly as sent, each from its own place on the wire and over its full range; a line that is no valid request is refused
  rather than handed to the handler as something else.""",
  ["inputs"],"all requests of both protocols",
  "tests compare opcode, key, value and small expirations of one request per command",
  [SV],[("parsing of command lines and binary headers","server/server.go: readAsciiRequest, readBinaryRequest")],[],["Request passed to Handler"])
p("S04","Every request gets one flushed reply or a closed connection",
  """For every request the handler answers, the server writes exactly one complete reply in the connection's protocol and
  flushes it before it reads the next request, or else ends the connection; the only request without a reply is a missed quiet get.
  A handler or write error ends the connection.""",
  ["inputs","fault_sequences"],"all requests, all handler results including errors and empty ones",
  "the test handler never returns an error response and never an empty one outside of Get",
  [SV],[("writeResponse and serve","server/server.go: serve, serveRequest, writeAsciiResponse, writeBinaryResponse")],[],["bytes sent per request"])
p("S05","Errors and misses never look like success or hits",
  """If the handler's response carries an error, the reply is the matching error or miss reply of the protocol (not found,
  exists, or a server error) and never a success reply or an item; in turn a response without error is never reported as a failure.""",
  ["inputs"],"all requests and all error values",
  "no test returns an error response",
  [SV],[("res[i].Error decides the reply","server/server.go: writeAsciiResponse, writeBinaryResponse")],[],["reply seen by a client of the server"])
p("S06","Replies declare what they carry",
  """Every item the server sends carries the key (the request's key for a meta get), flags and value of the response with the lengths declared in the reply equal
  to the bytes that follow, laid out as the protocol prescribes for a binary header or a VALUE/VA line.""",
  ["inputs"],"all responses of a handler",
  "tests read back a few short values without flags",
  [SV],[("writeAsciiResponseGet, writeAsciiResponseMetaGet, writeAsBinaryProtocol","server/server.go")],[],["bytes sent per reply"])
p("S07","Server connections are isolated and always closed",
  """Each accepted connection is served by its own goroutine on state of its own and is closed when its serving ends for
  whatever reason; a failing connection never stops the others or the accept loop, and the listener is closed when serving ends.""",
  ["schedules","fault_sequences"],"all interleavings and endings of connections",
  "tests open three well-behaved connections and never close them",
  [SV],[("go func with deferred close","server/server.go: Serve"),("closeOnce","server/server.go: conn.close")],[],["open sockets and goroutines"])
p("X01","The proxy relays faithfully",
  """The proxy hands each get and set to the replica pool with the request's own key or keys, value, flags, expiration and CAS, and
  answers with what the pool returned: value and flags of the item, success only if the pool succeeded, memcached errors as error
  responses and any other failure as a failure; other operations are refused.""",
  ["inputs","fault_sequences"],"all requests and all pool outcomes",
  "the proxy has no tests",
  [PX],[("ReplicaProxy.ServeRequest","proxy/replica_pool.go")],[],["pool operations and responses"])
p("X02","Shared constants and error identities never change",
  """Protocol tokens, magic bytes, opcode and status tables and the shared error values keep their initial content for the whole
  life of the process: nothing in the library writes to them or hands out a way to.""",
  ["histories","schedules"],"all executions",
  "a change of a shared byte slice only shows in later commands of the process",
  [CS,SV,ER],[("package-level variables written only by their initialisers","client/server.go, server/server.go, errors/errors.go")],[],["replies recognised, errors compared"])
p("X03","Client and server speak the same vocabulary",
  """Every command line verb and binary opcode the library's client sends for an operation the library's server offers is
  parsed by that server as the same operation, and the opcode numbers on both sides are those of the memcached protocol.""",
  ["inputs"],"all operations of the three client protocols",
  "tests pair client and server for one call of most operations, without CAS, touch or multi-get over meta",
  [CS,SV],[("opcode constants","client/server.go, server/server.go"),("verb switch","server/server.go: readAsciiRequest")],[],["Opcode of the parsed request"])
p("X04","The router serves exactly the servers it is configured with",
  """The router connects to every server of its configuration exactly once, over TCP, at the host and port and under the
  name of that very entry; the pool it serves has all servers listed as primary, and only those, as its primaries and all
  listed as secondary, and only those, as its secondaries; it does not start serving if the configuration cannot be read
  or parsed or a server is missing. A server listens on the address it is configured with, and a failure to listen is
  returned.""",
  ["inputs","fault_sequences"],"every configuration, every failure while starting",
  "no test covers the router or its start, and a test could sample a few configurations only",
  ["cmd/router/main.go",SV],[("connections made entry by entry","cmd/router/main.go: connectServers"),("roles handed to the pool","cmd/router/main.go: main"),("listening","server/server.go: ListenAndServe")],
  [],["the connections the router opens and the address it listens on"])
p("X05","Commands given to a pool or proxy at the same time do not affect each other",
  """However many goroutines use one pool, one ring or one proxy at the same time, every command behaves as if it were alone: while
  serving it, nothing is written to the pool, the ring, the proxy or any package-level variable - no scratch buffer, map, list or
  counter - unless a lock that the commands have in common is held.""",
  ["schedules"],"every interleaving of commands of one SinglePool, Ring, ReplicaPool or ReplicaProxy",
  "no test uses a pool or the proxy from more than one goroutine, and a test samples few interleavings",
  [CC,CR,CL,PX],[("operations of pools","client/client.go, cluster/cluster.go"),("lookups","client/ring.go"),("handler","proxy/replica_pool.go: ReplicaProxy.ServeRequest")],
  [],["writes to memory reachable from the pool, ring or proxy"])
p("P09","Adding a server moves only keys to the new server",
  """When a server is added to the configuration, every key either stays with its owner or moves to the new server: the places of a server on
  the ring depend on its own name only, the ring is ordered by them, and the owner of a key is the server of the nearest place that does
  not lie above the hash of the key (the first place if all of them do).""",
  ["configurations","inputs"],"all server sets and keys",
  "no test compares two rings",
  [CR],[("places","client/ring.go: NewRing"),("search","client/ring.go: (*Ring).Pick")])
p("N01","Servers own roughly equal shares of keys",
  """Whatever the names of the servers, each of them owns a roughly equal share of all keys.""",
  ["configurations","inputs"],"all server sets and keys",
  "no test measures shares",
  [CR],[("points per server","client/ring.go: NewRing")])
p("N02","Replicas converge under concurrent writers",
  """When concurrent replica writes of a key have all been acknowledged, primary and secondary hold the same item.""",
  ["schedules","histories"],"all interleavings of writers",
  "tests use one writer",
  [CL],[("two separate exchanges per write","cluster/cluster.go")])
p("N03","A value read back is the value stored",
  """A successful get returns the last value successfully stored for the key, as long as it has neither expired nor been evicted.""",
  ["histories"],"all histories of operations against a memcached server",
  "tests store and read single values",
  [CS],[("set and get exchanges","client/server.go")])
p("N04","Failures are detected within the heartbeat interval",
  """With a heartbeat enabled, a dead server is noticed within about one interval plus the timeout.""",
  ["fault_sequences","schedules"],"all failure times",
  "no test measures time",
  [CS],[("heartbeat timer","client/server.go: heartbeat")])
os.chdir(os.path.dirname(os.path.abspath(__file__)))
with open("properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
print(len(P))
