S="Sound for the modelled library calls and the reply grammar: every path of every operation is covered, loops by fixpoints. Trusts the models of the standard library, x/tools/go/ssa and the checker itself; what it cannot follow is listed in the evidence as undecided and claimed neither way. "
c("C01",S+"Says nothing about connections used without the library's types.",LOCK)
c("C02",S,LOCK)
c("C03",S)
c("C04",S)
c("C05",S)
c("C06",S)
c("C07",S)
c("C08",S)
c("C09",S)
c("C10",S)
c("C11",S)
MG="GetMulti is followed for lists of 0, 1 and 2 distinct unknown keys (thorough: 3), every sequence of replies, and for lists as long as the lengths the code tells apart, with every key found. "
c("C12",S+MG)
c("C13",S)
c("C16",S+"Values longer than 1 GiB are left out.")
c("C17",S)
na={}
na.update({
"N01":"The share of keys is a statistic of the numeric values of the hash function over all keys; no static argument in reach bounds it.",
})
na.update({
"N02":"Two writers of one key hit the primary and the secondary in separate exchanges by design, so the property is false under some interleavings of the network; what the code must do per write is P05/P06.",
"N03":"Depends on the state of an external memcached process over a history of operations, which the source of this library does not determine.",
"N04":"A statement about elapsed time; static analysis of the source bounds no scheduling or network delay. The structure of the heartbeat is C14.",
})
c("C18",S,LOCK)
RG="NewRing is followed for 1, 2 and 3 servers (thorough: up to 6) of unknown names, the lookup for rings of any size; GetMulti of a pool for up to 3 keys (thorough: 4). "
for i in "P01 P02 P03 P04 P05 P06 P07 P08 P09".split():
    c(i,S+RG+"The operations of the servers are uninterpreted here: each call succeeds or fails with unknown results; what they do is decided by C01-C18.")
c("X01",S+"The operations of the pool are uninterpreted: success with any result (up to three items) or failure with any error. Whether an error is a memcached error is decided by its type, as everywhere in the library.")
c("X02","Over-approximates aliases (flow- and context-insensitive, field-based), so every write through an alias inside the module is found; writes by library functions are known from a table. Exported error variables can be assigned to by users, which no analysis of the library prevents.","whole-program alias analysis (flow-insensitive, field-based propagation over the SSA form)")

SV="Forms of requests are enumerated (listed in checker/serverspec.go), their operands are unknown; up to three keys per request, up to two responses per answer. "
for i in "S02 S03 S04 S05 S06".split():
    c(i,S+SV)
c("S01",S+"The bytes of the client are arbitrary in the unit server:any:U; what follows the answer of the handler is decided for every valid form with up to two responses of unknown content.")
c("S07",S+"Up to two responses of unknown content per answer.")
c("X03",S+SV)

LIFE="typestate rules over abstract interpretation of the type-checked SSA form; the states between operations are enumerated up to a fixpoint"
c("C14","All sequences of Close, Reconnect and failures of a connection, and the goroutine the constructor starts, with any options. A probe is any command of the connection. That the ticker keeps time is trusted; how long a probe takes is not bounded (C09).",LIFE)
c("C15","All sequences of Close, Reconnect and failures of a connection; each operation is taken as one step (C01 and C18 decide that they are). The dialer is trusted to connect to what it is given.",LIFE)
c("X05",S+"The operations of the servers are uninterpreted; what they do to one connection is decided by C01 and C18. Multi-gets of up to 3 keys (proxy: up to 20).",LOCK)
c("X04",S+"Configurations with up to three servers of each role; their names, hosts and ports are unknown. Goroutines are not followed.")
