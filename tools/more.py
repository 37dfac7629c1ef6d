MEM = "TLA+ specification MemKV model checked with TLC; its generated behaviours are replayed into the real memdb (conformance)"
p("P17", "memdb returns for a key its most recent entry, and exactly what was put",
  "Get of memdb returns the entry of the key in the most recent time block that has one, Lookup the entry of the given block, byte for byte as put; Delete removes the key from every block, Free removes exactly one block, and neither touches anything else. Keys, Size, All and the block iterator show exactly the entries that are there, and entries of a batch appear all at once when it is written and go when it is aborted.",
  ["histories", "inputs", "schedules"],
  "every sequence of puts, overwrites, deletes, frees, batches (several open at once), passing time over any number of time blocks, closes and opens; any keys and values, the empty one included",
  "The tests put a few keys and read them back within one time block.",
  ["memdb/db.go", "memdb/db_internal.go", "memdb/block.go", "memdb/batch.go", "memdb/time_mark.go", "hash/consistent.go"],
  [("time blocks with a map from key to offset; filters tell the blocks of a key", "memdb/block.go, memdb/db_internal.go timeIDs, addTimeFilter"),
   ("blocks of a batch are added when it is written and released when it is aborted", "memdb/batch.go Write, Commit, Abort")],
  ["memdb: Put, Get, Lookup, Delete, Free, Keys, Size, All, BlockIterator, Batch"], [("blk", "entries of every time block", "spec/MemKV.tla")], tech=MEM)
p("P18", "memdb keeps its entries across close, crash and recovery",
  "After a close and open memdb holds the same entries in the same time blocks. After the process dies at any moment, every entry and every deletion that was logged (its batch write returned, or a log interval has passed) is found as it was; of each block one of the states it had since it was last logged is recovered and nothing else, so that a batch is recovered whole or not at all. Recovered blocks do not change by later puts, and a reset opens an empty store.",
  ["crash_points", "histories", "inputs"],
  "every change of a log file (creation, partial write, rename, removal) in every history of puts, overwrites, deletes, frees, batches and passing time",
  "The tests recover a handful of keys after a clean close.",
  ["memdb/recovery.go", "memdb/tiny_log.go", "memdb/db_internal.go", "memdb/block.go", "wal/wal.go", "wal/file.go", "wal/reader.go", "wal/writer.go"],
  [("each block is logged from where it was last logged; deletions follow entries; a log is written aside and renamed", "memdb/db_internal.go tinyWrite, wal/file.go put"),
   ("logs are read in the order in which they were written and put together by time ID", "memdb/recovery.go startRecovery")],
  ["memdb: Open, Close, All, Lookup, Get after reopening; copies of the log directory at crash points"], [("vers", "contents a block had since it was logged", "spec/MemKV.tla")], tech=MEM)
CONC = "TLA+ specification of histories (History, checked on StoreConc with TLC); histories recorded from goroutines on the real code are judged by it in TLC (trace checking)"
p("P14", "Concurrent use is safe: no lost, reordered, duplicated or phantom messages",
  "When many goroutines use a DB (or memdb) at the same time, in every schedule every message whose put has returned is found by a later query until it is deleted or rolled back, and nothing else is; queries return no message twice, of another topic, before it was put or after its delete has returned, and in the order of their sequence; IDs of NewID are unique and increase. No call panics, hangs or races with another one, while the DB syncs, expires and releases blocks, while it is closed, and when the process is killed.",
  ["schedules", "histories", "crash_points"],
  "every interleaving of calls of up to 12 goroutines and the background jobs; any mix of puts, deletes, queries, NewID, Count, Sync, batches that are committed or rolled back, and Close",
  "The tests use one goroutine, but for one test of concurrent batches that checks only that nothing fails; schedules cannot be sampled by fixed expectations.",
  ["db.go", "db_internal.go", "batch.go", "sync.go", "time_window.go", "memdb/db.go", "memdb/db_internal.go", "memdb/time_mark.go", "wal/wal.go", "lock.go", "mutex.go"],
  [("locks per shard of the time window, the trie, the free list, memdb blocks", "time_window.go, trie.go, free_list.go, memdb/db_internal.go"),
   ("Sync reads entries of memdb that are complete, oldest block first", "sync.go startSync, memdb/block.go"),
   ("Close waits for background jobs", "db.go Close, closer")],
  ["results of calls of DB, Batch and memdb with the times at which they begin and end"], [("msgs, dels, gets", "intervals of puts, deletions, queries", "spec/History.tla")], tech=CONC)
SRV = "TLA+ specification Server model checked with TLC; its generated behaviours are replayed into the real server by clients over pipes in virtual time (conformance)"
SV = "server/internal/"
p("P19", "A published message reaches each matching subscription of the contract once",
  "Every message that the server accepts is sent once, unchanged and under its topic, for each subscription (of a connected client of the same contract) that covers the topic, in the way that publisher and subscriber asked for, and to nobody else. Subscriptions count: a topic subscribed twice is delivered once and ends with the second unsubscribe; they end with the connection, however it ends. Requests are acknowledged once, and what one client sends, be it malformed, does not affect others.",
  ["histories", "inputs", "programs"],
  "any number of clients of several contracts that connect, subscribe, unsubscribe, publish, ping, fall silent and disconnect in any order; topics with wildcards and any names; all delivery modes; up to some thousand subscribers",
  "The server has no tests; routing depends on the history of subscriptions of all connections.",
  [SV + "conn.go", SV + "hdl_conn.go", SV + "conn_cache.go", SV + "store/store.go", SV + "message/sub.go", SV + "message/messageids.go", SV + "db/unitdb/adapter.go"],
  [("subscriptions are entries of the store under contract xor a constant, found like messages by topic", "server/internal/conn.go subscribe, publish; server/internal/store/store.go SubscriptionStore"),
   ("each connection counts its subscriptions and removes them when it is closed", "server/internal/message/sub.go, conn.go unsubAll")],
  ["packets that clients of the server receive"], [("subs", "subscriptions of a client with count, mode and delay", "spec/Server.tla"), ("sess", "items routed to a client", "spec/Server.tla")], tech=SRV)
p("P20", "A message stays in the session of its client until the client completes it",
  "A message routed to a client is announced again whenever the client connects, over lost connections and restarts or a crash of the server, and can be received again with the same content, until the client has acknowledged it (or sent the receipt); from then on, or after a connect that asks for a clean session, it never comes back. No message ID of a session stands for two messages at a time. Sessions of clients do not mix.",
  ["histories", "crash_points", "fault_sequences"],
  "any history of connects, lost connections, clean and kept sessions, restarts and kills of the server, announced, fetched and completed messages of all delivery modes",
  "The server has no tests; loss shows only when a connection or the server ends between two steps of the protocol.",
  [SV + "hdl_conn.go", SV + "conn.go", SV + "store/store.go", SV + "message/messageids.go", SV + "db/unitdb/adapter.go", "memdb/db.go"],
  [("outgoing messages are logged under session and message ID before they are sent and removed by RECEIPT or ACKNOWLEDGE", "server/internal/conn.go storeOutbound, storeInbound"),
   ("a connect looks up the session of the client and announces what the log has", "server/internal/hdl_conn.go CONNECT, conn.go resume")],
  ["packets that clients of the server receive, before and after reconnects and restarts"], [("sess", "items of the session of a client", "spec/Server.tla")], tech=SRV)
p("P21", "Keys and client IDs decide who may read, write and create clients",
  "On a secure connection a request is carried out only if its key was made for the contract of the client, for the permission, and for this topic (or, to read, for all topics); otherwise it has no effect but an error that names the request. A connection is accepted only with a client ID that this server's key has sealed; others get a new ID and are closed; a secondary ID belongs to the contract of the primary client that asked for it, only primary clients get one, and no two are equal.",
  ["inputs", "histories", "configurations"],
  "keys of every combination of contract, permission and topic, missing and malformed keys; publish, subscribe, unsubscribe and relay; altered, truncated and recombined client IDs, with IDs cached or not",
  "The server has no tests; every combination of key and request matters, also after other IDs were cached.",
  [SV + "hdl_conn.go", SV + "message/security/key.go", SV + "pkg/uid/clientid.go", SV + "pkg/crypto/mac.go", SV + "pkg/encoding/encoding.go", SV + "types/types.go"],
  [("key holds contract, permission bits and a hash of the topic", "server/internal/message/security/key.go ValidateTopic, HasPermission"),
   ("client IDs are sealed with an AEAD", "server/internal/pkg/uid/clientid.go Encode, Decode")],
  ["answers and effects of requests of clients"], [("sec", "connections that need keys", "spec/Server.tla"), ("Grants", "what a key allows", "spec/Server.tla")], tech=SRV)
p("P22", "Relay answers with exactly the stored messages of the topic and time asked for",
  "A relay request delivers every message of the contract that was published on the topic within the last period asked for and that has not expired, once for each request, to the client that asked and to nobody else; also messages published before the server was restarted or killed. Topics of a relay request are taken literally.",
  ["histories", "inputs", "crash_points"],
  "any history of publications with and without TTL by clients of several contracts, of passing time, restarts and kills; any period; several requests at once",
  "The server has no tests; expiry and period interact with when the store has written and recovered the messages.",
  [SV + "hdl_conn.go", SV + "store/store.go", SV + "db/unitdb/adapter.go", "query.go", "db.go"],
  [("messages are stored under the contract with their TTL before they are routed", "server/internal/hdl_conn.go onPublish"),
   ("a relay request is a query of the store with a cutoff", "server/internal/hdl_conn.go onRelay, query.go WithLast")],
  ["packets that follow a relay request"], [("store", "stored messages with time and expiry", "spec/Server.tla")], tech=SRV)
p("P23", "Batched and delayed messages are delivered once, completely and not too early",
  "Every message for a subscription with batch delivery or with a delay is delivered in some batch exactly once, whatever the duration, count and size limits of the batches of the connection are; not before its delay has passed unless a limit is exceeded. When the connection ends in the meantime the message is not lost but is in the session of the client.",
  ["histories", "configurations", "schedules"],
  "any sequence of publications, relays, subscriptions with delays, and disconnects while messages wait in batches; limits of zero and above",
  "The server has no tests; batches are filled, timed out and flushed by concurrent loops.",
  [SV + "batch.go", SV + "conn.go", SV + "hdl_conn.go"],
  [("batches are grouped by the time at which they are due", "server/internal/batch.go add, publishLoop"),
   ("batches that wait are flushed when the connection is closed", "server/internal/batch.go dispatch, publish, close")],
  ["packets that clients of the server receive and when"], [("sess", "items routed to a client", "spec/Server.tla")], tech=SRV)
p("P24", "No input of a client ends the server or disturbs other clients",
  "Whatever bytes a client sends, before or after CONNECT (malformed packets and lengths, impossible topics, unknown message IDs and types, packets out of order or cut off), the server goes on, every other client gets exactly what it would get otherwise, and the sender's own connection is closed or goes on with the next packet.",
  ["inputs", "histories", "fault_sequences"],
  "random bytes, well-formed packets with malformed fields, packets out of order, packets cut at any byte, all interleaved with clients that behave",
  "The server has no tests; robustness is a statement about all inputs.",
  [SV + "hdl_conn.go", SV + "conn.go", SV + "net/message.go", "server/utp/message.go", "server/utp/connect.go", "server/utp/publish.go", "server/utp/subscribe.go", "server/utp/relay.go", "server/utp/flow_control.go", SV + "message/security/key.go"],
  [("lengths and topics are checked before use", "server/internal/net/message.go Read, server/internal/message/security/key.go ParseKey"),
   ("requests before CONNECT and unknown messages close the connection", "server/internal/hdl_conn.go handler")],
  ["the server's process, packets that other clients receive"], [("conn", "which clients are connected", "spec/Server.tla")], tech=SRV)
CLU = "TLA+ specifications Election and Membership model checked with TLC; histories of clusters of the real code on a network with drawn troubles are judged by TLC against ElectionHistory (trace validation)"
p("P25", "A cluster has at most one leader in a term, elected by a majority",
  "A node of a cluster acts as leader of a term only if more than half of all configured nodes, counting itself, voted for it in this term. No node votes for two candidates in a term, votes for an earlier term than its own or goes back to one, or follows somebody who was not elected in its term.",
  ["schedules", "fault_sequences"],
  "clusters of 3 to 5 nodes; any sequence of crashed and started nodes, cut, held up, one-way and slow links; each start of a node counts as another voter, since a node forgets its vote when it stops",
  "The cluster has no tests; two leaders need messages that are late and elections that overlap.",
  [SV + "cluster_leader.go", SV + "cluster.go"],
  [("a vote goes to the first candidate of a later term", "server/internal/cluster_leader.go run"),
   ("votes of a term are counted up to a majority of the configured nodes", "server/internal/cluster_leader.go electLeader"),
   ("pings of an earlier term are ignored", "server/internal/cluster_leader.go run")],
  ["requests for votes, answers and pings between nodes; term and leader of each node"],
  [("term, leader", "of each node", "spec/Election.tla"), ("votes", "answers to requests for votes", "spec/Election.tla")], tech=CLU)
p("P26", "Live nodes of a cluster come to agree on a leader and on the owners of contracts",
  "When no nodes or links fail any more and more than half of the nodes are alive, then after a bounded time all live nodes follow one live leader, there are no further elections, and the rings of all consist of exactly the live nodes, so that they agree on the owner of each contract; a node that is reachable and never answers does not prevent this. A leader announces the nodes of its ring; rings depend on the set of nodes only, and a contract moves only to a node that is added or from one that is removed; failed calls between nodes do not end a node.",
  ["schedules", "fault_sequences", "configurations"],
  "clusters of 3 to 5 nodes after any sequence of crashed and started nodes, cut, held up, one-way and slow links; vote and failure limits; all sets of nodes for rings",
  "The cluster has no tests; disagreement depends on who failed under which leader, and shows only after leaders changed.",
  [SV + "cluster_leader.go", SV + "cluster.go", SV + "pkg/hash/ringhash.go"],
  [("the leader removes nodes that failed a number of pings in a row, and adds them when they answer", "server/internal/cluster_leader.go sendPings"),
   ("followers take over the nodes of the leader when their ring differs twice", "server/internal/cluster_leader.go run"),
   ("connections to nodes are made again", "server/internal/cluster.go reconnect, call, callAsync"),
   ("consistent hashing", "server/internal/pkg/hash ring")],
  ["pings between nodes; leader, term and ring of each node in the end"],
  [("act, ring, fails", "nodes that a node takes for active, its ring, failures that it counted", "spec/Membership.tla")], tech=CLU)
LCK = "TLA+ specification Lock model checked with TLC; its generated schedules are replayed into handles of the real DB in several processes, and their histories are judged by TLC against LockHistory (conformance and trace validation)"
p("P13", "At most one handle has a database open, and a free database can be opened",
  "Of all handles, in any number of processes, at most one has a database open at any moment; an open is refused only while another handle has it open, opens or closes it. After the handle was closed, its process was killed at any point, or its open failed for another reason, the database can be opened again, with the messages and the count that it had.",
  ["schedules", "crash_points", "histories"],
  "every interleaving, from one call on the lock file to the next, of opens, opens that fail and closes by several handles of one or more processes, each of which may be killed at any of these points",
  "The tests open a DB twice in a row at most; two owners need a close between two steps of an open.",
  ["db.go", "file.go", "file_unix.go", "db_internal.go"],
  [("the lock file is locked by its owner and removed on close, before the lock is released", "file_unix.go newLockFile, unlock"),
   ("a lock file that was removed before it was locked is not taken", "file_unix.go newLockFile"),
   ("a mark in the lock file, or the file itself, tells that the DB was not closed", "db.go Open, file_unix.go newLockFile")],
  ["results of Open and Close of each handle; messages and count of the DB in the end"],
  [("name, owner", "inode of the lock file, handle that has it locked", "spec/Lock.tla"), ("mark, crashed", "the DB was not closed when it was last in use", "spec/Lock.tla")], tech=LCK)
