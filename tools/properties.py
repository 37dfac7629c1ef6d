#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None, level="model_checking", tech=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, observe=observe,
                  state=state, hook=hook, level=level, tech=tech, note=note))

GEN = "TLA+ specification UnitStore model checked with TLC; its generated behaviours are replayed into the real DB (conformance)"

p("P01", "A query returns exactly the matching live messages, most recent first",
  "A query for a topic and contract returns the payload of every message that was put under a topic matching it, in that contract, and that is not deleted or expired; nothing else, each message once, ordered from the most recently put to the oldest, and cut to the most recent ones when there are more than the query limit. This is the same whether the messages are in memory, synced to disk, spread over any number of blocks, or partly both, and a put is visible to the next query.",
  ["histories", "inputs", "configurations"],
  "every sequence of puts (plain, with an ID, batched, with any contract), deletes, syncs, passing time, closes and opens, and every query topic, contract and limit after each of them",
  "The tests put a few messages under one topic and read them before or after one sync; they never mix memory and disk, several blocks, several topics and limits.",
  ["db.go", "db_internal.go", "time_window.go", "time_window_writer.go", "block_reader.go", "block_writer.go", "trie.go", "query.go"],
  [("lookup merges the entries of memory and of the window file, newest first", "time_window.go lookup, db_internal.go lookup"),
   ("entries are read from the memory DB or the index and data file", "db_internal.go readEntry, readMessage"),
   ("sync moves entries of a memory block to window, index and data files before it releases them", "db_sync.go Sync")],
  ["DB.Get, DB.Put, DB.PutEntry, DB.Batch, DB.Sync"], [("msgs", "what is live, under which topic and contract, in put order", "spec/UnitStore.tla")])

p("P02", "Messages survive a clean close and open unchanged",
  "After the DB is closed and opened again, with the same or other options, every query returns exactly what it returned before the close: the same payload bytes in the same order, with topics, contracts, encryption and remaining time to live intact, including messages that had never been synced. This holds for any number of closes and opens.",
  ["histories", "inputs", "configurations"],
  "every history of puts, deletes, batches and syncs, ending at any moment in a close, and every later reopening",
  "The tests open a DB once, on a fresh directory, and remove it.",
  ["db.go", "recovery.go", "db_internal.go", "memdb/recovery.go", "wal/reader.go", "leasing.go", "filter.go"],
  [("close writes the log of the memory DB, information and free list", "db_internal.go close, memdb/db.go Close"),
   ("open loads topics from window blocks and recovers the log into index, data and window files", "db_internal.go loadTrie, recovery.go startRecovery")],
  ["DB.Close, Open, DB.Get"], [("open, msgs", "state across processes", "spec/UnitStore.tla")])

p("P03", "A crash at any point loses no durable message and invents none",
  "If the process dies at any moment, the next open succeeds and finds every message whose put had been logged or synced (a tenth of a second after the put returned, or when its batch or a sync returned) and that was not deleted; it finds no message that was never put, or whose deletion was durable, each at most once and with the bytes that were put. The recovered DB works: messages put afterwards, syncs, closes and opens keep both the recovered and the new messages.",
  ["crash_points", "histories"],
  "every file write, truncation, rename, removal and sync that the process makes, in every history of puts, deletes, batches, syncs and reopenings; a large write may be cut at a page",
  "No test kills a process with a DB; a sample of runs cannot visit the crash points between the writes of one sync, and recovery from each.",
  ["recovery.go", "db_sync.go", "memdb/tiny_log.go", "memdb/recovery.go", "wal/wal.go", "wal/file.go", "wal/reader.go", "wal/writer.go", "block_writer.go", "time_window_writer.go"],
  [("log is written before entries are acknowledged durable and removed after they are synced", "memdb/tiny_log.go, wal/wal.go"),
   ("recovery is idempotent: entries that exist in the index are not added again", "recovery.go, block_writer.go append")],
  ["directory of the DB at each crash point, opened with Open; DB.Get"], [("dput, ddel, synced", "what has reached the disk", "spec/UnitStore.tla Crash, Must, May")],
  hook="verif_hook.go, wal/verif_hook.go: called before each change of a file")

p("P04", "A deleted message never comes back, and only that message is deleted",
  "After a delete of an ID returns without error, no query returns that message again: not after syncs, passing time, closing and opening, or the reuse of its space, and every other message stays as it was. Deleting a message that is already deleted changes nothing, and on a DB opened without the mutable option deletes are refused with an error and nothing is deleted.",
  ["histories", "inputs"],
  "every history with deletes of messages in any state (in memory, in a batch, logged, synced, recovered) followed by any other operations",
  "The tests delete one message once and read back immediately.",
  ["db.go", "db_internal.go", "batch.go", "block_writer.go", "memdb/db.go", "memdb/tiny_log.go", "filter.go"],
  [("delete of a synced entry marks the index entry and frees its space", "db_internal.go deleteSynced, block_writer.go"),
   ("delete of an entry in memory is logged", "memdb/db.go Delete")],
  ["DB.Delete, DB.DeleteEntry, Batch.Delete, DB.Get"], [("st = dead", "deleted", "spec/UnitStore.tla Delete")])

p("P05", "A batch is all or nothing",
  "The puts and deletes of a batch become visible only when its function returns without error, and then all of them; if the function returns an error, none of them ever is. If the process dies, either all the messages a write of the batch covers are found at the next open or none is, and all are once the call has returned.",
  ["histories", "crash_points", "inputs"],
  "every batch (any mix of puts with and without ID, contracts, encryption, deletes and intermediate writes; committed or rolled back) in every history, and every crash point during it (for batches of puts)",
  "The tests commit a few small batches of puts in one process and read them back.",
  ["batch.go", "db.go", "memdb/batch.go", "memdb/db.go", "memdb/tiny_log.go", "memdb/recovery.go"],
  [("a batch writes to memory blocks of its own that are published and logged on commit", "batch.go Write, Commit; memdb/batch.go"),
   ("log of a batch is one log file, renamed when complete", "wal/file.go put")],
  ["DB.Batch; DB.Get inside and after the batch and after a crash"], [("grp", "the batch a message was committed by", "spec/UnitStore.tla Commit, Rollback")],
  hook="verif_hook.go, wal/verif_hook.go")

p("P06", "Wildcard topics match exactly the topics they cover",
  "A message put under a pattern is returned by a query for a concrete topic exactly when the pattern covers it: a level '*' stands for exactly one level, a final '...' for any number of further levels including none, and any other level only for itself. This is the same before and after syncing, reopening, and adding or deleting other topics and patterns, however many share levels.",
  ["inputs", "histories"],
  "every pattern and topic of up to three levels over two names (and longer ones in the specification), and every set of patterns stored together",
  "The tests check a handful of fixed patterns in memory.",
  ["trie.go", "message/topic.go", "db_internal.go", "query.go"],
  [("trie walks literal and wildcard children of each level", "trie.go lookup"), ("hash of a topic is formed from its levels and their position", "message/topic.go GetHash")],
  ["DB.Put with a pattern, DB.Get with a topic"], [("Covers", "the matching relation", "spec/Topics.tla")])

p("P07", "Contracts are isolated from each other",
  "A message put with a contract is returned only by queries with that contract, whatever topics, wildcards and IDs are used, and a message put without a contract only by queries without one (the default contract). A delete or an expiry in one contract leaves other contracts untouched, and isolation survives syncing, reopening and crashing.",
  ["inputs", "histories"],
  "every assignment of contracts (including 0, 1, all ones and values that differ from the default in one bit) to puts, batches, deletes and queries over shared topics",
  "The tests use one contract.",
  ["entry.go", "query.go", "batch.go", "db_internal.go", "message/topic.go", "trie.go"],
  [("contract is the first part of a topic and of its hash", "message/topic.go AddContract, GetHash")],
  ["WithContract of entries, queries and batches; DB.Get"], [("con", "contract of a message", "spec/UnitStore.tla Selects")])

p("P08", "A message is returned until it expires and never afterwards",
  "A message put with a time to live is returned by every query that covers it until that time has passed and by none from then on, across syncs, background expiry, reopening and crashes; a message put without one never expires. Expiry of a message affects no other message and does not use up the limit of a query.",
  ["histories", "inputs"],
  "every time to live and moment of the query, in memory or on disk, with background expiry on or off, and every interleaving with syncs, deletes, reopenings",
  "One test waits for a single expired message in memory.",
  ["expiry_window.go", "time_window.go", "entry.go", "db_sync.go", "db_internal.go"],
  [("lookup leaves out expired entries and counts only the others against the limit", "time_window.go lookup"), ("the expirer deletes entries whose window has passed", "db_sync.go expireEntries, expiry_window.go")],
  ["Entry.WithTTL, '?ttl=' of a topic, DB.Get at a virtual time"], [("exp, now", "second of expiry and time", "spec/UnitStore.tla Expired")])

p("P09", "IDs are never handed out twice and follow each other",
  "Every ID the DB hands out differs from every ID it handed out before and is ordered after them, across closes, opens and crashes, and whether or not the ID was used. A put, a rolled back batch or a recovery never gives a message the ID of another one.",
  ["histories", "crash_points", "schedules"],
  "every history of new IDs, puts with and without an ID, batches, syncs, reopenings and crashes at any file change",
  "The tests use IDs of one process only.",
  ["db.go", "db_internal.go", "db_info.go", "recovery.go", "message/id.go"],
  [("sequence is reserved in the info file ahead of the IDs handed out, and recovered from the log", "db_internal.go nextSeq, recovery.go")],
  ["DB.NewID"], [("msgs", "its length is the number of IDs handed out", "spec/UnitStore.tla NewID, Put")], hook="verif_hook.go")

p("P10", "Reused space never damages a live message",
  "Space of deleted and expired messages that is given to new messages never overlaps the space of a live message or of another new one: whatever sizes are freed and put, in any order and across closes, opens and crashes, every live message is read back with exactly the bytes that were put.",
  ["histories", "inputs", "crash_points"],
  "every sequence of puts and deletes with payloads of one byte to many kilobytes, with free space used as soon as there is any, and syncs, expiries, reopenings and crashes in between",
  "The lease test frees and allocates a few fixed sizes; the free-list threshold keeps reuse from ever happening in the other tests.",
  ["leasing.go", "block_writer.go", "db_internal.go", "recovery.go"],
  [("free list by size with merging of neighbours; allocation removes or splits a free block", "leasing.go allocate, free, defrag"), ("free list is persisted on close and discarded after a crash", "leasing.go read, write")],
  ["DB.Get of every live message after each operation"], [("msgs", "payload identity", "spec/UnitStore.tla")])

p("P11", "The count is the number of stored messages",
  "The count of the DB is the number of messages that are synced to its index and not deleted: it grows by exactly the messages a sync or recovery stores, and falls by one with the deletion of each, whatever is deleted twice, recovered, or rolled back. After an open it is the number of messages found, also after a crash.",
  ["histories", "crash_points"],
  "every history of puts, batches, deletes (also repeated), syncs, reopenings and crashes",
  "The tests compare the count once after one sync.",
  ["db_internal.go", "db_sync.go", "recovery.go", "db_info.go", "db.go"],
  [("incount when a sync completes, decount for each deleted index entry, recount after an unclean shutdown", "db_sync.go sync, db_internal.go deleteSynced, recount")],
  ["DB.Count"], [("Count", "live and synced messages", "spec/UnitStore.tla Count")])

p("P12", "Encrypted messages are unreadable without the key and unchanged with it",
  "A message put with encryption, of the entry or of the DB, reads back exactly as put with the key of the DB, for any payload and across syncs, reopening and crashes; its payload never appears in the clear in any file of the DB, log included. With another key its payload is never returned.",
  ["inputs", "histories", "configurations"],
  "payloads of any size from one byte up, encryption per entry, per batch and per DB, and every state of the message (logged, synced, recovered)",
  "The tests encrypt one short message and read it back in the same process.",
  ["db_internal.go", "entry.go", "batch.go", "crypto/mac.go", "options.go", "db_info.go"],
  [("value is encrypted before it is put in memory; a bit of the ID tells that it is", "db_internal.go setEntry, readMessage; message/id.go")],
  ["files of the DB; DB.Get with the right and with another key"], [("enc", "encrypted", "spec/UnitStoreGen.tla")])

p("P15", "Invalid calls and calls on a closed DB fail without effect",
  "Every operation on a closed DB, or of a batch that is complete or whose DB was closed, returns an error, never panics, blocks or touches the files, and a put without topic or payload, with a topic that is too long, a delete without an ID, or either with an ID that no message can have is refused with an error. None of them changes what queries return before or after the DB is opened again.",
  ["histories", "inputs"],
  "every operation at every point of a history, before, between and after any number of closes and opens",
  "The tests do not call a closed DB.",
  ["db.go", "batch.go", "db_internal.go", "errors.go", "query.go"],
  [("ok() before each operation; argument checks", "db.go")],
  ["errors of the public API; DB.Get"], [("open", "whether the DB is open", "spec/UnitStore.tla")])

p("P16", "Query options select exactly the most recent messages asked for",
  "The limit of a query (or the count given with 'last', or else the default limit, and never more than the maximum limit) returns that many of the most recent matching messages, or all if there are fewer; a duration given with 'last' leaves out exactly the messages put before it. Neither drops, repeats or reorders anything else, wherever the messages are stored and however many are deleted or expired in between.",
  ["inputs", "histories", "configurations"],
  "every limit, last count and last duration, default and maximum limit of the DB, over every store content (in memory, on disk, several blocks, several topics that match)",
  "The tests query with one limit that is larger than the number of messages.",
  ["query.go", "time_window.go", "db_internal.go", "db.go", "options.go", "message/topic.go"],
  [("limit and cutoff are applied to the merged entries, newest first", "time_window.go lookup, db.go Get"), ("options of a topic and of a query are parsed", "query.go parse")],
  ["Query.WithLimit, Query.WithLast, '?last=' of a topic, WithDefaultQueryLimit, WithMaxQueryLimit, DB.Get"], [("Result", "limit and cutoff", "spec/UnitStore.tla Result")])

#MORE

import importlib.util
if os.path.exists(os.path.join(V, "tools", "more.py")):
    exec(open(os.path.join(V, "tools", "more.py")).read())

P.sort(key=lambda x: x["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps({"id": x["id"], "title": x["title"], "statement": x["statement"],
            "quantifier": {"over": x["over"], "text": x["qtext"]}, "why_tests_cant": x["why"],
            "anchors": {"files": x["files"], "state": [{"name": a, "meaning": b, "where": c} for a, b, c in x["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in x["mech"]], "observe_at": x["observe"], "hook_needed": x["hook"]}}) + "\n")

NA = globals().get("NA", [])
m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
     "hooks": {"guard": "verif", "enable": "go build -tags verif (the checks compile test binaries with -tags verif)",
               "source_commits": ["2455b53"] + globals().get("HOOKS", [])},
     "checks": [{"property": x["id"], "quick_cmd": "/verif/check %s quick" % x["id"], "thorough_cmd": "/verif/check %s thorough" % x["id"],
                 "evidence_file": "evidence/%s.json" % x["id"], "technique": x["tech"] or GEN, "level": x["level"],
                 "level_note": x["note"] or "bounded exploration: TLC checks the specification exhaustively on small constants; conformance is by seeded random behaviours of it replayed into the real code"}
                for x in P if x["id"] not in [n["property"] for n in NA]],
     "not_applicable": NA,
     "notes": "Specification in TLA+ (TLC). See DESIGN.md; genuine defects found are in KNOWN_FINDINGS."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties")
