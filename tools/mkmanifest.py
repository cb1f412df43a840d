#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json. CHECKS lists what is claimed; everything else goes under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = "runtime monitoring: "
CHECKS = {
 "P01": ("online model oracle over randomized transaction workload", "Every transaction of generated histories is judged by an independent reference model of the transactor, on the report, the datoms table and the query interface. Sampling, not exhaustion; the model is trusted."),
 "P02": ("offline log checker (conservation + replay) over randomized histories", "The stored log is compared entry by entry with the model's net changes after every transaction, and every prefix is replayed. Sampling; the model is trusted."),
 "P03": ("online model oracle over upsert-heavy randomized transactions", "Resolution of every tempid and lookup reference is judged against a fixpoint model; transitive merges of new tempids are left open. Sampling."),
 "P04": ("full-store scan monitors after every transaction", "After every transaction, accepted or refused, independent scans of the datoms table and the query interface look for duplicates, cardinality, uniqueness, type and dangling-attribute violations. Sampling."),
 "P05": ("twin-execution and before/after dump oracle over transactions in progress", "Refused steps, rollbacks and drops must leave every table, schema, id counter and query answer as before (raw dumps), and later work must go as in a twin store that never did the undone work. Sampling."),
 "P06": ("twin-execution oracle: reopened store against one never closed", "Stores are closed and reopened at random points and compared, on all tables, schema, query answers and the outcome of later transactions, with a twin that stays open. Sampling."),
 "P08": ("cross-representation schema monitor over schema-heavy histories", "After every transaction live schema, materialised tables, stored facts and model must agree, and the schema must hold after reopening; alterations are judged by the model. Sampling."),
 "P09": ("allocation monitor over histories with reopen, rollback and concurrency of in-progress work", "Every new id is checked against every id ever seen in reports or datoms, and use of unallocated ids must be refused. Sampling."),
 "P10": ("naive reference evaluator as oracle over randomized queries and data", "Random stores and queries (patterns, or, not, or-join, not-join, predicates, type, ground, nesting, name shadowing) are answered by mentat and by a nested-loop evaluator on the model's facts; result sets must be equal and free of repeats. Sampling; queries in the class of the three listed findings are skipped."),
 "P11": ("shape oracle over randomized aggregated, ordered and limited queries", "Find specifications, aggregates with :with and (the ?x), :order and :limit are recomputed from the naive evaluator's bindings and compared, including row order and choice at the limit. Sampling."),
 "P12": ("differential oracle over inputs, entry points and hostile data", "Constants and variables of random queries are turned into inputs and the answers of q_once, q_uncached, a prepared query run three times and a read inside a transaction are compared with the naive evaluator; missing and ill-formed inputs must be refused; hostile strings must match exactly themselves; raw dumps before and after must be equal. Sampling."),
 "P13": ("online model oracle over interleaved cache operations and writes", "Caches are registered and removed in every direction around and inside transactions in progress (writes, schema alterations, commit, rollback, drop); after each event queries that the cache can answer and lookups are compared with the naive evaluator and the model, and a cache held from before must still show the earlier facts. Sampling."),
 "P14": ("online model oracle over direct pulls and pull expressions", "Pulls of random entities and attributes, by wildcard, alias, :db/id and inside queries of every shape, are compared with the model's facts of each entity. Sampling; unnamed attributes and repeated names are left open."),
 "P15": ("round-trip oracle over extreme values through every read path", "Extreme and near-colliding values of every type are written as text, by builders and inputs, and read back through queries, lookups, pulls, caches, the log and a reopened store, and searched for by value. Sampling; NaN cannot be stored."),
 "P16": ("round-trip, differential and crash monitors over generated and mutated texts", "An independent writer and reader of the data format judge values, spans and both printers; layout changes must not matter; mutated data, transactions and queries must give a value or an error, and accepted ones are run on a populated store and may be refused but not crash. Sampling."),
    "P17": ("oracle over the model's log for queries with tx-ids and tx-data", "Generated queries with log clauses (bounds, bound and free variables, inputs, joins with patterns, alternatives and negations) are judged against the log the model kept, after histories of all kinds of transactions. Full-text values in the log are a known finding. Sampling; bounds that are instants are refused as documented."),
    "P18": ("oracle over an independent word index for full-text queries and storage", "Histories with full-text attributes (repeated, retracted, re-asserted, upserted, renamed and unindexed strings) are queried with fulltext clauses of every documented form and judged against an index built from the current facts; ordinary reads of full-text values too. Sampling; scores are only judged to be present."),
    "P19": ("online monitor inside observers, judged offline against the log", "Observers (slow ones, ones that look from another connection, replaced, shared and removed ones) record what they are told while random transactions commit, fail, roll back and are dropped; after quiescence each observer's history must equal the sequence derived from the log. Sampling of schedules by delays; quiescence is bounded by a 60 s watchdog."),
    "P20": ("state-restoration oracle over random rewindings", "Random histories with schema changes and full text; random suffixes (and malformed requests) moved to other timelines; facts with their transactions, schema, logs of all timelines and partitions compared with the model's past, and again after reopening and further transactions; refusals traceless. Sampling."),
    "P21": ("offline convergence and conservation checker over replicated histories with injected remote faults", "Two or three replicas exchange random histories through an in-memory linear log whose chunks pass through JSON; exact equality for fast-forwards, equality up to renumbering for merges, append-only remote, failed syncs (each remote call may fail) traceless, caches coherent. Merge workloads stay within what the implementation states it supports; see DESIGN.md for the limits."),
    "P22": ("reference-model monitor of vocabulary ensures", "A definition's meaning is computed as a transaction evaluated by the transactor model; outcomes, upgrade-function calls, statuses, attributes and versions compared after every ensure over random definitions, versions, stores and injected failures. Sampling."),
    "P23": ("reference-model monitor of builder-made transactions", "Random transactions are assembled with the term, entity and in-progress builders and as text; both must be accepted or refused alike by the model and leave the same facts, temporary ids included. Sampling."),
    "P24": ("AddressSanitizer, allocation-layout monitor and reference model over the C interface", "Random call sequences through every exported function in an ASan build whose global allocator checks the layout of every release and counts live objects; every answer compared with the native interface's. Sampling."),
 "P07": ("file-layer monitor: crash images and injected storage faults judged by the transactor model", "A shim VFS under the bundled SQLite records what was written and synced; at random file operations it takes images of what a crash may leave (torn and unsynced writes dropped) and injects read, write, sync and space faults. Every image must open as a state between the last acknowledged and the last attempted commit; a step that fails must be traceless and later work must go as the model says. Sampling of operations and images; no real power cuts."),
 "P25": ("offline linearizability checker over recorded reader observations with injected delays", "Reader threads query a store through shared and separate connections while a writer commits, rolls back and fails, with delays injected at file operations; each observation, stamped with the commits finished before and begun after it, must equal one state in that window and reads inside a transaction must be repeatable and monotone. Sampling of schedules."),
 "P26": ("protocol monitor in a loopback HTTP server with injected failures, and convergence checker", "The P21 workload with mentat's own HTTP client against a server on the loopback interface that checks every request against the protocol, keeps the log, and fails requests by status, broken connection or nonsense. Sampling; TLS is not exercised."),
 "P27": ("twin-execution oracle over sessions of the command-line shell", "The shell runs as a process; random sessions of commands (transactions, imports, queries, caches, schema, several stores, nonsense, startup options) are given to it one by one, and what it prints is compared with the same operation on a twin store through the interface; the files it leaves must equal the twin's. Sampling; no terminal, and messages are only required to be there.")
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
m = {"version": 1, "setup_cmd": "./run.sh build", "checks": [], "not_applicable": []}
for p in props:
    i = p["id"]
    if i in CHECKS:
        t, n = CHECKS[i]
        m["checks"].append({"property": i, "quick_cmd": "VERIF_TIER=quick ./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
            "technique": ORACLE + t, "level": "exploration", "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": "check still being built"})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
