#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                          observe_at=observe, hook_needed=hook))
    assert len(title) <= 80, title
    P.append(d)

DB = "db/src/db.rs"; TX = "db/src/tx.rs"
p("P01", "A transaction changes the store by exactly what it asserts and retracts",
  "For every transaction a store accepts, the set of facts afterwards equals the set before, minus the facts it retracts (and, for cardinality-one attributes, the value it replaces), plus the facts it asserts, plus the transaction's own instant; nothing else changes. Re-asserting a present fact or retracting an absent one is a no-op. A transaction outside the accepted language (conflicting cardinality-one values, asserting and retracting the same fact, wrong value types, unknown attributes or identifiers) is refused, and one inside it is accepted.",
  ["inputs", "histories"], "every sequence of transactions, in every notation (lists, maps, nested maps, vectors, reversed attributes, lookup references, transaction function), over schemas mixing every value type, cardinality, uniqueness, indexing and full-text",
  "The existing tests run a few fixed transactions of two or three facts over tiny stores; the transactor's set semantics must hold for any combination of notations, attribute kinds and existing contents, including repeated, redundant and mutually interacting assertions.",
  [TX, DB, "db/src/tx_checking.rs", "db/src/internal_types.rs"],
  [("entity explosion and term rewriting", TX), ("search + materialise SQL", DB), ("type/cardinality checks", "db/src/tx_checking.rs")],
  ["mentat::Conn::transact report", "datoms table and [?e ?a ?v ?tx] query after each transaction"],
  [("datoms", "current facts", DB)])

p("P02", "The transaction log is exactly the history of net changes",
  "Every committed transaction appends to the log one entry per fact that actually changed, with the right transaction and the right asserted/retracted flag, and never alters earlier entries. Replaying the log from empty reproduces the current facts, each with the transaction that last asserted it, and replaying any prefix reproduces the facts as they were then.",
  ["histories"], "every history of accepted, refused and rolled back transactions, including no-ops, replacements, schema alterations and full-text values",
  "Tests compare the last transaction of small fixed scripts; agreement between the log and the materialised facts has to hold after every step of every history.",
  [DB, TX], [("insert_transaction / update_datoms", DB), ("timelined_transactions table and transactions view", DB)],
  ["transactions view", "datoms table"])

p("P03", "Temporary ids, upserts and lookup references resolve to the right entities",
  "A temporary id denotes one entity throughout a transaction: the existing entity that already has one of the identity values asserted for it (directly or through other temporary ids and references), otherwise one fresh entity shared by all temporary ids given the same new identity value. The report names every user-supplied temporary id with the entity it became. Conflicting identities, lookup references that match nothing or use non-unique attributes, and retractions through unresolved temporary ids are refused.",
  ["inputs", "histories"], "every transaction with temporary ids, identity attributes, chains of references, lookup references and nested maps, against any existing contents",
  "Tests exercise fixed one- and two-generation upserts; resolution is an iterative fixpoint whose outcome depends on the interplay of any number of temporary ids with the store.",
  ["db/src/upsert_resolution.rs", TX, "db/src/internal_types.rs", DB],
  [("generation evolution and union-find of tempids", "db/src/upsert_resolution.rs"), ("resolve_avs", DB)],
  ["TxReport.tempids", "facts after the transaction"])

p("P04", "Stored facts always satisfy the schema's constraints",
  "At every point of every history, every stored fact of an attribute known to the schema has a value of that attribute's type, every newly asserted fact has a known attribute, no cardinality-one attribute has two values for an entity, no unique attribute has one value on two entities, and no fact appears twice. Transactions and schema alterations that would break this are refused, while unique values may be freely moved within one transaction (released by one entity and taken by another).",
  ["inputs", "histories"], "every history of transactions and schema alterations (cardinality and uniqueness changes, swaps of unique values, type-mismatched values)",
  "A handful of violation tests exist; constraints must survive every combination of simultaneous retract/assert, alteration and upsert.",
  [DB, "db/src/tx_checking.rs", "db/src/metadata.rs", "db/src/schema.rs"],
  [("unique_value index and datoms indices", DB), ("alteration checks in update_metadata", DB), ("type_disagreements/cardinality_conflicts", "db/src/tx_checking.rs")],
  ["datoms table scanned after every transaction"])

p("P05", "Refused, rolled back and abandoned transactions leave no trace",
  "When a transaction is refused, or a multi-step transaction in progress is rolled back or dropped, the store, its log, schema, identifier allocation, caches and query results are exactly what they were before it began, and later transactions behave as if it never happened. Within a transaction in progress, reads see its own writes, returning to a savepoint undoes everything since it was set and nothing else, and a commit publishes all of the remaining steps together.",
  ["histories", "fault_sequences"], "every history mixing accepted and refused transactions inside and outside transactions in progress, with commits, rollbacks, drops, savepoints and failing steps at any position",
  "Tests check single failures; leakage depends on where in the pipeline the refusal happens and on what in-memory state was touched before it.",
  ["transaction/src/lib.rs", "src/conn.rs", "src/store.rs", TX],
  [("InProgress commit/rollback and metadata generation check", "transaction/src/lib.rs"), ("deferred SQLite transaction", "src/conn.rs")],
  ["whole-store snapshot (facts, log, partitions, schema, cache lookups, queries) before/after"])

p("P06", "Closing and reopening a store changes nothing observable",
  "After any history, a store file that is closed and opened again has the same facts, log, schema, idents and query results, allocates the same next identifiers, and accepts and refuses the same further transactions as the store that was never closed. A file that holds a store of another version, or is no database, is refused when opened and left as it is.",
  ["histories"], "every history of transactions and schema changes, with a reopen at any point",
  "Tests reopen only freshly created stores; equality between in-memory metadata and what is rebuilt from disk must hold after any history.",
  [DB, "src/store.rs", "src/conn.rs", "db/src/schema.rs"],
  [("read_db / materialised schema, idents and parts views", DB), ("update_metadata keeps views in step", DB)],
  ["reopened connection's schema, partition map, datoms; differential continuation"])

p("P07", "A crash or I/O error at any point loses no committed data and no atomicity",
  "If the process is killed or a storage operation fails at any instant, reopening the file yields the store exactly as of some committed prefix of the transactions that includes every transaction whose commit had been reported, with no partial transaction, consistent facts, log, schema and identifier allocation, and it accepts further transactions. An operation interrupted by a storage error reports the error rather than success.",
  ["crash_points", "fault_sequences"], "process death at any instant of any workload, and an error or short space at any storage call",
  "No existing test crashes the process or injects a storage error.",
  [DB, "src/conn.rs", "transaction/src/lib.rs"],
  [("SQLite transactions around all steps of a transaction", "transaction/src/lib.rs"), ("store creation in one transaction", DB)],
  ["file reopened after SIGKILL or an injected fault, compared with the acknowledged prefix"])

p("P08", "The live schema always equals the one described by the stored facts",
  "After every transaction, the attribute definitions and idents the system reports are exactly those described by the stored schema facts, whether in memory, in the materialised metadata or after reopening. Legal alterations (idents, uniqueness, cardinality, indexing, components, history) take effect for later transactions and queries, and malformed or illegal schema changes (missing type, changed type, duplicated idents, conflicting existing data) are refused.",
  ["inputs", "histories"], "every history of schema installation, ident change and alteration, split over any number of transactions",
  "Tests alter one or two fixed attributes; in-memory and materialised metadata are updated by separate code and must agree after any sequence of changes.",
  ["db/src/metadata.rs", "db/src/schema.rs", DB, "db/src/add_retract_alter_set.rs"],
  [("update_schema_from_entid_quadruples", "db/src/metadata.rs"), ("update_metadata", DB)],
  ["Conn::current_schema vs datoms-derived schema vs reopened schema"])

p("P09", "Identifiers are never reused and transaction ids strictly increase",
  "Unless history is rewound, every fresh entity gets an identifier never used before in that store, in the user range, and every committed transaction gets an identifier greater than all earlier ones, in the transaction range, with exactly one instant. This holds across refused transactions, rollbacks, reopening and several transactions in progress; entity identifiers that were never allocated are refused as entities.",
  ["histories"], "every history of allocations interleaved with failures, rollbacks and reopens",
  "Tests see allocation in a few transactions on a fresh store only.",
  [DB, TX, "db/src/types.rs", "transaction/src/lib.rs"],
  [("PartitionMap allocation and current_partition_view", DB), ("allocation of tempids", TX)],
  ["TxReport, facts, partition map after every transaction and reopen"])

p("P10", "Queries return exactly the facts that logically match their where clause",
  "For every query the engine accepts, the result is exactly the set of bindings that satisfy its where clause over the current facts, according to the declarative meaning of patterns, joins, disjunction, negation, predicates, type annotations and ground bindings. The order of clauses, the names of variables, storage indices and caches make no difference. Any query is answered or refused, and never crashes or leaves the connection unusable. (Integral doubles are not told from equal longs; a bare integer constant may stand for an entity or a number, as its place allows.)",
  ["inputs", "histories"], "every query in the accepted language (patterns over any mix of constants, variables and placeholders incl. attribute and transaction position; or, or-join, not, not-join; comparison predicates; type predicates; ground) over every store",
  "Tests mostly compare generated SQL text for chosen queries; meaning-preservation of the translation must hold for every query and store.",
  ["query-algebrizer/src", "query-sql/src/lib.rs", "query-projector/src", "sql/src/lib.rs"],
  [("algebrizer conjoining clauses", "query-algebrizer/src/clauses"), ("translation to SQL", "query-projector/src/translate.rs")],
  ["Conn::q_once results vs a naive evaluator over the dumped facts"])

p("P11", "Find specifications, aggregates, ordering and limits shape results correctly",
  "Relation, collection, tuple and scalar results of a query are the corresponding projections of the same underlying set of bindings; count, min, max, sum and avg (with :with, and (the ?x) for the row of an extreme) equal the aggregates over that set, grouped by the non-aggregated variables. Ordering sorts rows by the requested directions and limit returns that many of the rows, the first in the requested order; an ordering variable that is not found is part of what makes rows distinct.",
  ["inputs"], "every combination of find specification, aggregates, :with, :order and :limit over any accepted where clause and store",
  "Tests cover fixed examples per aggregate; grouping, duplicate elimination and :with interact with the joins and types of arbitrary queries.",
  ["query-projector/src/project.rs", "query-projector/src/translate.rs", "query-algebrizer/src/lib.rs"],
  [("projection and aggregates", "query-projector/src/project.rs"), ("find-spec projectors", "query-projector/src/projectors")],
  ["QueryResults vs aggregates recomputed over the model's bindings"])

p("P12", "Query inputs mean the same as constants, and data is never code",
  "Binding a value to a query input gives the same result as writing it as a constant, for every value; running a query once, prepared, repeatedly prepared or without caches gives the same result. Strings, keywords and full-text terms containing any characters (quotes, semicolons, SQL, NUL, wildcards, unicode) are treated as data: they match exactly themselves and cannot alter the store. Missing inputs, and inputs that cannot limit a result, are reported as errors; an input of a type that cannot stand in its place is an error or matches nothing.",
  ["inputs"], "every input value of every type, hostile strings included, against every query using it, through every query entry point",
  "Tests bind a few benign constants; injection safety and equivalence of entry points must hold for all values.",
  ["src/conn.rs", "transaction/src/query.rs", "query-algebrizer/src/types.rs", "sql/src/lib.rs"],
  [("SQL argument binding", "sql/src/lib.rs"), ("QueryInputs", "query-algebrizer-traits")],
  ["results through q_once / q_prepare / q_uncached with inputs and with constants"])

p("P13", "Attribute caching never changes any answer",
  "Registering or removing attributes from the cache, in any direction and at any time, never changes the result of a query or lookup: cached answers equal the ones computed from the stored facts after every transaction, inside transactions in progress and after rollbacks. Writes made in a transaction in progress are reflected in its own cached reads and become visible to others only on commit.",
  ["histories", "inputs"], "every history of cache registrations/removals interleaved with transactions, transactions in progress, commits and rollbacks, over attributes of every type and cardinality",
  "Tests follow a few scripted cache updates; coherence is a property of every interleaving of writes and cache operations.",
  ["db/src/cache.rs", "src/conn.rs", "transaction/src/lib.rs", "query-algebrizer/src/clauses/pattern.rs"],
  [("InProgressSQLiteAttributeCache overlay and commit_to", "db/src/cache.rs"), ("cache watcher on transact", "db/src/cache.rs")],
  ["lookup_value(s)_for_attribute, queries and pulls with vs without caches"])

p("P14", "Pull returns exactly the pulled entity's facts",
  "For every entity and every pull specification (attributes, wildcard, aliases, :db/id), the result contains exactly the requested attributes the entity has, under the requested names, each with its one value or the full set of its values, and no entries for absent attributes; attributes without an ident have no name and are left out. Pull expressions inside queries agree with direct pulls for each entity; and caches filled for chosen entities and attributes, in one step or in several, hold each of their values once.",
  ["inputs"], "every entity set, pull pattern and store",
  "Tests pull three fixed entities; the mapping of attributes to keys and value sets must hold for any pattern and data.",
  ["query-pull/src/lib.rs", "query-projector/src/pull.rs", "core/src/types.rs"],
  [("Puller", "query-pull/src/lib.rs")],
  ["pull_attributes_for_entity/entities and (pull ?e [...]) vs stored facts"])

p("P15", "Every value that can be stored reads back as the same value",
  "Any value of any supported type that a transaction accepts is returned unchanged, with its type, by queries, lookups, pulls, the log and after reopening, and is found by a query for that value. Distinct values stay distinct and equal values unify, including extremes, unusual instants, special characters and empty strings.",
  ["inputs"], "every value of every type, including extremes and unusual encodings",
  "Tests store a few ordinary values; conversion code has edge cases only particular values reach.",
  [DB, "core/src/sql_types.rs", "core-traits/values.rs", "edn/src/types.rs", "sql/src/lib.rs"],
  [("to_sql_value_pair / from_sql_value_pair", DB), ("micros conversions", "edn/src/types.rs")],
  ["value written vs value read through each read path"])

p("P16", "The textual data format parses and prints consistently and never crashes",
  "Parsing any text as data, as a transaction or as a query yields a value or an error, never a crash, and running what was accepted yields a result or an error, never a crash; comments, commas and whitespace do not change the value. Printing any parsed value, compactly or prettily, and parsing it again yields an equal value.",
  ["inputs"], "every byte string for robustness, and every value for the round trip",
  "Tests parse chosen snippets; the grammar and printers must agree on all values and survive all inputs.",
  ["edn/src/lib.rs", "edn/src/types.rs", "edn/src/pretty_print.rs", "edn/src/entities.rs", "edn/src/query.rs"],
  [("PEG grammar", "edn/src/lib.rs"), ("Display and pretty printing", "edn/src/types.rs")],
  ["parse results, printed text, panics"])

p("P17", "Queries over the log report exactly the recorded transactions",
  "Querying the log for the transactions in an interval returns exactly the committed transactions whose identifier lies in that half-open interval, and querying a transaction's data returns exactly its recorded additions and retractions, with their values, alone or joined with other clauses.",
  ["inputs", "histories"], "every interval (numbers, idents, inputs or variables), every transaction and every joined clause after any history",
  "Tests query a single small log; interval boundaries and value reconstruction must be right for any log.",
  ["query-algebrizer/src/clauses/tx_log_api.rs", "query-projector/src"],
  [("tx-ids and tx-data clauses", "query-algebrizer/src/clauses/tx_log_api.rs")],
  ["q_once with tx-ids/tx-data vs the log kept by the model"])

p("P18", "Full-text search finds exactly the current matching values",
  "A full-text search on an attribute returns exactly the entity, value and transaction of every current fact of that attribute whose text contains the searched words, after any history of assertions, replacements and retractions and however many facts share a text. Full-text attributes otherwise behave like ordinary string attributes.",
  ["inputs", "histories"], "every history over full-text attributes (cardinality one and many, shared and repeated strings, large transactions) and every search term",
  "Tests search a handful of strings; the shared full-text table and the facts referring to it must stay in step through any history.",
  [DB, "query-algebrizer/src/clauses/fulltext.rs"],
  [("insert_fts_searches and fulltext_values view", DB), ("fulltext clause", "query-algebrizer/src/clauses/fulltext.rs")],
  ["fulltext query results vs token match over the model"])

p("P19", "Observers hear of every relevant committed transaction exactly once, in order",
  "Each registered observer is told, after commit and in commit order, of each committed write transaction that touched an attribute it registered for, exactly once, with the right transaction identifier and exactly the set of attributes that changed in that transaction, and of nothing else: not of refused, rolled back, undone (by returning to a savepoint) or irrelevant transactions, nor of any after it is unregistered.",
  ["histories", "schedules"], "every history of registrations, removals, transactions in progress with several steps, rollbacks and refusals, with observers that are slow or fast",
  "Tests register one observer and run one transaction; delivery happens on a background thread and must be right for every interleaving.",
  ["db/src/tx_observer.rs", "src/conn.rs", "transaction/src/lib.rs", "db/src/watcher.rs"],
  [("InProgressObserverTransactWatcher and TxObservationService", "db/src/tx_observer.rs"), ("send on commit", "transaction/src/lib.rs")],
  ["observer callbacks recorded against the log"])

p("P20", "Rewinding moves whole transactions off the main timeline and restores the past",
  "Moving a suffix of transactions off the main timeline leaves the current facts, schema and log exactly as they were before those transactions, with the moved transactions kept unchanged on the new timeline. A suffix whose undoing the schema rules cannot express is refused without effect. Requests that are not a contiguous suffix, or whose target timeline is not empty or is the main one, are refused without effect.",
  ["inputs", "histories"], "every history and every range of transactions to rewind, including schema installation and alteration",
  "Tests rewind a few small scripted histories; undoing must be exact for any transactions, including replacements, retractions and metadata changes.",
  ["db/src/timelines.rs", TX, DB],
  [("move_from_main_timeline and reversed terms", "db/src/timelines.rs")],
  ["snapshot before the suffix vs store after rewinding"])

p("P21", "Synchronisation makes peers converge without losing or inventing data",
  "When peers exchange their histories through a remote log, a peer without changes of its own ends with exactly the remote's facts, log and schema, whatever they are; and peers whose concurrent changes add new entities with identity attributes or none, once each has synced with no further changes, hold the same facts up to renumbering of identifiers. The remote log only ever grows by whole transactions, no committed local fact is lost, duplicated or altered except through identity and cardinality merging, and a sync that fails, in a remote call or otherwise, changes nothing. Re-syncing without changes does nothing, and identifiers allocated after a sync never collide with existing ones. Observers are told of exactly the transactions that a sync adds.",
  ["histories", "schedules"], "every interleaving of local transactions and syncs among peers within the supported merge cases (shared bootstrap, non-conflicting or identity-merging changes)",
  "Tests run a dozen scripted two-peer scenarios; convergence depends on the interleaving of edits and syncs.",
  ["tolstoy/src/syncer.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/tx_mapper.rs", "tolstoy/src/tx_processor.rs", "tolstoy/src/metadata.rs", "src/sync.rs"],
  [("fast-forward and merge logic", "tolstoy/src/syncer.rs"), ("tx mapping", "tolstoy/src/tx_mapper.rs")],
  ["in-memory remote log; facts of each peer up to isomorphism"])

p("P22", "Vocabulary management installs and upgrades schemas correctly and idempotently",
  "Ensuring a vocabulary that is absent installs exactly its attributes and version; ensuring one already present at that version changes nothing but installs attributes it lacks; ensuring a newer version runs its upgrade, brings the attributes to their new definitions and records the new version, unless the schema rules forbid the alteration; a store with a newer version, or the same version with different attribute definitions, is refused. Pre- and post-upgrade functions run exactly when an installation or upgrade happens, what is read back afterwards is what was defined, and a failed ensure leaves no trace.",
  ["inputs", "histories"], "every set of vocabulary definitions and every sequence of ensure calls, versions and definitions, across reopening",
  "Tests install and upgrade one or two fixed vocabularies.",
  ["src/vocabulary.rs"],
  [("VersionedStore::ensure_vocabulary / check_vocabulary", "src/vocabulary.rs")],
  ["outcome, attributes and version before/after each ensure"])

p("P23", "Building transactions programmatically equals writing them as text",
  "A transaction assembled with the entity and term builders has exactly the effect of the same assertions and retractions written as text: the same acceptance or refusal, the same resulting facts up to fresh identifiers, and the same report of temporary ids.",
  ["inputs"], "every sequence of builder calls over every attribute and value kind, including references between temporary ids, lookup references and retractions",
  "Tests build a few fixed entities.",
  ["transaction/src/entity_builder.rs", TX], [("TermBuilder / EntityBuilder", "transaction/src/entity_builder.rs")],
  ["facts after building vs after the textual transaction on an identical store"])

p("P24", "The C interface is memory safe and agrees with the native one",
  "Using the foreign-function interface as documented (each object created, used and destroyed once) never touches invalid memory, frees twice, or crashes, and returns the same query results, values, transaction reports and error reports as the native interface for the same operations. Out-of-range access yields null or an error rather than undefined behaviour.",
  ["inputs", "programs"], "every well-formed sequence of foreign calls over every query shape, value type and error path",
  "The interface has almost no tests; ownership errors are invisible without memory instrumentation.",
  ["ffi/src/lib.rs", "ffi/src/utils.rs"], [("Box::into_raw/from_raw ownership protocol", "ffi/src/lib.rs"), ("string and error conversion", "ffi/src/utils.rs")],
  ["AddressSanitizer-instrumented run; FFI results vs native results"])

p("P25", "Concurrent readers only ever see whole committed transactions",
  "While one connection writes, any other connection to the same file sees at every moment the facts of some committed prefix of the transactions, never part of one nor anything uncommitted, and never goes back to an earlier prefix. Within one read transaction all queries, pulls and lookups see the same prefix, and opening the file gives the schema and identifiers of one. A transaction in progress shuts out no reader, and lets no other connection begin to write.",
  ["schedules", "histories"], "every interleaving of a writer's transactions (including multi-step, refused and rolled back ones) with readers on other connections and threads",
  "No existing test reads from a second connection concurrently with a writer.",
  [DB, "src/conn.rs", "transaction/src/lib.rs"], [("deferred/immediate SQLite transactions around writes", "transaction/src/lib.rs"), ("WAL journal", DB)],
  ["reader observations checked against the writer's committed history"])

p("P26", "Synchronising over HTTP is synchronising with the log itself",
  "Stores synchronised through the HTTP client and a server that keeps a linear log behave as with the log itself: every request is one of the protocol (heads, transactions, chunks, as JSON), what is uploaded is read back equal by every other peer, peers converge as by direct synchronisation, and a request that is refused, breaks off, or is answered with something else makes the sync fail without changing the store or moving the head. A store's own sync (`Store::sync`) uploads what a merge rebased before it returns, and reports each step.",
  ["histories", "environments"], "every exchange of local transactions among peers through HTTP, and every request of it that fails in any way",
  "The only test of the client checks how an address is put together; nothing ever sends a request.",
  ["tolstoy/src/remote_client.rs", "tolstoy/src/types.rs", "src/sync.rs", "src/store.rs", "tolstoy/src/tx_uploader.rs"],
  [("RemoteClient", "tolstoy/src/remote_client.rs")],
  ["requests received by a loopback server; facts of each peer"])

p("P27", "The command-line shell does exactly what its commands say",
  "Every command given to the shell, on its input (on one line or several) or as a startup option, short or long, has exactly the effect and the answer of the same operation through the interface: transactions and imports change the store alike and print the same report, queries (once or prepared) print exactly the rows the interface returns under their columns, the schema printed is the store's, and startup transactions and imports are carried out in the order given before any query. Opening and closing switch between stores without mixing them. A command that is refused or makes no sense says so, changes nothing and does not end the shell; what follows an exit, or is unfinished at the end, has no effect.",
  ["inputs", "histories"], "every sequence of commands, over every store, and every result that can be printed",
  "The tests of the shell parse single commands; none of them runs one.",
  ["tools/cli/src/mentat_cli/repl.rs", "tools/cli/src/mentat_cli/command_parser.rs", "tools/cli/src/mentat_cli/input.rs", "tools/cli/src/mentat_cli/lib.rs"],
  [("Repl", "tools/cli/src/mentat_cli/repl.rs"), ("command", "tools/cli/src/mentat_cli/command_parser.rs")],
  ["what the shell's process prints; the store files it leaves"])

path = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(path, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
