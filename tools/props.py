"""Source of properties.jsonl and of MANIFEST.json's checks (tools/gen.py writes both)."""
PROPS = []
NA = {}
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, state=state, observe=observe, technique=technique, note=note))
def na(id, reason): NA[id] = reason

prop("C01", "In-memory metadata changes only by a durably committed transaction",
     "The schema, partition map, generation and attribute cache that all users of a connection share change only after the corresponding SQLite transaction has been durably committed, and then completely and from that transaction's own state. A transaction that fails, loses a race, is rolled back or dropped leaves them exactly as they were.",
     ["fault_sequences", "histories", "schedules"], "every sequence of writes, failures at any fallible step of a commit, rollbacks and drops",
     "Tests commit successfully or roll back in a handful of places; none makes the SQLite commit fail, and none looks at the shared state on every exit path of a commit.",
     ["transaction/src/lib.rs", "transaction/src/metadata.rs", "src/conn.rs"],
     [("publish after commit", "transaction/src/lib.rs InProgress::commit"), ("snapshot", "src/conn.rs Conn::begin_transaction_with_behavior")],
     [("Metadata", "generation, partition map, schema, cache shared behind a mutex", "transaction/src/metadata.rs")],
     technique="who-may-write enumeration and must-precede path search over the inlined MIR supergraph",
     note="Decides ordering and completeness of publication on every feasible path; trusts rusqlite's commit result.")
prop("C02", "Concurrent writers cannot silently overwrite each other",
     "A writer whose view of the shared metadata is out of date can never commit: the staleness test, the SQLite commit and the publication of new metadata are one critical section. Write transactions exclude other writers from their start and take a consistent snapshot after they have begun; readers do not block writers.",
     ["schedules", "histories"], "every interleaving of transactions on one connection's shared metadata",
     "The suite is single-threaded for writers; a missing or misplaced staleness test changes nothing unless two writers interleave.",
     ["transaction/src/lib.rs", "src/conn.rs"],
     [("generation check under the mutex", "transaction/src/lib.rs InProgress::commit"), ("IMMEDIATE transactions", "src/conn.rs Conn::begin_transaction")],
     technique="guarded-by path search, lock-scope (guard drop) analysis and constant tracing of transaction behaviours",
     note="Decides that every commit is guarded and inside the lock on every path; SQLite's own locking is trusted.")
prop("C03", "Observers hear of exactly the committed transactions that touch their attributes",
     "A registered observer is called for a transaction if and only if that transaction committed and asserted or retracted a datom of an attribute the observer watches. It is told the transaction's id and the attributes that transaction touched; nothing leaks between transactions and uncommitted work is never announced.",
     ["histories", "fault_sequences", "schedules"], "every history of transactions, failures, registrations and removals",
     "Tests check a few successful commits with a few attributes; failed commits, multi-transaction commits and registration while a notification is queued are not reached.",
     ["db/src/tx_observer.rs", "transaction/src/lib.rs"],
     [("watcher collects attributes", "db/src/tx_observer.rs InProgressObserverTransactWatcher"), ("notification after commit", "transaction/src/lib.rs InProgress::commit"), ("selection", "db/src/tx_observer.rs TxObserver::applicable_reports")],
     technique="must-precede/must-follow path search and value-origin tracing",
     note="Decides what is handed to the observer thread and when; scheduling of that thread is not modelled.")

prop("C04", "One-step writes commit exactly when every step succeeded",
     "Every operation that transacts and commits in one step (transacting text, committing a builder, synchronising, the foreign-language equivalents) commits only when every transacting step succeeded, and otherwise leaves the store as it was. It reports success only after the commit itself returned success.",
     ["inputs", "crash points"], "every one-step write, and every point at which one of its steps fails",
     "A failing step or a failing COMMIT (busy, disk full) is rare; no test makes the commit itself fail.",
     ["src/conn.rs", "src/store.rs", "transaction/src/entity_builder.rs", "ffi/src/lib.rs", "tools/cli/src/mentat_cli/repl.rs"],
     [("one-step writes", "src/conn.rs Conn::transact"), ("builder", "transaction/src/entity_builder.rs InProgressBuilder::commit"), ("sync", "src/store.rs Store::sync")],
     [("write transaction", "open SQLite transaction, rolled back when dropped", "transaction/src/lib.rs InProgress")],
     technique="path-sensitive typestate over the interprocedural control-flow graph: transact succeeded before commit, commit succeeded before success is reported",
     note="Relies on rusqlite rolling an uncommitted transaction back on drop; that no code changes the drop behaviour is checked.")
prop("C05", "Reading never changes the store",
     "No query, explanation, prepared query, pull, value lookup, cache registration or vocabulary check by a read-only entry point changes what is stored. Whatever the query text and inputs, the SQL run on its behalf is a single SELECT (or EXPLAIN of one).",
     ["inputs"], "every query, pull expression and lookup, with any inputs",
     "A test compares the results of reads, not the store before and after, and only for the queries it happens to run.",
     ["transaction/src/query.rs", "query-pull/src/lib.rs", "query-sql/src/lib.rs", "src/conn.rs", "src/store.rs", "db/src/cache.rs"],
     [("reads", "transaction/src/query.rs"), ("pull", "query-pull/src/lib.rs"), ("SQL text", "query-sql/src/lib.rs, sql/src/lib.rs")],
     [("store", "tables and shared metadata", "src/conn.rs Conn.metadata")],
     technique="effect analysis: call-graph reachability from reading entry points to modifying SQL and mutable metadata; constant fragments of run-time SQL",
     note="SQLite's own behaviour for SELECT and EXPLAIN is taken as given.")
prop("C06", "A failed transact leaves its open transaction as it was",
     "When several transacts share one open transaction, one that fails leaves the store, the partition map, the schema and the reports still to be delivered exactly as they were before it. One that succeeds is kept, and changes them to exactly its own results.",
     ["inputs", "histories"], "every sequence of succeeding and failing transacts within one open transaction, failing at any step",
     "Failures after some rows were written need unusual data; tests drop the whole transaction after an error instead of going on.",
     ["transaction/src/lib.rs", "db/src/tx.rs", "db/src/tx_observer.rs", "db/src/cache.rs"],
     [("transacts", "transaction/src/lib.rs InProgress::transact_entities"), ("savepoint", "transaction/src/lib.rs InProgress")],
     [("in-progress state", "partition_map, schema, cache, tx_observer_watcher", "transaction/src/lib.rs InProgress")],
     technique="path-sensitive typestate: savepoint before, rollback on every failing path, release on every succeeding one; effect ordering and origins of in-memory updates",
     note="Decides pairing, order and origin of every update; that SQLite's savepoints restore the tables is taken as given.")
prop("T01", "The datoms table and the transaction log record the same change",
     "Every successful transaction writes to the log exactly the assertions of datoms that were not present and the retractions of datoms that were, and inserts and deletes exactly those datoms: the two sets are chosen by the same conditions, with the same entity, attribute, value, type and transaction id. Re-asserting a present datom changes nothing; a new value of a cardinality-one attribute replaces the old one, and that replacement appears in the log; cardinality-many values match only on equal type and value.",
     ["inputs", "histories"], "every set of proposed datoms against every stored state",
     "Tests transact small examples; the log and the datoms are computed by separate statements, so a divergence in one condition shows only for particular mixes of present, absent, replaced and retracted values.",
     ["db/src/db.rs", "db/src/tx.rs"],
     [("search, insert and delete statements", "db/src/db.rs search, update_datoms, insert_transaction"), ("queues by cardinality", "db/src/tx.rs transact_simple_terms_with_action"), ("metadata read-back", "db/src/db.rs resolved_metadata_assertions")],
     [("datoms", "current facts", "db/src/db.rs V1_STATEMENTS"), ("timelined_transactions", "the log", "db/src/db.rs V1_STATEMENTS"), ("search_results", "proposals joined with stored facts", "db/src/db.rs")],
     technique="truth-table equivalence of the SQL predicates parsed from the constants each call site executes, plus must-precede/must-follow path search",
     note="Decides agreement of the statements and their order on all paths; SQLite's evaluation of them is trusted.")

prop("L01", "The transaction log is append-only history",
     "A log row, once written, is never deleted or altered; the only change a row can undergo is to be moved from one timeline to another. New rows go to the main timeline, the public view of the log shows exactly the main timeline with every column, and every reader of the underlying table restricts itself to one timeline.",
     ["inputs", "histories"], "every statement any operation can issue, over every history",
     "Tests read the log back after a few transactions; a stray DELETE, REPLACE or missing timeline condition shows only in histories that combine the two operations concerned.",
     ["db/src/db.rs", "db/src/timelines.rs", "db/src/internal_types.rs", "tolstoy/src/tx_processor.rs"],
     [("statements over timelined_transactions", "db/src/db.rs insert_transaction, V1_STATEMENTS; db/src/timelines.rs move_transactions_to; tolstoy/src/tx_processor.rs"), ("view", "db/src/db.rs V1_STATEMENTS transactions")],
     [("timelined_transactions", "the log", "db/src/db.rs V1_STATEMENTS")],
     technique="enumeration and classification of every SQL text reaching SQLite (constant propagation to each execute/prepare call)",
     note="Decides every constant statement of the workspace; the texts the query compiler builds are covered by C05.")
prop("L02", "Taking transactions off the main timeline rewinds exactly those transactions",
     "Moving transactions off the main timeline is refused unless the target timeline is not the main one and is empty. It takes every main-timeline transaction from the given start onwards, newest first, undoes each one's datoms by its exact inverse without adding to the log, then moves exactly the rows it rewound, and returns the schema after all of them and the partition map re-read from the store.",
     ["inputs", "histories"], "every history on the main timeline and every starting transaction",
     "Tests move short suffixes of tiny histories; wrong order, wrong range, wrong operation or a second timeline in use need specific histories to differ.",
     ["db/src/timelines.rs", "db/src/db.rs", "db/src/tx.rs"],
     [("move and rewind", "db/src/timelines.rs move_from_main_timeline"), ("reverse terms", "db/src/timelines.rs reversed_terms_for"), ("materialize-only transactions", "db/src/tx.rs TransactorAction::Materialize")],
     technique="must-precede path search, origin tracing of SQL parameters and row decoders, predicate equivalence of parsed SQL",
     note="Decides order, range, inversion and target on all paths; that replaying inverse terms restores the datoms rests on T01.")

prop("S01", "A new store starts from a self-consistent bootstrap",
     "The built-in idents, partitions and core schema that every new store is created from are mutually consistent: idents and their entids are unique and lie inside the database partition, partitions are disjoint with their next id inside, and every core attribute is described by built-in attributes with values of the right types, has a value type and a cardinality, and is legal. The core vocabulary lists exactly the core attributes, and every built-in name the code relies on is among the built-in idents.",
     ["inputs"], "every row of the bootstrap tables and every built-in keyword the code names",
     "Tests bootstrap one store and look at a few rows; an inconsistent entry matters only when some later operation first relies on it.",
     ["db/src/bootstrap.rs", "db/src/entids.rs", "db/src/db.rs"],
     [("bootstrap tables", "db/src/bootstrap.rs V1_IDENTS, V1_PARTS, V1_CORE_SCHEMA, V1_SYMBOLIC_SCHEMA"), ("creation", "db/src/db.rs create_current_version")],
     technique="constant evaluation of the bootstrap statics and cross-table consistency rules",
     note="Decides the constants themselves and that store creation uses them.")
prop("S02", "Schema, its stored views and stored datoms stay in step",
     "Every transaction that touches an attribute which defines schema re-derives the in-memory schema from the datoms it wrote, and rewrites the stored ident and schema views from the current datoms whenever idents or attributes changed; opening a store rebuilds the same schema from those views. When an attribute is altered, the index, fulltext and uniqueness flags of exactly that attribute's stored datoms take its new values, and narrowing to cardinality one is refused exactly when some entity holds two values of that attribute.",
     ["inputs", "histories"], "every schema-changing transaction over every stored state",
     "Tests alter one or two attributes and look at memory; a flag column, list entry or view left stale shows only after a reopen or in the plan of a later query.",
     ["db/src/db.rs", "db/src/metadata.rs", "db/src/schema.rs", "core/src/lib.rs", "db/src/tx.rs"],
     [("metadata update", "db/src/db.rs update_metadata"), ("views", "db/src/db.rs read_ident_map, read_attribute_map"), ("lists", "db/src/entids.rs, db/src/metadata.rs")],
     [("idents, schema", "materialized views", "db/src/db.rs V1_STATEMENTS"), ("datoms flag columns", "index_avet, index_vaet, index_fulltext, unique_value", "db/src/db.rs")],
     technique="constant-list agreement, parsed-SQL rules and must-precede/must-follow path search",
     note="Decides the lists, statements and their order; SQLite's evaluation is trusted.")
prop("S03", "Only legal, complete attributes enter the schema, and they change only legally",
     "An attribute enters the schema only with a value type and only if it is legal: uniqueness requires an index, fulltext requires string type and an index, components require ref type. Each schema assertion or retraction has exactly its documented effect on the attribute it names and any other value or attribute is refused; altering an attribute changes only what the transaction mentions, never its value type or fulltext, and is reported; an attribute leaves the schema only when its value type, cardinality and ident are all retracted.",
     ["inputs", "histories"], "every set of schema assertions and retractions, on every existing attribute",
     "The space of attribute descriptions and alterations is a product of many flags; tests sample about a dozen points of it.",
     ["db/src/metadata.rs", "db/src/schema.rs"],
     [("assertions and retractions", "db/src/metadata.rs update_attribute_map_from_entid_triples"), ("legality", "db/src/schema.rs AttributeValidation::validate, AttributeBuilder")],
     technique="decision tables computed by finite-value dataflow over every combination of the inputs, plus must-precede path search",
     note="Decides the full tables; one recorded finding (alterations are not re-checked for legality).")
prop("S04", "Idents and entids stay inverse, and every ident change takes effect",
     "At all times each ident names at most one entity and the two lookup directions agree: a transaction that asserts, changes or retracts an ident removes the old mapping and makes the new one in both directions, also when an ident passes from one entity to another, and reports the change. Within a transaction an assertion and a retraction of the same attribute of an entity are paired into one change whatever their order, opening a store rebuilds the inverse and validates the attributes, and the list of component attributes follows every change of attributes.",
     ["inputs", "histories"], "every set of ident assertions and retractions over every schema",
     "Tests rename one ident at a time; swaps, hand-overs and combined changes are a product tests do not enumerate.",
     ["db/src/metadata.rs", "db/src/add_retract_alter_set.rs", "db/src/schema.rs", "core/src/lib.rs"],
     [("ident updates", "db/src/metadata.rs update_schema_from_entid_quadruples"), ("pairing", "db/src/add_retract_alter_set.rs witness"), ("construction", "db/src/schema.rs from_ident_map_and_attribute_map")],
     [("Schema", "entid_map, ident_map, attribute_map, component_attributes", "core/src/lib.rs")],
     technique="per-element obligation search over the MIR supergraph, who-may-write enumeration and a decision table",
     note="Decides every element is handled and in which order; map operations are std's.")
prop("S05", "Every value reads back from the store as the value that was written",
     "Each kind of value is stored with its own type tag and an encoding whose exact inverse reads it back, and a tag with the wrong storage class is an error rather than a different value or a crash. The tag of each type, the type of each value, the name of each type and the conversions to and from EDN agree with one another, and instants are cut to the microseconds the store keeps before anything remembers them.",
     ["inputs"], "every value of every type",
     "Tests round-trip a few values; the failing ones are extremes of a type (instants before 1970, nil UUIDs, keywords without a namespace, false, zero).",
     ["db/src/db.rs", "db/src/lib.rs", "core/src/sql_types.rs", "core-traits/lib.rs", "core/src/util.rs"],
     [("codec", "db/src/db.rs TypedSQLValue"), ("tags", "core/src/sql_types.rs SQLValueType"), ("types", "core-traits/lib.rs TypedValue, ValueType")],
     technique="decision tables by finite-value dataflow: for each variant and storage class the symbolic term produced, compared with its inverse",
     note="Decides the codec's tables and terms; arithmetic identities (div_euclid/rem_euclid) are taken from std.")
prop("T05", "Stored facts form a set; indexes and uniqueness follow the schema",
     "A datom is stored at most once, and no two entities ever hold the same value of a unique attribute: both are enforced by unique indexes over exactly the right columns. The flags stored with a datom are exactly those of its own attribute (indexed, reference, fulltext, unique), and the views over datoms show each datom exactly once with fulltext values as text.",
     ["inputs", "histories"], "every attribute description and every datom",
     "Tests use attributes with one or two flags set and read through the views; a wrong bit or index condition only changes which duplicate is refused or which row a lookup misses.",
     ["db/src/db.rs", "core-traits/lib.rs"],
     [("flag word", "core-traits/lib.rs Attribute::flags"), ("stored flags", "db/src/db.rs update_datoms"), ("indexes and views", "db/src/db.rs V1_STATEMENTS")],
     [("datoms", "facts with flag columns", "db/src/db.rs V1_STATEMENTS")],
     technique="bit-set dataflow over all flag combinations, agreement of parsed SQL columns and masks, rules over the parsed schema statements",
     note="Decides words, masks, indexes and views; SQLite enforces the indexes.")
prop("X01", "A failed step is reported as a failure, never taken for success",
     "Whenever a step of an operation fails (SQLite, reading or decoding a row, parsing, I/O, a nested operation), the operation itself reports failure: no error is discarded, replaced by a default, or turned into a missing row. The foreign interface sets an error message exactly for failed results, and returns nothing for them.",
     ["fault_sequences", "inputs"], "every operation and every point at which one of its steps can fail",
     "Failures of storage and decoding hardly ever happen in tests; a swallowed error then looks like success with less data.",
     ["every crate; ffi/src/utils.rs for the foreign interface"],
     [("all fallible steps", "db, transaction, query-*, tolstoy, src"), ("error translation", "ffi/src/utils.rs")],
     [("results", "Result values on every path", "all crates")],
     technique="error-flow analysis: path search from every failing branch to a successful return; use analysis of every fallible result; adaptor queries",
     note="Panics on failures are outside this property; predicates that ask a question (is this text a number?) are not failures.")
prop("D01", "The store's locks cannot deadlock, and observers run outside them",
     "No operation of a connection takes a lock it already holds, and no two operations take two locks in opposite orders. Observers' callbacks run with none of the store's locks held, so they may use the store.",
     ["schedules"], "every combination of operations on every thread",
     "A deadlock needs a particular interleaving or a callback that calls back; single-threaded tests cannot show it.",
     ["src/conn.rs", "transaction/src/lib.rs", "db/src/tx_observer.rs"],
     [("locks", "src/conn.rs Conn"), ("commit", "transaction/src/lib.rs InProgress::commit"), ("executor", "db/src/tx_observer.rs TxObservationService")],
     [("locks", "Mutex<Metadata>, Mutex<TxObservationService>", "src/conn.rs")],
     technique="interprocedural lock-order graph over guard scopes; effect analysis of callbacks under locks",
     note="Locks are told apart by what they protect; SQLite's own locks are not part of the order.")

prop("K01", "The attribute cache holds exactly what the store holds",
     "A cached attribute's cache answers every lookup with exactly what the store holds for it: for every cardinality, uniqueness and direction, inside an open transaction, and after every commit, rollback, schema change and sync merge. What a transaction caches, stops caching, asserts or retracts is seen inside it at once, and by others only once it commits.",
     ["inputs", "histories"], "every sequence of transactions, cache requests, schema alterations and rollbacks",
     "The cache is maintained apart from the store, by datom and in two layers; divergence needs a particular order of assertion, retraction, registration and rollback that sampled tests do not visit.",
     ["db/src/cache.rs", "transaction/src/lib.rs", "src/conn.rs", "tolstoy/src/syncer.rs"],
     [("maintained by datom", "db/src/cache.rs SingleValAttributeCache/MultiValAttributeCache/Unique*ReverseAttributeCache"), ("two layers", "db/src/cache.rs InProgressSQLiteAttributeCache"), ("merged on commit", "db/src/cache.rs InProgressSQLiteAttributeCache::commit_to")],
     [("cells", "attribute to entity/value maps and their inverses", "db/src/cache.rs"), ("overlay", "attributes registered, unregistered and changed in a transaction", "db/src/cache.rs")],
     technique="abstract interpretation of the cache's cells per cardinality/direction, dominance and path queries over the interprocedural graph",
     note="The store is read through populate/repopulate queries whose text is checked as C and T rules check theirs.")

prop("Q07", "The cache never changes an answer",
     "A query or value lookup answers the same whether or not the attributes it asks about are cached. The cache answers only for an attribute cached in the direction asked, by its cardinality and uniqueness, and never for a pattern that names a transaction; otherwise the store is asked.",
     ["inputs", "histories"], "every query over every combination of cached attributes",
     "Whether a pattern is answered from the cache depends on the shape of the pattern, what is cached, and what the cache happens to hold.",
     ["query-algebrizer/src/clauses/pattern.rs", "query-algebrizer/src/clauses/mod.rs", "query-algebrizer/src/lib.rs", "transaction/src/query.rs"],
     [("pattern lookup", "query-algebrizer/src/clauses/pattern.rs attempt_cache_lookup"), ("value lookup", "transaction/src/query.rs lookup_value, lookup_values"), ("binding", "query-algebrizer/src/clauses/mod.rs bind_value")],
     [("known", "schema and the cache that belongs to it", "query-algebrizer/src/lib.rs")],
     technique="path queries over the interprocedural graph with edge assumptions on cardinality, uniqueness, direction and pattern shape; term tracing of what is asked and bound",
     note="That the cache holds what the store holds is K01.")

prop("Q03", "Each pattern of a query matches exactly the datoms its places allow",
     "In every pattern of a query a constant matches only itself, with its type wherever the attribute doesn't settle it; a variable has the same value, of the types required of it, in every place and clause it appears in; and a blank matches anything. A pattern finds every datom it allows, with the text of strings, whatever its attribute is; a query is declared empty without asking the store only when no datom can match.",
     ["inputs"], "every query, schema and set of inputs",
     "The combinations of place, kind of constant, attribute and what is already known of a variable are far more than tests sample, and a constraint left out shows only on data that happens to differ in it.",
     ["query-algebrizer/src/clauses/pattern.rs", "query-algebrizer/src/clauses/mod.rs", "query-algebrizer/src/lib.rs"],
     [("patterns", "query-algebrizer/src/clauses/pattern.rs apply_pattern_clause_for_alias"), ("joins", "query-algebrizer/src/clauses/mod.rs expand_column_bindings"), ("types", "query-algebrizer/src/clauses/mod.rs process_required_types")],
     [("clauses", "column bindings, value bindings, types and constraints", "query-algebrizer/src/clauses/mod.rs ConjoiningClauses")],
     technique="decision tables over every kind of place and constant; path queries with edge assumptions over the interprocedural graph; term tracing of the constraints pushed",
     note="Two columns of values are joined by value, not by type tag, as upstream documents.")

prop("Q04", "Disjunctions and negations keep exactly the rows their clauses allow",
     "A row satisfies a disjunction when any of its arms allows it, with every clause of the arm applied and only the variables it shares joined with what is around it; it satisfies a negation when the negated clauses, with the shared variables held to the row's values, match nothing. Every clause of a query is applied, and an arm or a negation is left out only when it can match nothing.",
     ["inputs"], "every nesting of and, or, or-join, not and not-join over every schema",
     "Disjunctions are planned in several ways according to the shape of their arms; an arm, a constraint or a type lost in one of them shows only for queries of that shape over data that differs in it.",
     ["query-algebrizer/src/clauses/or.rs", "query-algebrizer/src/clauses/not.rs", "query-algebrizer/src/clauses/mod.rs"],
     [("disjunctions", "query-algebrizer/src/clauses/or.rs apply_simple_or_join, apply_complex_or_join"), ("negations", "query-algebrizer/src/clauses/not.rs apply_not_join"), ("every clause", "query-algebrizer/src/clauses/mod.rs apply_clauses, apply_clause")],
     [("clauses", "column bindings, value bindings, types and constraints", "query-algebrizer/src/clauses/mod.rs ConjoiningClauses")],
     technique="path queries with edge assumptions over the interprocedural graph; term tracing of the clauses, columns and types handed to each arm; decision tables over kinds of place",
     note="A negation that says nothing of its own is ignored and a one-clause disjunction of all its variables is the clause itself, as upstream documents; how clauses become SQL is Q02.")

prop("Q02", "The SQL of a query says what its clauses say",
     "A query's SQL selects from every table the query uses, with every constraint, grouping and order in the direction asked, and the limit, each written so that SQLite reads what the clause means whatever it holds. Every value in it is compared exactly as it is stored: numbers, booleans, instants and doubles (those that aren't finite too) as literals, text, identifiers and bytes as arguments, each bound to its own value. A type requirement becomes a test that lets through exactly the types allowed.",
     ["inputs"], "every query, schema and set of inputs",
     "The text is put together from nested pieces, each with cases for lists that are empty, types that share a tag and values that need an argument; a test sees the text of the queries it runs.",
     ["query-projector/src/translate.rs", "query-sql/src/lib.rs", "sql/src/lib.rs", "query-algebrizer/src/types.rs"],
     [("clauses to expressions", "query-projector/src/translate.rs ToConstraint, cc_to_select_query, re_project"), ("expressions to text", "query-sql/src/lib.rs QueryFragment"), ("values and arguments", "sql/src/lib.rs SQLiteQueryBuilder")],
     [("text and arguments", "SQL being written and the arguments named in it", "sql/src/lib.rs SQLiteQueryBuilder")],
     technique="language of the SQL text emitted on every path, read off the interprocedural graph as a finite automaton and compared with a specification; decision tables from each kind of clause to the expression built",
     note="Which clauses, tables and types a query has is Q03, Q04 and Q07.")

prop("T02", "A transaction writes exactly what its terms say",
     "A transaction asserts and retracts exactly the entity, attribute and value its terms and map forms say, forwards or reversed, nested or with lookup refs, each value of the type its attribute has; anything else is refused. A value of the wrong type, two values for a cardinality-one attribute, or a value both asserted and retracted fails the whole transaction before anything is written, and every other term reaches the store, along with the transaction's own instant.",
     ["inputs"], "every transaction over every schema",
     "The forms combine freely (places, kinds of value, nesting, reversal, components), and what is left out or misread shows only for the combination a test happens not to use.",
     ["db/src/tx.rs", "db/src/tx_checking.rs", "db/src/internal_types.rs", "edn/src/entities.rs"],
     [("entities to terms", "db/src/tx.rs entities_into_terms_with_temp_ids_and_lookup_refs"), ("lookup refs", "db/src/tx.rs resolve_lookup_refs"), ("checks", "db/src/tx_checking.rs"), ("terms to the store", "db/src/tx.rs transact_simple_terms_with_action")],
     [("trie", "attributes, entities, and what each adds and retracts", "db/src/tx.rs AEVTrie")],
     technique="decision tables from every kind of place and value to the term made; path queries with edge assumptions; term tracing of what is checked, collected and queued",
     note="Parsing text into entities is not part of this; which rows the queued terms become is T01.")

prop("T03", "A tempid stands for the one entity its identity names, or for a new one",
     "A tempid asserted with a value of a unique identity attribute that some entity already has stands for that entity everywhere in the transaction; otherwise for a new entity, the same one wherever it is mentioned and the same as another tempid exactly when both are given the same value of such an attribute. A tempid that would stand for two entities fails the transaction; no term is lost or changed by resolution; and the report says what each tempid came to stand for.",
     ["inputs", "histories"], "every transaction's tempids and upserts over every store",
     "Resolution goes through generations that depend on which of many upserts the store happens to satisfy; a wrong step shows only in chains that tests do not build.",
     ["db/src/upsert_resolution.rs", "db/src/tx.rs", "db/src/db.rs"],
     [("generations", "db/src/upsert_resolution.rs Generation"), ("looking up", "db/src/tx.rs resolve_temp_id_avs, db/src/db.rs resolve_avs"), ("reporting", "db/src/tx.rs transact_simple_terms_with_action")],
     [("generation", "upserts, allocations, upserted and resolved terms", "db/src/upsert_resolution.rs Generation")],
     technique="decision tables over each kind of term and what was found for its tempids; path queries over the resolution loop; parsed SQL of the lookup",
     note="Sharing through chains of tempids as values is not transitive, as upstream has it.")

prop("T04", "New ids are fresh and stay in their partition",
     "Every id given to a new entity or transaction is one its partition has never given out, follows the last one given out, and lies in the partition's range, which overlaps no other; only ids that were given out can be written about. A store opened again goes on where its log ends.",
     ["histories", "inputs"], "every sequence of transactions, failed ones too, and of closing and opening the store",
     "An id given out twice merges two entities silently, and shows only when the history puts both in one store.",
     ["db/src/types.rs", "db/src/db.rs", "db/src/tx.rs", "db/src/bootstrap.rs", "tolstoy/src/tx_uploader.rs"],
     [("allocation", "db/src/types.rs Partition"), ("partitions", "db/src/db.rs PartitionMap, read_partition_map, create_current_partition_view")],
     [("partition", "its range and the next id", "db/src/types.rs Partition")],
     technique="abstract evaluation of the id tests over every order of the bounds; effect analysis of what moves the next id; parsed SQL of the partition view",
     note="That a failed transaction's ids are given back, and that what another connection allocated is known, is C01 and C02.")

prop("T06", "What is built piece by piece is transacted as it was said",
     "Each assertion or retraction added to a builder, or to an entity described with one, becomes exactly one term of that entity, attribute and value, and nothing else does; a name given to a builder stands for one temporary entity, and whatever is given in a place stands there as what it is. Transacting a builder transacts all of its terms once, in the transaction it was opened in, and gives that transaction back whether or not it succeeds. Committing a builder commits only after its terms have been transacted, and reports success only once they are committed.",
     ["inputs", "histories"], "every sequence of calls on every builder, with every kind of entity, attribute and value",
     "The builders are generic over what is given in each place and are composed with one another; the tests build a few small transactions.",
     ["transaction/src/entity_builder.rs", "transaction/src/lib.rs", "edn/src/entities.rs"],
     [("terms", "transaction/src/entity_builder.rs BuildTerms"), ("entities", "transaction/src/entity_builder.rs EntityBuilder"), ("transacting", "transaction/src/entity_builder.rs InProgressBuilder, transaction/src/lib.rs transact_builder"), ("places", "edn/src/entities.rs EntityPlace, AttributePlace, ValuePlace")],
     [("builder", "terms, temporary entities, described entity", "transaction/src/entity_builder.rs TermBuilder, EntityBuilder, InProgressBuilder")],
     technique="term tracing of what each builder appends and gives back; path queries over the interprocedural graph",
     note="What the terms mean is T01 to T05; what an open transaction does with them is C01 to C04.")

prop("E01", "A value is given as the kind it is, and as no other",
     "A value made of a plain one is of that one's kind and holds exactly it, an instant to the microsecond. Asked for as its own kind it gives what it holds, and asked for as any other kind, or when it's a list or a map and not a single value, it gives nothing. Its type is that of its kind, and each type has one name and is found by that name alone.",
     ["inputs"], "every kind of value, asked for in every way there is to ask",
     "There are fourteen ways to ask for a scalar of eight kinds, twice over, each its own function: the tests use a few with the kind they expect.",
     ["core-traits/lib.rs"],
     [("taking out", "core-traits/lib.rs TypedValue::into_*, Binding::into_*, Binding::as_*"), ("putting in", "core-traits/lib.rs From for TypedValue, From for Binding, Into places for KnownEntid"), ("types", "core-traits/lib.rs value_type, matches_type, ValueType::into_keyword, ValueType::from_keyword")],
     [("values", "typed values and bindings", "core-traits/lib.rs TypedValue, Binding")],
     technique="decision tables over kinds of value, decided by term tracing under edge assumptions",
     note="How values are stored and read back is S05; seconds-precision timestamps are what the accessor of that name gives.")

prop("V01", "Ensuring a vocabulary installs, upgrades or refuses it as its version says",
     "A vocabulary that isn't in the store is installed, one stored at an older version is upgraded between its migration steps, one at the wanted version gains only the attributes it lacks, and nothing is written for one that's complete; one stored at a newer version, or with an attribute defined otherwise, is refused before anything is written. What is written is the vocabulary's name and version and every property of every attribute as defined; when several are ensured together all are checked first, and any step that fails fails the whole.",
     ["inputs", "histories"], "every set of vocabularies and every state of the store",
     "Which of the outcomes applies depends on what earlier versions of an application stored; a migration run in the wrong order or a property left out shows only for stores with that history.",
     ["src/vocabulary.rs"],
     [("comparing", "src/vocabulary.rs VersionedStore::check_vocabulary"), ("acting", "src/vocabulary.rs ensure_vocabulary, ensure_vocabularies"), ("describing", "src/vocabulary.rs Definition::description_for_attributes")],
     [("vocabulary", "name, version and attributes, stored as datoms", "src/vocabulary.rs Vocabulary")],
     technique="decision tables over what is stored of a vocabulary; path queries with edge assumptions over the interprocedural graph; term tracing of what is written",
     note="What the transactor makes of a changed attribute is S03.")

prop("Q08", "A query's results have its shape, and exactly its distinct rows in its order",
     "A scalar, tuple, collection or relation comes back as what was asked for: every distinct combination of values of the found variables once, each value read with its own type and under its own column, in the order asked for, and no more rows than the limit. Nothing is answered without asking the store unless the query can have no answers or ranges over nothing; a limit that isn't a positive whole number and an ordering by a variable that isn't bound are refused, and an error while reading a row fails the query.",
     ["inputs", "histories"], "every find specification, order, limit and :with over every set of rows the store can give",
     "Where types are partly known, columns move by one; duplicates appear only for data that has them; what a row that can't be read does is never sampled.",
     ["query-projector/src", "query-algebrizer/src/lib.rs", "src/query.rs"],
     [("choosing a shape", "query-projector/src/lib.rs query_projection"), ("columns", "query-projector/src/project.rs project_elements"), ("reading rows", "query-projector/src/projectors"), ("order and limit", "query-algebrizer/src/lib.rs algebrize_with_inputs")],
     [("projection", "the columns asked for and how each is read", "query-projector/src/project.rs ProjectedElements")],
     technique="multisets of effects per loop iteration over all paths under edge assumptions; term tracing of results, columns and limits; decision tables",
     note="What the SQL text says of order, limit and distinctness is Q02; what a column's value becomes is S05.")

prop("Q09", "Aggregates are taken over exactly their group, and only where they make sense",
     "Each aggregate is its own function of its own variable, over the distinct rows that agree on the variables shown or ordered by and are kept apart by the :with variables; over no rows a count is zero and any other is no answer. An aggregate is refused unless it makes sense for every type its variable can have, its result has the type that follows from them, and a variable shown with (the ...) needs exactly one minimum or maximum to take its row from.",
     ["inputs", "histories"], "every combination of aggregates, grouped, corresponding and :with variables, of every set of possible types, over every set of rows",
     "Whether a variable is grouped by, has a known value, may be of several types or is ordered by too changes what is projected; tests take a few of the combinations on a few rows.",
     ["query-projector-traits/aggregates.rs", "query-projector/src/project.rs", "query-projector/src/translate.rs"],
     [("types", "query-projector-traits/aggregates.rs is_applicable_to_types"), ("column", "query-projector-traits/aggregates.rs projected_column_for_simple_aggregate"), ("grouping", "query-projector/src/project.rs project_elements")],
     [("aggregate", "function and variable", "query-projector-traits/aggregates.rs SimpleAggregate")],
     technique="decision table of every aggregate over representative type sets; multisets of effects per loop iteration over all paths; term tracing",
     note="The arithmetic itself is SQLite's.")

prop("P01", "A pull gives each entity every attribute asked for, under its name",
     "A pull gives for each entity the value of each attribute named, and for a wildcard of every attribute, under its alias or else its own name: all the values of an attribute that has many, and nothing for one the entity lacks; its own id is given exactly when asked for, once. What is named along with a wildcard counts too, and an attribute without a name is refused. A pull expression of a query takes its entities from its own column of every row, and an entity that has nothing asked for becomes an empty map there.",
     ["inputs"], "every pull pattern, schema, set of entities and set of rows",
     "Names, aliases, wildcards, fulltext attributes and cardinalities combine; a value left out or under another's name shows only for the combination a test happens to use.",
     ["query-pull/src/lib.rs", "query-projector/src/pull.rs", "query-projector/src/projectors/pull_two_stage.rs", "db/src/cache.rs"],
     [("naming", "query-pull/src/lib.rs Puller::prepare"), ("fetching", "db/src/cache.rs make_cache_for_entities_and_attributes"), ("giving", "query-pull/src/lib.rs Puller::pull"), ("into rows", "query-projector/src/pull.rs PullConsumer")],
     [("puller", "attributes, their names, and whether the id is given", "query-pull/src/lib.rs Puller")],
     technique="multisets of effects per loop iteration over all paths under edge assumptions; language of the SQL text emitted compared with a specification; term tracing",
     note="That what is fetched is kept by entity and cardinality is K01; what a stored value becomes is S05.")

prop("R01", "Every read runs the query it was given, on the reader's own state",
     "A read on a connection, a store or an open transaction answers from that one's own data, schema and cache, so an open transaction sees its own writes and nobody else does; asking for an entity's values gives exactly its values of that attribute. A query run at once, uncached, prepared first or built up is the query given, with every input bound to its own variable as a value of its own type; an input that is missing or disagrees with its declared type is refused, and a query answers without its statement being run only if it is known to be empty or constant.",
     ["inputs", "histories"], "every way to read, every query and every set of inputs, at any point of a transaction",
     "Readers, kinds of read and ways to run a query multiply; a read that looks in the wrong place differs only while a transaction is open or a cache is on, and an input left out only in the queries that have it.",
     ["transaction/src/lib.rs", "transaction/src/query.rs", "src/conn.rs", "src/store.rs", "src/query_builder.rs", "query-algebrizer/src/clauses/inputs.rs"],
     [("routing", "transaction/src/lib.rs Queryable and Pullable"), ("running", "transaction/src/query.rs run_algebrized_query and q_prepare"), ("inputs", "query-algebrizer/src/clauses/inputs.rs QueryInputs, src/query_builder.rs"), ("looking up", "transaction/src/query.rs lookup_values and fetch_values")],
     [("reader", "connection, schema and cache it reads with", "transaction/src/lib.rs InProgress"), ("inputs", "value and type of each variable", "query-algebrizer/src/clauses/inputs.rs QueryInputs")],
     technique="interprocedural term tracing of the arguments of each reading function back to the reader's fields; answers enumerated per case over all paths",
     note="What the cache holds is K01, what it may answer Q07; what the statement says is Q02.")

prop("Y01", "Sync does what each side's changes call for",
     "A sync uploads, downloads, merges or does nothing according to which of the two logs has grown since the last one, and records the new common head only once its transactions are in place. Incoming transactions are applied whole, in order, with their ids; local ones the other side hasn't seen are replayed after them. A remote that can't be understood changes nothing.",
     ["histories", "schedules", "faults"], "every pair of local and remote logs since the last sync, and every step that can fail",
     "Two devices' histories interleave freely and a sync can stop anywhere; a head recorded a step too early loses transactions only for the histories that were cut there.",
     ["tolstoy/src/syncer.rs", "tolstoy/src/bootstrap.rs", "tolstoy/src/metadata.rs"],
     [("choosing", "tolstoy/src/syncer.rs Syncer::what_do, sync"), ("applying", "tolstoy/src/syncer.rs fast_forward_local"), ("merging", "tolstoy/src/syncer.rs merge"), ("first sync", "tolstoy/src/syncer.rs first_sync_against_non_empty")],
     [("sync state", "remote head, and the ids local transactions have remotely", "tolstoy/src/metadata.rs SyncMetadata, tolstoy/src/tx_mapper.rs TxMapper")],
     technique="decision tables over the states of the two logs; path queries with edge assumptions and term tracing over the interprocedural graph; parsed SQL",
     note="What the other device does meanwhile is the remote's matter. Two listed findings: ids given out on one device can be given out again on another.")

prop("Y02", "Uploading sends every transaction once, whole and in order",
     "Every transaction since the last common one is sent in order, each with all of its datoms and its parent, and the remote head moves only once all are accepted. A refused upload fails the sync, and records nothing locally.",
     ["histories", "faults"], "every log, and every request the remote can refuse",
     "Which transactions share a page of rows, and where a request is refused, decides what is lost; the tests' remote accepts everything.",
     ["tolstoy/src/tx_processor.rs", "tolstoy/src/tx_uploader.rs", "tolstoy/src/remote_client.rs", "tolstoy/src/syncer.rs"],
     [("reading the log", "tolstoy/src/tx_processor.rs Processor::process, DatomsIterator"), ("sending", "tolstoy/src/tx_uploader.rs TxUploader"), ("recording", "tolstoy/src/syncer.rs fast_forward_remote"), ("requests", "tolstoy/src/remote_client.rs")],
     [("upload", "parent of the next transaction, ids given so far", "tolstoy/src/tx_uploader.rs TxUploader")],
     technique="path queries per loop iteration with edge assumptions over the interprocedural graph; identity of generated ids by call site; parsed SQL",
     note="That an error leaves the store as it was is C03 and Y01.")

prop("F01", "The C interface survives null pointers and indexes out of range",
     "Every pointer a C caller passes is checked before what it points at is read, changed or freed, so a null one stops with a message and a destructor ignores it; an index is used only when it lies within the list. An object is freed exactly by the calls that end it, once, and what is handed out is the caller's own. A failed call gives a null result and a message, a successful one its result and no message.",
     ["inputs", "histories", "faults"], "every function of the C interface, every null or valid pointer, every index, and every outcome of the call behind it",
     "A hundred functions each take several pointers; a missing check, a wrong owner or a forgotten message is undefined behaviour or a leak in the one call and case nobody tried, and the interface has hardly any tests.",
     ["ffi/src/lib.rs", "ffi/src/utils.rs"],
     [("checking", "ffi/src/lib.rs assert_not_null!"), ("owning", "ffi/src/lib.rs define_destructor!, Box::from_raw and Box::into_raw"), ("errors", "ffi/src/utils.rs translate_result, translate_opt_result, translate_void_result")],
     [("error", "message of the last call", "ffi/src/utils.rs ExternError")],
     technique="path queries over the MIR of every exported function: pointer use against null tests, ownership transfer, index use against bound tests",
     note="That a pointer that isn't null is valid, of its type and not yet freed is the caller's promise.")

prop("F02", "Each C function does what its name says with its own arguments",
     "Every function of the C interface asserts, retracts, binds, caches, queries, transacts, commits or converts as its name says, with the arguments it was given and values of the type it names, and gives back what that gives. An observer registered from C watches the attributes it named and is told each transaction that changes one of them, with every attribute it changes; a destructor frees the kind of object it is named for.",
     ["inputs"], "every function of the C interface and every argument",
     "The functions are near copies of each other, where a value of the wrong kind, an assertion for a retraction or a swapped argument compiles; the test suite calls none of them.",
     ["ffi/src/lib.rs", "ffi/src/utils.rs", "ffi/src/android.rs"],
     [("asserting and retracting", "ffi/src/lib.rs in_progress_builder_add_*, entity_builder_add_*"), ("querying", "ffi/src/lib.rs query_builder_bind_*, query_builder_execute*"), ("values", "ffi/src/lib.rs typed_value_into_*, value_at_index_into_*"), ("observing", "ffi/src/lib.rs store_register_observer")],
     [("store", "the connection behind the pointer", "ffi/src/lib.rs Store")],
     technique="decision table over every exported function: interprocedural term tracing of the operation reached, its arguments and the result",
     note="What the operation then does is the property of that operation.")

prop("Q06", "Predicates and functions of a query mean what their names say",
     "A comparison holds the rows to exactly that comparison of its two arguments, in their order, as numbers, instants or entities, whichever both can be, a long and a double as numbers; unknown names, and arguments that can't be of the types it's for, are refused. ground binds each variable to its own constants; tx-ids gives the transactions from the first up to but not including the second, tx-data the datoms of its own transaction, fulltext the values of its own attribute that match its text, and each place of a binding is its own part of what is found.",
     ["inputs"], "every predicate and function clause, with every argument and binding the grammar allows, among every other clause",
     "An argument can be a constant, a known or an unknown variable of any set of types, and a binding any of four shapes with any places left out: the tests' queries take a few of the combinations.",
     ["query-algebrizer/src/clauses/predicate.rs", "query-algebrizer/src/clauses/resolve.rs", "query-algebrizer/src/clauses/where_fn.rs", "query-algebrizer/src/clauses/ground.rs", "query-algebrizer/src/clauses/fulltext.rs", "query-algebrizer/src/clauses/tx_log_api.rs", "query-algebrizer/src/types.rs"],
     [("names", "query-algebrizer/src/types.rs Inequality::from_datalog_operator, query-algebrizer/src/clauses/where_fn.rs apply_where_fn"), ("comparing", "query-algebrizer/src/clauses/predicate.rs apply_inequality"), ("arguments", "query-algebrizer/src/clauses/resolve.rs"), ("functions", "query-algebrizer/src/clauses/ground.rs, fulltext.rs, tx_log_api.rs")],
     [("clauses", "wheres, from, column and value bindings, known types", "query-algebrizer/src/clauses/mod.rs ConjoiningClauses")],
     technique="decision tables over names and kinds of argument; path queries with edge assumptions and term tracing over the interprocedural graph",
     note="How the constraints become SQL is Q02, Q03 and Q07; what binding a value or column does is Q03. Which words match is SQLite's.")
