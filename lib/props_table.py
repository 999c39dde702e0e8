# exec'd by mkdocs.py
HOOKS = []
T = "The tests compare a fixed list of queries with stored answers and run a few fixed updates. "
REF = "Held on the executions of this run only; trusts the reference model in py/ and the driver, which uses the server's own entry points."

prop("C01", "A built database holds exactly the triples of the RDF file",
     "After building from any well-formed N-Triples or Turtle file, the database answers with exactly the set of triples the file denotes, each term byte for byte, on "
     "every access path, whether read at once, after reopening, or through the export. The counts it reports are the counts of that set. Malformed statements are reported, "
     "never cost other statements, and never yield terms that are not in the file.",
     "inputs configurations", "all RDF files (any order, duplicates, term shapes, sizes, line ends), all load modes",
     T + "They build a handful of small data sets and never compare the stored triples with the file.",
     "Database/Database.cpp Parser/RDFParser.cpp Parser/TurtleParser.cpp KVstore/KVstore.cpp StringIndex/StringIndex.cpp Trie/Trie.cpp",
     [("encoding of terms and writing of ID tuples", "Database::encodeRDF_new"), ("index construction", "KVstore::build_*"), ("parsing", "TurtleParser, RDFParser")],
     "reference model over recorded builds: the stored triples read back over every access path and compared with the generated file, under ASan", REF,
     ["SELECT of every triple", "index dumps", "export"])

prop("C02", "SPARQL updates change the database to exactly the set they denote",
     "After any history of INSERT DATA, DELETE DATA, DELETE WHERE and DELETE/INSERT ... WHERE the database contains exactly the triples that set semantics gives. Every index, "
     "dictionary and statistic agrees with that set, and each update reports the number of triples it changed.",
     "histories inputs", "all sequences of updates over any data, with reloads in between",
     T + "They check neither indexes nor counts after updates, and no long histories.",
     "Database/Database.cpp Query/GeneralEvaluation.cpp KVstore/KVstore.cpp KVstore/IVArray/IVArray.cpp Parser/QueryParser.cpp",
     [("insertion and removal of one triple", "Database::insertTriple, removeTriple"), ("the nine lists of a triple", "KVstore::updateTupleslist_*"), ("templates", "GeneralEvaluation::prepareUpdateTriple")],
     "online reference model over random update histories, with audits of every index, dictionary and statistic, under ASan", REF)

prop("C03", "Basic graph patterns are answered with exactly their solutions",
     "For every graph and every set of triple patterns, a SELECT query returns exactly the bag of solutions that SPARQL defines for its projection, with and without DISTINCT. "
     "Neither the join order, the plan chosen nor the size of the intermediate results changes the answer.",
     "inputs programs", "all graphs and all basic graph patterns (constants, predicate variables, self-loops, disconnected parts)",
     T + "A planner that loses or repeats solutions for another shape of pattern goes unnoticed.",
     "Database/Optimizer.cpp Database/PlanGenerator.cpp Database/Executor.cpp Query/GeneralEvaluation.cpp Query/BGPQuery.cpp Query/topk/",
     [("planning", "PlanGenerator"), ("joins", "Executor, JoinMethod"), ("candidates", "FilterPlan, fillCandList")],
     "differential monitor: answers on generated graphs and patterns against a reference evaluator, under ASan", REF)

prop("C04", "OPTIONAL, UNION, MINUS and nested groups follow the SPARQL algebra",
     "For every nesting of OPTIONAL, UNION, MINUS and groups, SELECT returns exactly the bag of solutions the SPARQL algebra defines, and ASK tells whether there is one. "
     "Rewritings the engine applies never change an answer.",
     "inputs programs", "all graphs and all group graph patterns built of these operators",
     T + "Few combine operators; the rewriting of groups is not observed at all.",
     "Query/GeneralEvaluation.cpp Query/TempResult.cpp Query/QueryTree.cpp",
     [("evaluation of the rewriting tree", "GeneralEvaluation::queryEvaluation"), ("joins, left joins, minus on bags", "TempResultSet::doJoin, doOptional, doMinus")],
     "differential monitor: answers on generated graphs and nested patterns against a reference evaluator, under ASan", REF)

prop("C05", "FILTER and BIND expressions evaluate as SPARQL defines for every operand",
     "For every expression built of the supported operators and functions and every kind of operand (unbound, IRI, plain, language-tagged, typed), FILTER keeps exactly the "
     "solutions whose effective boolean value is true, and BIND and projected expressions yield the value SPARQL defines, or nothing on an error.",
     "inputs programs", "all expressions of the supported operators over all terms",
     T + "They touch a few functions on well-typed operands; errors, mixed types and unbound operands are not tested.",
     "Query/GeneralEvaluation.cpp Util/EvalMultitypeValue.cpp Query/TempResult.cpp",
     [("values and comparisons", "EvalMultitypeValue"), ("filters", "TempResultSet::doFilter")],
     "differential monitor: expressions over generated terms against a reference evaluator of SPARQL values, under ASan", REF)

prop("C06", "DISTINCT, ORDER BY, LIMIT, OFFSET and aggregates shape answers exactly",
     "Every solution modifier and aggregate gives the answer SPARQL defines from the bag of solutions: DISTINCT removes duplicates and nothing else, ORDER BY sorts a permutation of "
     "the rows consistently with the order of values, LIMIT and OFFSET cut that sequence, GROUP BY partitions it, and COUNT, SUM, MIN, MAX, AVG, SAMPLE and GROUP_CONCAT are computed per group.",
     "inputs programs", "all graphs, patterns and combinations of modifiers and aggregates",
     T + "Ties, unbound and mixed-type keys, and combinations of modifiers are not covered.",
     "Query/GeneralEvaluation.cpp Query/ResultSet.cpp Util/Stream.cpp Query/topk/TopKUtil.cpp",
     [("modifiers and aggregates", "GeneralEvaluation::getFinalResult"), ("sorting", "Stream, ResultCmp")],
     "differential monitor: result sequences against a reference evaluator and an order oracle, under ASan", REF)

prop("C07", "Path queries and transitive paths are exact",
     "iri* between variables and constants returns exactly the pairs reflexively and transitively connected by the predicate. Path functions (reachability, shortest path, cycles, "
     "distance-bounded and ranking ones) return what their documentation states of the graph, and every path they show is a path of the graph with the properties asked for.",
     "inputs programs", "all graphs, predicate sets, end points and bounds",
     T + "The path tests run a few queries on three fixed graphs.",
     "Query/GeneralEvaluation.cpp Query/PathQueryHandler.cpp Database/CSR.cpp",
     [("path functions", "PathQueryHandler"), ("closure", "GeneralEvaluation::kleeneClosure")],
     "result checker: each answer verified against graph search on the generated graph, under ASan", REF)

prop("C08", "Saved data survive a crash, and reopening shows exactly the saved state",
     "Closing and reopening a database, or killing the process at any moment after a save and before the next one begins, yields exactly the state saved: same triples, dictionaries, counts "
     "and statistics, found through every access path. Updates made after the save and lost in a crash never damage what was saved, and the reopened database goes on working.",
     "crash_points histories", "all histories of updates and saves, and all points at which the process may die",
     T + "No test ends a process or reopens a database after updates.",
     "Database/Database.cpp KVstore/ KVstore/IVArray/IVArray.cpp StringIndex/StringIndex.cpp",
     [("checkpoint", "Database::save, KVstore::flush"), ("string index", "StringIndex::flush")],
     "crash-point monitor: the process is ended at enumerated points of recorded histories and the reopened database compared with the model", REF, level="fault_enumeration")

prop("C09", "Batch additions and removals are set union and difference",
     "Adding or removing a file of triples, in bulk or one by one, leaves exactly the union or difference on every index, dictionary and statistic, and reports the number of triples "
     "changed. Duplicates in the file, triples already present or absent, and unknown terms make no difference to anything else.",
     "histories inputs", "all data, files and sequences of batches mixed with other updates and reloads",
     T + "Two tests add and remove one file.",
     "Database/Database.cpp KVstore/KVstore.cpp Main/gadd.cpp Main/gsub.cpp",
     [("bulk updates", "Database::batch_insert, batch_remove, sub_batch_update"), ("merging of lists", "KVstore::updateInsert_*, updateRemove_*")],
     "online reference model over random batch histories, with audits of every index, dictionary and statistic, under ASan", REF)

prop("C10", "Every query text is answered or refused, and leaves the database usable",
     "Whatever text is submitted as a query, the call returns an answer or a syntax error: the process neither ends, hangs nor corrupts memory. A refused text changes nothing, and "
     "later queries and updates are served as before.",
     "inputs histories", "all byte strings as query text, in any sequence with valid queries",
     T + "The tests submit well-formed queries only.",
     "Parser/QueryParser.cpp Parser/SPARQL/ Query/QueryTree.cpp Query/GeneralEvaluation.cpp Database/Database.cpp",
     [("grammar", "Parser/SPARQL/SPARQL.g4"), ("error handling", "Database::query")],
     "sanitized robustness monitor: mutated and generated texts, with probe queries and updates after each", REF)

prop("C11", "Any file given as RDF is loaded or refused without harm",
     "Whatever bytes an RDF file holds, building, adding and removing finish, report bad statements, and store only statements that parse. Good statements beside bad ones are kept exactly.",
     "inputs", "all byte strings as RDF files",
     T + "The tests load well-formed files only.",
     "Parser/RDFParser.cpp Parser/TurtleParser.cpp Parser/Type.cpp Database/Database.cpp",
     [("recovery after a bad statement", "RDFParser::parseFile, TurtleParser"), ("error log", "Database::build")],
     "sanitized robustness monitor with an oracle for good lines among corrupted ones", REF)

prop("C12", "Transactions are atomic, isolated and survive commit",
     "Under every isolation level a transaction reads its own writes; snapshot and serializable transactions read one state of the committed data. A committed transaction's changes "
     "are all visible to later transactions and a rolled back or aborted one's never are.",
     "schedules histories", "all interleavings of transactions' operations at every isolation level",
     T + "No test begins a transaction.",
     "Database/Txn_manager.cpp Database/Transaction.cpp KVstore/IVArray/IVArray.cpp KVstore/IVArray/IVEntry.cpp Util/VList.cpp Database/Database.cpp",
     [("versions", "IVEntry, VList, Version"), ("locks and validation", "Latch, Txn_manager")],
     "history checker: recorded interleavings of transactions against a multi-version model", REF)

prop("C13", "Concurrent queries and updates behave as if run one at a time",
     "Any number of threads may query and update one database: every answer equals the answer in some state between its call and its return, in an order consistent with the updates' "
     "order. No thread crashes, deadlocks or races on memory.",
     "schedules", "all schedules of concurrent queries and updates",
     T + "The tests run one query at a time.",
     "Database/Database.cpp KVstore/ StringIndex/StringIndex.cpp Query/QueryCache.cpp Util/Util.cpp",
     [("readers and writers", "Database update_lock"), ("caches", "IVCacheManager, QueryCache")],
     "concurrent stress with unique values and a linearizability checker, and ThreadSanitizer on the shared structures", REF)

prop("C14", "The storage structures are maps",
     "The persistent string-to-id tree, id-to-string array and id-to-list array behave as maps under every sequence of set, get, remove, flush and reopen, for every size of key and "
     "value and every cache that holds the values in use. What is read is what was last written, byte for byte; reopened without a flush, what was last flushed.",
     "histories inputs", "all sequences of operations, key and value sizes, cache sizes",
     T + "They see these structures only through a few queries.",
     "KVstore/SITree/ KVstore/ISArray/ KVstore/IVArray/ Util/Triple.h",
     [("B+ tree", "SITree, SIStorage"), ("arrays", "ISArray, IVArray, *BlockManager"), ("large values", "VList")],
     "online reference model over random operation sequences on the structures themselves, under ASan", REF)

prop("C15", "Backup, restore and export reproduce the database",
     "The export of a database is a file that denotes exactly its triples and builds an equal database. Restoring a backup yields exactly the backed up triples, "
     "and backing up leaves the database as it was.",
     "histories inputs", "all databases and histories of updates, backups and restores",
     T + "No test exports or restores.",
     "Database/Database.cpp Main/gexport.cpp Main/gbackup.cpp Main/grestore.cpp",
     [("export", "Database::export_db"), ("backup", "Database::backup, restore")],
     "round-trip monitor against a set model", REF)

prop("C16", "The HTTP server serves only what the caller is entitled to, and exactly",
     "A request with a wrong password, for an unknown or unloaded database, or without the privilege for its operation is refused and changes nothing; users, privileges and databases "
     "are managed only by those entitled. A permitted request gives the same effect and answer as the engine itself, and no request ends the server.",
     "inputs histories schedules", "all sequences of requests by users of all privileges, valid and malformed",
     T + "No test starts the server.",
     "Main/ghttp.cpp GRPC/APIUtil.cpp",
     [("authentication and privileges", "APIUtil::check_*"), ("request dispatch", "ghttp request_thread")],
     "recorded API histories on a live sanitized server against a model of users, privileges and databases", REF)

prop("C17", "Answers are serialised without loss",
     "The JSON and tabular forms of every answer parse, and give back exactly the rows of the answer: names, order, terms with their kind, language and datatype, byte for byte, and "
     "unbound values as such.",
     "inputs", "all answers over all terms",
     T + "The tests look at the number of answers and at plain values.",
     "Query/ResultSet.cpp Util/Util.cpp",
     [("JSON", "ResultSet::to_JSON"), ("text", "ResultSet::to_str")],
     "round-trip monitor: serialised answers parsed by independent parsers and compared with the rows", REF)

prop("C18", "Terms and identifiers stay in bijection through every history",
     "Every term of the data has one identifier, and that identifier gives the term back, through insertion, removal, reuse of identifiers, saving and reopening. No two terms share an "
     "identifier, and no identifier is given out while in use.",
     "histories", "all histories that create, remove and recreate terms",
     T + "Reuse of identifiers is never exercised.",
     "Database/Database.cpp KVstore/KVstore.cpp StringIndex/StringIndex.cpp",
     [("free lists", "Database::allocEntityID, freeEntityID, ..."), ("dictionary", "KVstore entity2id, id2entity, ..."), ("string index", "StringIndex")],
     "invariant monitor over dumps of the dictionaries during histories that recycle identifiers", REF)

prop("C19", "The server's address lists admit exactly the addresses they describe",
     "With an allow list only the listed addresses and ranges are served; with a deny list all others are. This holds for every address and every list of single addresses and ranges.",
     "inputs configurations", "all lists of addresses and ranges, and all client addresses",
     T + "No test reads the lists.",
     "Util/IPWhiteList.cpp Util/IPBlackList.cpp Main/ghttp.cpp",
     [("lists", "IPWhiteList, IPBlackList")],
     "differential monitor: decisions on generated lists and addresses against interval arithmetic", REF)

prop("C20", "The command line tools give the documented results",
     "Creating, querying, adding to, removing from, exporting, backing up, restoring and dropping databases with the tools has exactly the documented effect on the set of databases and "
     "their triples. A refused or failed command leaves every database as it was and says so in its exit status or message.",
     "histories inputs", "all sequences of commands with valid and invalid arguments",
     T + "They run four of the tools on fixed inputs.",
     "Main/gbuild.cpp Main/gadd.cpp Main/gsub.cpp Main/gquery.cpp Main/gexport.cpp Main/gbackup.cpp Main/grestore.cpp Main/gdrop.cpp Main/ginit.cpp",
     [("the tools", "Main/")],
     "recorded command histories on sanitized executables against a model of databases", REF)
