#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
DB="lib/src/database.rs"; MEM="lib/src/memory/datastore.rs"; RD="lib/src/rdb/datastore.rs"; RM="lib/src/rdb/managers.rs"
UT="lib/src/util.rs"; JS="lib/src/models/json.rs"; ID="lib/src/models/identifiers.rs"; QS="lib/src/models/queries.rs"
PC="proto/src/converters.rs"; PS="proto/src/server.rs"; PU="plugins/host/src/util.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
STORES="both the in-memory and the RocksDB datastore"
p("P01","Vertex creation succeeds exactly when the UUID is unused",
 "In "+STORES+", creating a vertex returns true exactly when no vertex with that UUID exists at that moment, and afterwards a vertex with that UUID exists with the type it was first created with. A create that returns false changes nothing: the stored type, the vertex's edges, its properties and every other vertex stay as they were. A vertex that was deleted can be created again, with any type, and starts with no edges and no properties.",
 ["inputs","histories"],"all 128-bit UUIDs and all types, after every history of creates, deletes, edge and property writes",
 "Tests create a handful of random UUIDs; equality patterns between UUIDs, extreme UUIDs and delete/re-create histories are not covered.",
 [DB,MEM,RD,RM],[("in-memory create_vertex (entry API)",MEM),("RocksDB exists check and put",RD),("VertexManager::create/exists/get",RM)],
 ["Database::create_vertex","Database::get(SpecificVertexQuery)","Database::get(AllVertexQuery)"])
p("P02","Edges exist only between existing vertices; creation is idempotent",
 "In "+STORES+", creating an edge returns true exactly when both of its endpoints exist, and then the edge (outbound id, type, inbound id) is present exactly once however often it is created. When an endpoint is missing it returns false and changes nothing. Re-creating an existing edge keeps that edge's properties and does not affect any other edge, including edges that differ only in type or direction, and self-loops.",
 ["inputs","histories"],"all endpoint UUIDs (equal or different, existing or not) and all types",
 "Tests use one valid and one invalid edge with fixed types.",
 [DB,MEM,RD,RM],[("create_edge endpoint check",MEM),("create_edge endpoint check",RD),("EdgeManager::set writes forward and reversed keys",RM)],
 ["Database::create_edge","Database::get(SpecificEdgeQuery / AllEdgeQuery)"])
p("P03","Deleting a vertex removes all of its data and nothing else",
 "In "+STORES+", deleting a vertex removes the vertex, every edge that has it as outbound or inbound end (self-loops included), all properties of the vertex and of those edges, and all their index entries. No query of any kind can return any of that data afterwards, not even after a vertex with the same UUID and the same edges are created again. All other vertices, edges, properties and index entries are unchanged.",
 ["inputs","histories"],"all graphs up to the bound with arbitrary UUIDs/types/aliasing, indexed and unindexed properties, any vertex deleted",
 "Tests delete one vertex of one fixed shape and look at edge counts from one side only.",
 [DB,MEM,RD,RM],[("delete_vertices cascade",MEM),("VertexManager::delete cascade over forward and reversed ranges",RM)],
 ["Database::delete(vertex query)","all queries afterwards"])
p("P04","Deleting edges or properties removes exactly what was selected",
 "In "+STORES+", deleting the edges selected by a query removes those edges, their properties and the index entries of those properties, from both directions, and nothing else. Deleting properties selected by a property query removes exactly the selected (owner, name) pairs. Deleting something that does not exist is a no-op, and the count of what remains reflects exactly the removed elements.",
 ["inputs","histories"],"all edge sets/property sets up to the bound, with types and names sharing prefixes or lengths",
 "Tests delete one edge or one property, never neighbours that share endpoints, types or name prefixes.",
 [DB,MEM,RD,RM],[("delete_edges / delete_*_properties",MEM),("EdgeManager::delete, *PropertyManager::delete",RM),("Database::delete dispatch",DB)],
 ["Database::delete","queries afterwards"])
p("P05","Outbound and inbound views of the edges always agree",
 "In "+STORES+", after any history an edge a-[t]->b is reported by the outbound query of a if and only if it is reported by the inbound query of b, if and only if it is in the set of all edges. Edges reported by an inbound query have the same orientation as when they were created. The edge count equals the number of edges reported.",
 ["inputs","histories"],"all histories of create/delete/bulk-insert on vertices and edges up to the bound, including self-loops and parallel edges of different types",
 "Tests compare the two directions only for single hand-built graphs without deletions.",
 [DB,MEM,RD,RM],[("edges and reversed_edges sets kept in step",MEM),("edge_ranges and reversed_edge_ranges column families kept in step",RM),("reversed() mapping in pipes",DB)],
 ["Database::get(outbound/inbound pipes)","AllEdgeQuery","count queries"],
 state=[("reversed_edges","reverse adjacency copy of edges",MEM),("reversed_edge_ranges:v2","reverse adjacency copy of edge_ranges:v2",RM)])
p("P06","A property reads back as the last value written to that owner and name",
 "In "+STORES+", reading a property of a vertex or edge yields exactly the value of the last successful write to that same owner and name that was not followed by a delete of it or of its owner, and nothing otherwise. Writes to one (owner, name) never alter what is read for any other owner or name, and vertex and edge properties never mix. Reading all properties of an owner lists each of its names exactly once with that value.",
 ["inputs","histories"],"all pairs of owners (any UUIDs, any edges) and names (including names that are prefixes of each other), all write/overwrite/delete orders",
 "Tests use one owner and one or two names of fixed length; aliasing between keys needs particular UUID/type/name combinations.",
 [DB,MEM,RD,RM,UT],[("(owner,name) keyed maps and range scans",MEM),("key construction and prefix scans per owner",RM),("key component encoding",UT)],
 ["Database::set_properties","Database::get(PipePropertyQuery)"])
p("P07","Index queries return exactly the elements whose stored property matches",
 "In "+STORES+", once a property name is indexed, a presence query returns exactly the existing vertices (or edges) that currently have the property, and a value query exactly those whose current value equals the given value, each once. This holds whether the values were written before or after the index was created, through single writes, overwrites, bulk inserts or deletes of the property or its owner, and indexing the same name again changes nothing.",
 ["inputs","histories"],"all interleavings of indexing with property writes, overwrites, property deletes and owner deletes up to the bound",
 "Tests check a few straight-line scenarios in debug builds; stale entries need overwrite/delete histories and release semantics.",
 [DB,MEM,RD,RM],[("property_values map maintained by set/delete",MEM),("vertex/edge_property_values column families maintained by set/delete",RM),("index_property back-fill",MEM),("index_property back-fill",RD)],
 ["VertexWithPropertyPresence/Value queries","EdgeWithPropertyPresence/Value queries"],
 state=[("property_values","name -> value -> owners",MEM),("*_property_values:v2","name, value hash, owner",RM)])
p("P08","Vertex range queries are exact: order, start, type filter and limit",
 "In "+STORES+", a vertex range query returns the vertices with UUID greater than or equal to the start, of the requested type if one is given, in ascending UUID order, and of these exactly the first `limit` (zero included), each once. Fetching specific ids returns exactly those that exist. The unrestricted query returns all vertices and its count equals the number of vertices.",
 ["inputs"],"all sets of UUIDs up to the bound, every start UUID, type filter and limit",
 "Tests use a few random UUIDs and fixed limits.",
 [DB,MEM,RD,RM],[("RangeVertex evaluation",DB),("range_vertices",MEM),("iterate_for_range with big-endian UUID keys",RM)],
 ["Database::get(RangeVertexQuery/SpecificVertexQuery/AllVertexQuery)"])
p("P09","Traversals return exactly the adjacent elements selected",
 "In "+STORES+", an outbound/inbound traversal from a set of vertices returns exactly the edges that leave/enter those vertices, restricted to the requested type if one is given; from a set of edges it returns exactly their outbound/inbound vertices, restricted likewise. With a limit it returns min(limit, total) of these, taken in source order. Edges of other vertices whose ids are numerically adjacent, or of types that extend the requested type, are never included.",
 ["inputs","histories"],"all graphs up to the bound, all limits, type filters, directions and start sets, including repeated source vertices",
 "Tests traverse one fixed graph; boundary UUIDs and type prefixes are not exercised.",
 [DB,MEM,RD,RM],[("Pipe evaluation (lower bound, take_while, filter, limit)",DB),("range_edges/range_reversed_edges",MEM),("iterate_for_range",RM)],
 ["Database::get(PipeQuery)"])
p("P10","Filters by property split their input; include and count are faithful",
 "In "+STORES+", filtering a set of vertices or edges by (not) having an indexed property, or by its value being (not) equal to a given value, keeps exactly the matching elements in order, so the filter and its negation partition the input. A count query returns the number of elements the counted query would return. Marking a sub-query for inclusion adds that sub-query's own output to the results, in evaluation order, without changing any other output.",
 ["inputs","programs"],"all compositions of query operators up to the bounded nesting over all graphs up to the bound",
 "Tests cover a few fixed compositions.",
 [DB,QS],[("PipeWithProperty* / Include / Count evaluation",DB),("output_len/output_type",QS)],
 ["Database::get"])
p("P11","Rejected operations report an error and change nothing",
 "In "+STORES+", querying by a property that is not indexed, deleting or setting properties on the output of a query that does not yield vertices/edges (or properties, for delete), and traversing from unsuitable output are reported as errors. Such a request never panics, and everything stored before it reads back unchanged afterwards. Building a traversal, property read, filter or count on a query whose output cannot be used that way is rejected at construction.",
 ["inputs","programs"],"all query shapes up to the bounded nesting (including shapes only reachable through the wire format), over all stores up to the bound",
 "Tests try single misuse examples and do not compare the state before and after.",
 [DB,QS,PC],[("OperationOnQuery/NotIndexed results",DB),("constructor validation via output_type",QS)],
 ["Database::get/delete/set_properties","query constructors"])
p("P12","Both datastores give the same answers to the same history",
 "For every history of operations, the in-memory and the RocksDB datastore return the same results for every operation and every query: same success/failure, same vertices, edges, counts, properties and index results (as sets where order is unspecified). This includes histories that continue after failed operations. (Bulk inserts are covered where they meet the conditions of the bulk insert property; outside those the documentation leaves the result open.)",
 ["histories","inputs"],"all operation histories up to the bound with arbitrary ids, types, names and values",
 "The shared test-suite runs the same few scenarios on both but never compares them on other histories.",
 [MEM,RD,RM,DB],[("Transaction implementation",MEM),("Transaction implementation",RD)],
 ["all Database methods on both datastores"])
p("P13","Bulk insert equals inserting the items one by one",
 "In "+STORES+", a bulk insert of items whose owners and endpoints exist (earlier in the batch or already stored), and whose vertices that repeat an already used UUID repeat its type too, leaves the database in exactly the state that inserting the items one after the other with the single-item operations would, including property overwrites within the batch, indexed properties, duplicates, and updates of already stored data.",
 ["inputs","histories"],"all batches up to the bound in any order, with duplicates, overwrites, and any property indexed before",
 "Tests insert one fixed batch of distinct items.",
 [DB,MEM,RD,RM],[("default bulk_insert",DB),("WriteBatch bulk_insert override",RD),("property set reading the previous value",RM)],
 ["Database::bulk_insert","queries afterwards"])
p("P14","A crash never leaves a RocksDB operation half applied",
 "If the process dies at any point during an operation on the RocksDB datastore, then after reopening the database either the whole operation or nothing of it is visible (and if it had returned, all of it), also while the database is first created: a vertex is never gone with its edges, properties or index entries left, an edge never visible from one side only, and an index never disagrees with the stored values.",
 ["crash_points","histories"],"every crash point between the storage engine's atomic writes of every operation, on all stores up to the bound",
 "No test stops an operation midway.",
 [RD,RM],[("one WriteBatch per operation",RD),("managers append to the caller's batch",RM)],
 ["reopen and query after each write boundary"])
p("P15","A reopened RocksDB database answers as before it was closed",
 "After closing and reopening a RocksDB-backed database, every query returns what it returned before, including which properties are indexed, and subsequent writes keep the indexes correct, whether it was opened with default or explicit options. Synchronising (compaction and flush) does not change any answer.",
 ["histories"],"all histories up to the bound, with reopen and sync at any position",
 "One test reopens after a repair of an empty history.",
 [RD,RM],[("indexed_properties metadata stored with the index batch and read at open",RD),("MetadataManager",RM)],
 ["RocksdbDatastore::new_db","Database::sync","queries"],
 state=[("indexed_properties","set of indexed names cached in memory and in metadata:v2",RD)])
p("P16","A synced in-memory image reloads to the same database",
 "Loading the image written by a sync of the in-memory datastore gives a database that answers every query as the original did at the time of the sync, including indexed properties, and that stays correct under further writes. Sync itself changes no answer.",
 ["histories","inputs"],"all stores up to the bound: arbitrary ids, edges, properties, indexed or not",
 "One test reloads a single small graph.",
 [MEM,ID,JS],[("rmp_serde encode/decode of the whole state",MEM),("Identifier/Json serde",ID)],
 ["Database::sync","MemoryDatastore::read_msgpack_db"])
p("P17","A failing or interrupted sync never damages the previous image",
 "When writing the in-memory image fails (short write, disk full, I/O error) or the process dies during it, the file at the image path afterwards is either the complete previous image or the complete new one. A sync that returns success has written the complete new image; any failure to write it is reported as an error.",
 ["fault_sequences","crash_points"],"every position at which a file-system call of sync can fail, write short, or be the last one executed",
 "No test injects file-system faults.",
 [MEM],[("temporary file written and then renamed over the image",MEM)],
 ["Database::sync result","content of the image path"])
p("P18","Storage keys never collide, keep order, and decode to what was encoded",
 "For every kind of stored key, distinct logical keys (UUIDs, identifiers, property names in their positions) are encoded to distinct byte strings, none a prefix match for another owner's scan; decoding returns exactly the encoded parts; and keys that start with a UUID sort in UUID order. The declared encoded length equals the actual length.",
 ["inputs"],"all UUIDs and all identifiers of up to the bounded length",
 "Tests only reach keys built from one or two UUIDs and short fixed names.",
 [UT,RM],[("Component::write / build / read_*",UT),("key() functions and prefixes",RM)],
 ["util::build, util::read_uuid, util::read_identifier, util::read_u64"])
p("P19","The successor UUID is the next one in order, or an error at the maximum",
 "The successor of any UUID other than the maximum is the UUID whose 128-bit big-endian value is larger by exactly one, so no UUID lies strictly between them. The maximum UUID has no successor and yields an error rather than wrapping or panicking.",
 ["inputs"],"all 2^128 UUIDs","Tests check one ordinary UUID and the maximum.",
 [UT],[("next_uuid carry loop",UT)],["util::next_uuid"])
p("P20","Every identifier obtained through the safe API is valid",
 "An identifier can be obtained from text only if it is at most 255 bytes long and consists only of letters, digits, dashes and underscores; every other text is rejected with an error, whichever way it arrives (construction, parsing, conversion, deserialization, wire message). A valid identifier keeps exactly its text, and two identifiers are equal, and ordered, exactly as their texts are.",
 ["inputs"],"all byte strings up to the bounded length, and lengths around the limit",
 "Tests try four literals.",
 [ID,PC],[("Identifier::new validation",ID),("FromStr/TryFrom/Deserialize",ID),("proto conversion",PC)],
 ["Identifier::new, from_str, try_from, serde deserialize, proto TryInto"])
p("P21","JSON values compare, equal and hash coherently",
 "For property values, equality is reflexive, symmetric and transitive, and equal values have equal hashes. The ordering is antisymmetric, transitive and consistent with equality, numbers are ordered by their numeric value for integers across the whole signed and unsigned range, and values of different kinds are never equal.",
 ["inputs"],"all pairs and triples of values up to the bounded size: null, booleans, all 64-bit signed/unsigned integers and finite doubles, short strings, and nested arrays/objects",
 "Tests compare about a dozen literals.",
 [JS],[("partial_cmp, partial_cmp_by",JS),("hash",JS)],["Json ==, partial_cmp, hash"])
p("P22","Wire conversion loses nothing",
 "Converting any vertex, edge, query, property, query result or bulk-insert item to its wire message and back yields an equal value: every field, direction, limit, filter, flag, nesting and order is preserved.",
 ["inputs","programs"],"all model values up to the bounded nesting, with arbitrary ids, identifiers, limits, flags and values",
 "Tests round-trip a few queries against a live server.",
 [PC],[("From/TryInto implementations",PC)],["indradb_proto message conversions"])
p("P23","Malformed wire messages are rejected with an error",
 "A wire message with a missing required field, a UUID that is not 16 bytes long, an invalid identifier, invalid JSON text, an edge direction that is not one of the defined ones, or no variant set, at any nesting position, is rejected with a conversion error; it never panics and is never accepted as some other value. A well-formed message is never rejected.",
 ["inputs","programs"],"all messages up to the bounded nesting with any subset of fields missing or malformed",
 "Tests cover no malformed nested message.",
 [PC],[("required_field, TryInto implementations",PC)],["indradb_proto TryInto conversions"])
p("P24","Concurrent operations behave as if executed one at a time",
 "When several threads use the same database, the results they see and the final state are those of some sequential order of their operations: of several concurrent creates of the same vertex exactly one returns true, an edge is never left dangling by a concurrent vertex deletion, and index entries never disagree with the stored value. On the RocksDB datastore a query that reads or selects several items may see them at different moments; there this holds for operations whose query names its item directly.",
 ["schedules","histories"],"all interleavings of two threads with one or two operations each at the granularity of storage operations and lock acquisitions",
 "Tests are single-threaded.",
 [MEM,RD],[("one mutex per transaction",MEM),("index RwLock and WriteBatch",RD)],
 ["Database methods from several threads"])
p("P25","Generated UUIDs never repeat within a process",
 "UUIDs generated for new vertices within one process are pairwise distinct, for any readings of the system clock that do not run backwards, including many generations (up to 16384) within the same clock tick, and carry version 1 and the RFC variant.",
 ["inputs","schedules"],"all non-decreasing clock readings for a bounded number of consecutive generations",
 "One test generates two UUIDs with the real clock.",
 [UT,"lib/src/models/vertices.rs"],[("shared timestamp context with counter",UT)],["util::generate_uuid_v1","Vertex::new"])
p("P26","Plugin vertex mapping visits every vertex exactly once and reports errors",
 "Mapping over a database calls the mapper exactly once with each vertex that exists (after a failed call it may stop early, but calls it with no vertex twice) and returns only after all calls have finished, for any requested number of threads (zero included). If any call fails, or the vertices cannot be read, an error that occurred is returned, otherwise success. The vertex-counting plugin returns the number of vertices.",
 ["schedules","inputs","fault_sequences"],"all interleavings of the worker threads (bounded), every subset of failing calls, 0..n vertices, any requested thread count",
 "Tests run one happy path on an OS scheduler.",
 [PU,"plugins/naive_vertex_count/src/lib.rs"],[("thread pool, first-error slot, join",PU)],["indradb_plugin_host::util::map","naive_vertex_count plugin"])
p("P27","No input makes the database panic or become unusable",
 "In "+STORES+", no combination of UUIDs (minimum and maximum included), types, names, limits and well-formed queries makes an operation panic or blocks later operations: every operation returns a result or an error, and the database answers subsequent queries.",
 ["inputs","programs","histories"],"all UUIDs, limits and query compositions up to the bounds over all stores up to the bound",
 "Tests never use extreme UUIDs with property reads, zero limits in traversals, or repeated sources.",
 [DB,MEM,RD,RM,UT],[("limit arithmetic in traversal",DB),("successor-UUID bound for property scans",MEM)],
 ["all Database methods"])
p("P28","The server performs and reports what the request asked for",
 "Each gRPC request has exactly the effect and the result of the corresponding local operation on the served database, invalid requests are refused with an invalid-argument status and no effect, and an internal failure is reported as an error status, never as an empty or partial success.",
 ["inputs","schedules","fault_sequences"],"all requests, and all failures of the underlying database",
 "Tests run the shared happy-path suite over a loopback server.",
 [PS,"proto/src/client.rs"],[("async request handlers over spawn_blocking and channels",PS)],["indradb_proto::Client against Server"])
p("P29","Stored and transmitted numbers keep their exact value",
 "Every finite number stored as (part of) a property value reads back bit-for-bit as written, after storage in RocksDB, after an image reload, and after transmission between client and server. An element with an indexed number is found by exactly that number, and no longer once the property is deleted.",
 ["inputs"],"all 64-bit integers and all finite IEEE doubles",
 "Tests use small integers and short decimals.",
 [RM,PC,"lib/Cargo.toml"],[("serde_json text encoding of values",RM)],["Database::get(PipePropertyQuery)","proto Json conversion"])
p("P30","An operation whose storage write fails reports an error and changes nothing",
 "If the storage engine fails a write (disk full, I/O error) during any operation on the RocksDB datastore, the operation returns an error and no query answers differently than before it, neither at once nor after reopening; repeating the operation once storage works again has its full effect.",
 ["fault_sequences","histories"],"every write of every operation failing, on all stores up to the bound, followed by further operations and a reopening",
 "No test makes the storage engine fail.",
 [RD,RM],[("db.write(batch)? as the only write of an operation",RD),("indexed_properties cached in memory",RD)],
 ["result of every Database method","queries afterwards"])
p("P31","A failed storage read is reported, never taken for absent data",
 "If the storage engine fails a read (a lookup or a step of an iterator) during any query or operation on the RocksDB datastore, that query or operation returns an error instead of an answer computed from the data it could not read, and a failed operation changes nothing.",
 ["fault_sequences","inputs"],"every read of every query kind and operation failing, on all stores up to the bound",
 "No test makes the storage engine fail.",
 [RD,RM,DB],[("item? / Err(err) => Some(Err(err)) in every iterator chain",RD),("get_cf(..)?",RM),("collection of query results",DB)],
 ["result of every Database method","queries afterwards"])
p("P32","Query builders build the query they describe, or reject it",
 "The setters of a query change exactly the field they are named after, whatever the order and number of calls; the last call wins, and what was never set has its default (no limit, no type, no start id, all names). Composing queries by outbound, inbound, with_property, without_property, with_property_equal_to, with_property_not_equal_to, properties, include and count, or by the constructors, gives the query with those layers in that order; asking for pipes, filters or properties of a count or property query, or for a count of a count, is rejected with an inner-query error, and nothing else is rejected. The extract functions give the last output if it is of the kind asked for, unchanged, and nothing otherwise. Reversing an edge swaps its two ends and keeps its type. The names of the two edge directions parse to them and print from them, and no other text parses.",
 ["inputs"],"all builder call sequences up to the bound, all outputs, all texts",
 "Tests call most setters once, in one order, and check only that nested counts fail.",
 ["lib/src/models/queries.rs",UT,"lib/src/models/edges.rs"],[("builder methods and output_type validation","lib/src/models/queries.rs"),("extract_*",UT),("Edge::reversed","lib/src/models/edges.rs")],
 ["Query values","util::extract_*","EdgeDirection::from_str"])
p("P33","Plugins: the named plugin runs once on the database with the given argument; only libraries that fit are loaded",
 "A server started with plugin libraries offers exactly the plugins they register. A call through the gRPC service runs the plugin of exactly the given name, once, with the given argument (null if none is given), on a transaction of the served database; its writes are visible afterwards, and its result or its error is what the caller gets, an error never as success. A call with an unknown name is answered with not-found and a malformed argument with invalid-argument, running nothing. A library that cannot be loaded, has no register function, or was built for another plugin interface or by another compiler version makes server creation fail, without running a plugin; and a library stays loaded as long as anything of it is still in use. The hello-world plugin greets with its argument.",
 ["inputs","programs"],"all sets of up to two libraries and ways in which one may not fit; all calls, arguments and outcomes of a plugin",
 "No test loads a library that does not fit, calls an unknown plugin or lets one fail.",
 ["proto/src/server.rs","plugins/host/src/decl.rs","plugins/hello_world/src/lib.rs"],[("Server::new_with_plugins","proto/src/server.rs"),("execute_plugin handler","proto/src/server.rs"),("register_plugins!, VersionInfo","plugins/host/src/decl.rs")],
 ["Client::execute_plugin","Server::new_with_plugins","queries afterwards"])
p("P34","The transaction interface answers and writes as documented",
 "A transaction of either datastore, the interface plugins and the query engine work with, reads exactly what is stored: all vertices and edges and their counts, ranges from a given vertex or edge on (edges by outbound id, one group per type, then by inbound id; reversed edges likewise from the other end), specific vertices and edges in the order asked for with repetitions and without those unknown, elements with an indexed property or property value (or nothing at all if the property is not indexed), and the single and complete properties of a vertex or edge. Each write has its documented effect and result, several in one transaction one after the other; unknown and repeated items of a delete do no harm.",
 ["inputs","histories"],"all arguments of all methods on all graphs up to the bound, all sequences of writes up to the bound",
 "Tests reach transactions only through the query engine, which asks some of these questions in one way only.",
 ["lib/src/database.rs","lib/src/memory/datastore.rs","lib/src/rdb/datastore.rs"],[("Transaction","lib/src/database.rs"),("MemoryTransaction","lib/src/memory/datastore.rs"),("RocksdbTransaction","lib/src/rdb/datastore.rs")],
 ["results of Transaction methods","queries afterwards"])
p("P35","Each command of the client program does what it says and reports it truthfully",
 "Each command of indradb-client (ping; set, get, delete of vertices, edges, vertex and edge properties; counts) performs exactly the operation it names on exactly the elements its arguments name (outbound vertex, type, inbound vertex in this order), prints what the server answered and nothing else, and ends successfully exactly if the operation did: creating a vertex that exists or an edge without its vertices is a failure, not a success, and changes nothing. A vertex created without an id gets a new one, which is printed. Malformed UUIDs, identifiers and JSON are failures without any effect.",
 ["inputs"],"all commands with all arguments up to the bound over all databases of the scene",
 "No test runs the client program.",
 ["client/src/main.rs","proto/src/client.rs"],[("main, run, build_edge, build_vertex_query","client/src/main.rs"),("Client","proto/src/client.rs")],
 ["standard output and result of the client","queries afterwards"])
p("P36","The server program serves the database its command line names",
 "indradb-server listens on the given address (127.0.0.1:27615 by default), offers plugins exactly if a pattern is given, and serves exactly one database: without a subcommand or with `memory` an empty one that never touches a file; with `memory --persist-path` the contents of the image at that path, or an empty database if there is none, and synchronisation writes to that path; with `rocksdb` the contents of the database at that path, which is created if it is missing. What was stored in (or synchronised by) one run is there in the next. An image that does not load is an error: nothing is served and the file stays. `rocksdb --repair` serves nothing and loses nothing.",
 ["inputs","histories"],"all combinations of arguments, prior files and operations up to the bound",
 "The tests start the server in one configuration and look only at whether it starts.",
 ["server/src/main.rs","server/src/cli.rs","lib/src/memory/datastore.rs","lib/src/rdb/datastore.rs"],[("main, run_server","server/src/main.rs"),("parse_cli_args","server/src/cli.rs")],
 ["the database handed to the gRPC service","the address and plugin pattern","files"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
