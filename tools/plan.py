"""What each check runs: harness set, entry points, limits, stated bounds."""

# set -> (IR crate, native replay crate, path-dependency crates rebuilt on every run)
SETS = {
    "core": {"ir": "ir", "native": "native", "main": "harness"},
    "fs": {"ir": "ir-fs", "native": "native-fs", "main": "harness-fs"},
    "mt": {"ir": "ir-mt", "native": None, "main": "harness-mt", "inst": True},
    "wire": {"ir": "ir-wire", "native": "native-wire", "main": "harness-wire"},
    "srv": {"ir": "ir-srv", "native": "native-srv", "main": "harness-srv"},
}

def E(entry, secs=60, preempt=0, delays=1 << 31, reach=("end",), jobs=8, steps=400_000_000, qms=20_000, set=None):
    return dict(set=set, entry=entry, secs=secs, preempt=preempt, delays=delays, reach=list(reach), jobs=jobs, steps=steps, qms=qms)

def both(n, **k):
    return [E(n + "_mem", **k), E(n + "_rdb", **k)]

ENV = ("the storage engine behind the RocksDB datastore is replaced by the executable contract in shims/rocksdb "
       "(ordered column families, atomic batches applied in order, snapshot iterators, write-ahead durability); "
       "string interning is replaced by shims/internment (linear scan, same contract); "
       "the hash of std HashMap keys is the constant 0, so all hash-order effects other than insertion order are outside; "
       "memory allocation succeeds; the code is LLVM IR of the release profile with overflow checks on in indradb crates")

PLAN = {}

def P(pid, quick, thorough=None, set="core", bounds="", outside="", assume=()):
    PLAN[pid] = dict(set=set, quick=quick, thorough=thorough or quick, bounds=bounds, outside=outside, assume=list(assume))

def several(*ns, **k):
    r = []
    for n in ns:
        r += both(n, **k)
    return r

def odd(n, **k):
    """The same entry with the shortest and longest types and names."""
    return both(n + "l", **k)

def big(n, **k):
    """A large database."""
    return both(n + "g", steps=8_000_000_000, **k)

BIG = {"P03": "deletes of vertices", "P04": "deletes of edges and properties", "P06": "302 (thorough: 600) properties of one vertex or edge",
       "P07": "overwrites by query and batch, and indexing before or after", "P09": "limits, filters and starts over 1100 (2100) vertices and 1650 (3150) edges",
       "P08": "limits, filters and starts over 1100 (2100) vertices", "P13": "one batch of all of it, one of overwrites and additions, and one that sets every property three times",
       "P14": "a process death at the first to fourth write of one of 11 operations on all of it", "P15": "reopening before and after one of 11 operations on all of it",
       "P16": "sync and reload before and after one of 11 operations on all of it", "P30": "the first to fourth write of one of 11 operations on all of it fails",
       "P28": "batches of up to 350 items and answers of up to 119 elements through client and server (thorough: 1750 and 599)"}
GBIG = ("; and in a large database (270 vertices and 404 edges around one, thorough: 1100 and 1649; UUIDs that share 12 symbolic bytes and differ in the "
        "last four, which are concrete): ")

ODD = "; all of it with ordinary types and names, and again with the shortest (empty) and longest (255 bytes) ones"

P("P01", both("p01"), both("p01", secs=800),
  bounds="two create_vertex calls, one further create / delete / delete-all, one more create, over three symbolic 128-bit UUIDs "
         "(every aliasing and order of them) plus a free query UUID; two vertex types; with and without an indexed property, a self-loop, "
         "an edge between them; full observation twice",
  outside="longer histories, more than three distinct vertices")
P("P02", both("p02") + odd("p02"), both("p02", secs=1400) + odd("p02", secs=1400),
  bounds="two stored vertices and a third id, all symbolic with every aliasing; two (thorough: three) create_edge calls over every orientation "
         "and two types of which one is a prefix of the other, repeats and reversals; a property set on each; one edge re-created; full "
         "observation (both directions, every id, every property, index)",
  outside="more than three ids or four creates; other types (see P18 for symbolic types)")
P("P03", both("p03") + odd("p03") + big("p03"), both("p03", secs=1400) + odd("p03", secs=1400) + big("p03", secs=900),
  bounds="up to three vertices with symbolic UUIDs (any aliasing), two edges in every orientation incl. self-loops, indexed and other properties "
         "on all of them; one delete by ids / all / range / pipe / property value (thorough: two more); full observation; re-creation of all "
         "vertices and edges; full observation",
  outside="larger graphs")
P("P04", both("p04") + odd("p04") + big("p04"), both("p04", secs=1400) + odd("p04", secs=1400) + big("p04", secs=900),
  bounds="two symbolic UUIDs (any aliasing), two edges in every orientation and type, indexed and other properties on all; one delete out of 13 "
         "edge and property queries incl. non-existing and repeated items, then the same again; re-creation; full observation",
  outside="larger graphs; deletes through deeper queries")
P("P05", both("p05") + odd("p05"), both("p05", secs=1400) + odd("p05", secs=1400),
  bounds="three (thorough: four) operations out of edge create / edge delete / vertex delete / vertex create / bulk edges / delete through a pipe "
         "over two symbolic UUIDs and four edges; both views of every id, each edge and the counts after the history",
  outside="longer histories, more ids")
P("P06", several("p06", "p06k", "p06l", "p06g", "p06v"), several("p06", "p06k", "p06l", "p06g", "p06v", secs=800),
  bounds="p06: two (thorough: three) operations (set / delete / set by query / owner delete and re-create / bulk) on two owners, three "
         "edges and three names (one empty, one a prefix of another), all owner aliasings, after everything was written once; p06k: 14 JSON "
         "representatives of every kind, each overwritten by each; p06v: seven large ones (a text of 66001 bytes and its neighbour, 300 and 5000 characters, "
         "300 elements, 300 keys, 100 levels), each overwritten by each",
  outside="longer histories; JSON values outside the representatives; floats (P29)")
P("P07", several("p07", "p07k", "p07l", "p07g", "p07v", "p07i"), several("p07", "p07k", "p07l", "p07g", "p07v", "p07i", secs=800),
  bounds="p07: two (thorough: three) operations (set / delete property / delete owner / re-create / index again / bulk with overwrite / set by "
         "query) on two symbolic vertices and an edge; index made before, between or after; presence and value queries for every name and value; "
         "p07k: 14 JSON representatives of every kind against each other, incl. two arrays with the same hash; p07v: the large values of p06v; p07i: 70 (thorough: 270) indexed names",
  outside="longer histories; other values that collide in the 64-bit value hash")
P("P08", both("p08") + odd("p08") + big("p08"), both("p08", secs=1400) + odd("p08", secs=1400) + big("p08", secs=900),
  bounds="three (thorough: four) vertices with symbolic UUIDs (any aliasing and order), symbolic 128-bit start id, symbolic 32-bit limit, optional type "
         "filter; specific-id query with repeated and unknown ids; deletion in between",
  outside="more stored vertices")
P("P09", several("p09", "p09c", "p09l", "p09g"), several("p09", "p09c", "p09l", "p09g", secs=800),
  bounds="p09: three symbolic UUIDs (any aliasing and order, so numerically adjacent ids are included), three (thorough: five) edge shapes with "
         "prefix types and an empty type, both directions, optional type filter, symbolic 32-bit limit, six sources; p09c: three (thorough: four) "
         "chained traversals and their counts",
  outside="more edges; longer chains")
P("P10", both("p10") + odd("p10"), both("p10", secs=800) + odd("p10", secs=800),
  bounds="two symbolic vertices, three edges, with / without an indexed property of equal / different value; filters by presence and value with both "
         "polarities over eleven sources (three of them empty), with and without inclusion at every level; counts, property reads, traversals of the same",
  outside="larger inputs; deeper nesting")
P("P11", both("p11") + odd("p11"), both("p11", secs=1400) + odd("p11", secs=1400),
  bounds="a populated database; every query kind over a non-indexed name and every unsuitable pipe / filter / count / delete / set, at top level, "
         "under include and count, also where the source has no elements; UUIDs symbolic with aliasing (quick: a<=b); full observation before and after a further write",
  outside="unsuitable queries nested deeper than three levels")
P("P12", [E("p12_both", secs=250), E("p12l_both", secs=250), E("p12q_both", secs=200)],
  [E("p12_both", secs=2400), E("p12l_both", secs=2400), E("p12q_both", secs=2400)],
  bounds="histories of three (thorough: four) operations out of create vertex/edge, set, delete by id / range / property query, index, rejected "
         "delete, bulk insert, from an empty or populated database, two symbolic UUIDs (quick: a<b); each result compared with the other datastore "
         "and with the model; full observation; p12q: query programs of a source out of eight, three (thorough: four) steps out of traversals, filters and inclusion, "
         "and an end (as it is, counted, properties, counted properties), over a graph with parallel edges and a self-loop, results as multisets",
  outside="longer histories; bulk inserts outside P13's precondition")
P("P13", both("p13") + odd("p13") + big("p13"), both("p13", secs=1400) + odd("p13", secs=1400) + big("p13", secs=900),
  bounds="bulk inserts of three free items (two where the UUIDs are equal or in reverse order; thorough: four) out of vertex / edge / vertex "
         "property / edge property with overwrites and duplicates, into an empty or populated database, indexed and non-indexed names",
  outside="larger batches; vertex items repeating a UUID with another type, and owners that do not exist (documented as unverified)")
P("P18", [E("p18_all"), E("p18e_rdb"), E("p18l_all"), E("p18el_rdb")],
  bounds="p18: pairs of keys of every column-family layout with symbolic 128-bit UUIDs and symbolic identifier / name texts of 0-2 (thorough 0-4) bytes; "
         "p18e: symbolic types / names in the RocksDB datastore with full observation; p18l: decoding at every length 0-255, pairs of ten lengths around 0, 64, 128, "
         "192 and 255, first or last character symbolic; p18el: the same lengths in the datastore",
  outside="longer texts with several symbolic characters; non-ASCII text")
P("P19", [E("p19_all", reach=("ok", "err"))], bounds="every 128-bit UUID (symbolic); no bound", outside="nothing within next_uuid")
P("P20", [E("p20_all", reach=("valid", "invalid")), E("p20o_all")],
  bounds="p20: every ASCII text of up to 3 (thorough 4) bytes; texts of 253-257 bytes with one symbolic ASCII byte at five places; "
         "representative non-ASCII letters, digits and others; six ways in; p20o: pairs of symbolic texts of up to 2 (3) bytes",
  outside="other lengths; every non-ASCII character (std's tables)")
P("P21", [E("p21_all"), E("p21n_all"), E("p21t_all"), E("p21m_all")],
  [E("p21_all", secs=300), E("p21n_all", secs=300), E("p21t_all", secs=600, qms=120000), E("p21m_all", secs=300)],
  bounds="p21: pairs of values of every kind (leaves with every 64-bit integer / finite double / ASCII text of up to 1 byte; arrays of up to 2, objects of up to 1 entry); "
         "p21n: pairs of all numbers; p21t: triples of integers and doubles (quick: five exponents, all mantissas; thorough: all finite doubles); "
         "p21m: triples of mixed small values. Hash equality is decided on the byte stream fed to the hasher, so for every hasher",
  outside="deeper nesting, longer strings")
P("P27", both("p27"), both("p27", secs=1200),
  bounds="one vertex with nil / max / symbolic UUID, one with the maximum; types and names of 0 and 255 bytes; sources of every kind, five "
         "wrappers, limits 0 and 2^32-1, five operations; the database is used again afterwards",
  outside="concurrent use; deeper query nesting")

DUR = ("up to three vertices with symbolic UUIDs (quick: the third differs from the others; aliasing of the first two free), three edges, indexed and "
       "other properties; one of 15 operations (every mutating Database method, by id / all / property / bulk / index / sync)")
P("P14", [E("p14_rdb"), E("p14l_rdb"), E("p14c_rdb", reach=("died", "done")), E("p14co_rdb", reach=("died", "done")), E("p14g_rdb", reach=("died", "done"), steps=8_000_000_000)],
  [E("p14_rdb", secs=1400), E("p14l_rdb", secs=1400), E("p14c_rdb", reach=("died", "done")), E("p14co_rdb", reach=("died", "done")), E("p14g_rdb", reach=("died", "done"), secs=900, steps=8_000_000_000)],
  bounds=DUR + "; the process dies before the first to fourth storage write of it, or after it; full observation and two further operations "
         "after reopening. p14c, p14co: death at any of the first ten steps of database creation, with and without explicit options",
  outside="torn writes inside the storage engine (its contract: a batch is atomic); power loss")
P("P15", [E("p15_rdb"), E("p15l_rdb"), E("p15o_rdb"), E("p15v_rdb"), E("p15i_rdb"), E("p15g_rdb", steps=8_000_000_000)], [E("p15_rdb", secs=1400), E("p15l_rdb", secs=1400), E("p15o_rdb", secs=1400), E("p15v_rdb"), E("p15i_rdb"), E("p15g_rdb", steps=8_000_000_000, secs=900)],
  bounds=DUR + " on a populated or small database, then sync and / or reopening, then a further operation (quick: four kinds), then reopening again; p15o: opened "
  "with explicit options; p15v, p15i: large values and many indexed names (as p07v, p07i)",
  outside="longer histories; real compaction (its contract: no observable effect)")
P("P30", [E("p30_rdb", reach=("failed", "end")), E("p30l_rdb", reach=("failed", "end")), E("p30r_rdb"), E("p30g_rdb", steps=8_000_000_000, reach=("failed", "end"))], [E("p30_rdb", reach=("failed", "end"), secs=300), E("p30l_rdb", reach=("failed", "end"), secs=300), E("p30r_rdb", secs=1400), E("p30g_rdb", steps=8_000_000_000, reach=("failed", "end"), secs=900)],
  bounds=DUR + "; the first or second (thorough: fourth) write or flush in it fails; observation, reopening, repetition, a second operation",
  outside="failures of the real engine that lose data it acknowledged")
P("P31", [E("p31_rdb", reach=("query", "op"))], [E("p31_rdb", reach=("query", "op"), secs=600)],
  bounds="16 query kinds with and without count, and the 15 operations, on two or three vertices and three edges; any of the first 8 (thorough: 24) "
         "reads fails", outside="more than one failing read; larger graphs")

FSENV = ("the file functions of the C library are replaced by the model in harness-fs/src/vfs.rs (files in memory, atomic rename, short writes, errors, "
         "process death); std, tempfile and rmp-serde run on top of it as they are")
P("P16", [E("p16_mem"), E("p16l_mem"), E("p16k_mem"), E("p16v_mem"), E("p16i_mem"), E("p16g_mem", steps=8_000_000_000)], [E("p16_mem", secs=700), E("p16l_mem", secs=700), E("p16k_mem"), E("p16v_mem"), E("p16i_mem"), E("p16g_mem", steps=8_000_000_000, secs=900)], set="fs",
  bounds="an empty or populated database (three symbolic UUIDs, three edges, indexed and other properties) plus one (thorough: two) further operations "
         "out of 9 (12), then sync and reload; full observation; a further operation on the reloaded database, sync and reload again; "
         "p16k: 14 JSON representatives of every kind, indexed or not; p16v, p16i: large values and many indexed names (as p07v, p07i)",
  outside="longer histories; other JSON values", assume=[FSENV])
P("P17", [E("p17_mem", reach=("failed", "died", "end"))], [E("p17_mem", reach=("failed", "died", "end"), secs=700)], set="fs",
  bounds="no or a small previous image; a new state that is equal, larger, or larger than any buffer; at any of the first 10 (thorough: 20) file-system calls of "
         "the sync: EIO, ENOSPC, a short write followed by ENOSPC, EINTR, or process death; then reload and full observation, and a further sync",
  outside="power loss; several independent faults in one sync", assume=[FSENV])

WIREENV = ("client and server are joined in-process by shims/tonic, a copy of tonic 0.12.3 whose only change is that Channel::connect may be given a "
           "service instead of an HTTP/2 connection; encoding, decoding, routing, handlers, streams and worker threads are the real ones; worker "
           "threads run until they block (one schedule)")
P("P22", [E("p22_all"), E("p22o_all"), E("p22b_all", secs=120)], [E("p22_all", secs=900), E("p22o_all", secs=300), E("p22b_all", secs=900)], set="wire",
  bounds="every query variant nested up to two (thorough: three) wrappers deep, every query result, bulk item, request; up to two elements per list; "
         "symbolic 128-bit UUIDs, 32-bit limits, 64-bit counts, flags, identifier characters; all identifiers of length 0, 1 or 255; 4 (thorough: 14) JSON representatives; with and "
         "without the protobuf bytes in between",
  outside="longer lists, deeper nesting; numbers in JSON text (P29)")
P("P23", [E("p23_all"), E("p23o_all"), E("p23t_all")], [E("p23_all", secs=900), E("p23o_all", secs=300), E("p23t_all", secs=300)], set="wire",
  bounds="one damaged place (missing required field, UUID of 0/1/15/17/32 symbolic bytes, identifier with a symbolic forbidden character or too long, "
         "broken JSON, no variant, unknown direction) anywhere in a query nested up to two (three) deep, a result, a bulk item or a request; arbitrary "
         "short byte strings as messages",
  outside="several damaged places; other lengths; JSON texts outside the list")
P("P28", [E("p28_mem"), E("p28_rdb"), E("p28v_mem"), E("p28i_mem"), E("p28f_rdb", reach=("failed",)), E("p28w_mem"), E("p28w_rdb"), E("p28g_mem", steps=8_000_000_000), E("p28g_rdb", steps=8_000_000_000)],
  [E("p28_mem", secs=600), E("p28_rdb", secs=600), E("p28v_mem"), E("p28i_mem", secs=300), E("p28f_rdb", secs=300, reach=("failed",)), E("p28w_mem"), E("p28w_rdb"), E("p28g_mem", steps=8_000_000_000, secs=300), E("p28g_rdb", steps=8_000_000_000, secs=300)], set="wire",
  bounds="one (thorough: two) request of every kind through the library client on a populated server, compared with the same local operation on "
         "a twin (result and full observation); queries of 12 kinds, bare or with one of 10 layers and inclusions around; UUIDs symbolic; p28w: seven large values (as p06v); one malformed message of every kind through the generated client; any of the first two "
         "writes or six reads failing during a request",
  outside="the HTTP/2 connection; concurrent requests; other schedules of the worker threads", assume=[WIREENV])

_T29 = [E("p29%s_rdb" % c, secs=150, set="core") for c in "abcde"] + [E("p29w%s_all" % c, secs=150, set="wire") for c in "abce"]
P("P29", [E("p29_mem", set="core"), E("p29f_mem", set="fs")] + _T29 + [E("p29s_mem", set="wire")],
  [E("p29_mem", set="core"), E("p29f_mem", set="fs")] + [dict(x, secs=500, qms=200_000) for x in _T29] +
  [E("p29wd_all", secs=500, qms=200_000, set="wire"), E("p29s_mem", set="wire")], set="core",
  bounds="in memory and through an image (sync, reload): every 64-bit integer, signed and unsigned, and every finite double (symbolic bits), alone and "
         "inside an array or object, as vertex and edge property, single and bulk, indexed or not. Through JSON text (RocksDB with reopening; wire "
         "messages in their bytes): every integer of up to 16 (thorough: 24) bits, every integer within 8 bits of 2^31, 2^32, 2^53, 2^63, 2^64, 10^16, "
         "-2^31, -2^53, -2^63 and 0 (below), doubles with one (thorough: six) exponents and three (four) mantissa bits (symbolic), 30 chosen doubles "
         "incl. both zeros, subnormal, greatest, least; the last also from client to server and back",
  outside="other integers and doubles in their JSON text (the decimal conversions of itoa, ryu and serde_json need multiplications and divisions by "
          "constants and floating-point division of unbounded operands, which the solver does not decide)", assume=[FSENV, WIREENV])

MTENV = ("threads interleave at every acquisition of a lock, atomic store and storage-engine operation (safe Rust shares memory in no other way); "
         "sequentially consistent memory; violations and sample schedules are replayed on machine code compiled from the same IR under "
         "the schedule of the trace (rt/rt.c)")
P("P24", both("p24", preempt=2, secs=150) + both("p24s", preempt=1, secs=100),
  both("p24", preempt=3, secs=800) + both("p24s", preempt=2, secs=700), set="mt",
  bounds="two threads with one operation each, out of 10 writing and 16 operations (create / delete vertex, edge; set / delete property; index; bulk "
         "insert; six reads), up to two (thorough: three) preemptions; two operations against one, out of five (ten), one (two) preemptions; "
         "start states empty / populated, indexed / not; symbolic UUIDs (quick: in order)",
  outside="more threads or operations; more preemptions; RocksDB reads of several items", assume=[MTENV])
P("P25", [E("p25_all"), E("p25w_all"), E("p25t_all", preempt=2)], [E("p25_all"), E("p25w_all"), E("p25t_all", preempt=6, secs=300)], set="mt",
  bounds="four (thorough: five) consecutive generations with any non-decreasing clock readings (symbolic seconds and nanoseconds, 1970-2100), both ways "
         "to generate; up to 16384 generations within one clock tick at several counter positions incl. its wrap-around; two threads with two each",
  outside="more than 16384 generations within one tick of 100 ns (the version-1 clock sequence has 14 bits)", assume=[MTENV])
P("P26", [E("p26_mem", preempt=2), E("p26_rdb", preempt=2), E("p26f_rdb", preempt=1, delays=1, reach=("failed", "counted")), E("p26k_mem")],
  [E("p26_mem", preempt=2, secs=800), E("p26_rdb", preempt=2, secs=600), E("p26f_rdb", preempt=1, delays=2, secs=600, reach=("failed", "counted")), E("p26k_mem")],
  set="mt",
  bounds="0-2 (thorough: 0-3) vertices with symbolic UUIDs, 0-2 (0-3) requested threads, every subset of failing calls, two preemptions; any of the first "
         "four reads of the vertices fails; the counting plugin with its eight threads (one (two) out-of-order wake-ups); 999-1001 (2001) vertices "
         "with one thread",
  outside="more vertices with several threads; a mapper that panics", assume=[MTENV])

for _i, _p in PLAN.items():
    if _i in BIG:
        _p["bounds"] += ("; large: " if _i in ("P06", "P28", "P08", "P09") else GBIG) + BIG[_i]
    if any("l_" in x["entry"] for x in _p["quick"]):
        _p["bounds"] += ODD

P("P32", [E("p32_all", reach=("built", "rejected"), secs=200), E("p32x_all", reach=("given", "end")), E("p32d_all", reach=("known", "unknown"))],
  bounds="p32: nine base queries, up to three setters in any order (repeats included), then up to two (thorough: three) of pipes, filters, include, property and count "
         "in any order, through the methods and the constructors; symbolic limits and UUIDs; p32x: every extractor on lists of up to two outputs of every kind; "
         "p32d: every ASCII text of up to nine bytes as an edge direction, both reversals",
  outside="longer chains of builder calls")

P("P33", both("p33", reach=("end", "refused")) + [E("p33h_mem")], both("p33", reach=("end", "refused"), secs=600) + [E("p33h_mem")], set="wire",
  bounds="one or two libraries in both orders; the second fits, has a symbolic interface version, another compiler version (one character more or less), no or another "
         "register function, or does not exist; a call by four names of a plugin that returns its argument, fails in three ways, or writes; arguments of every kind, "
         "missing or broken; UUIDs symbolic; the observation afterwards against the model; the greeting plugin with texts of up to two symbolic characters",
  outside="the dynamic loader and the search for files by a glob pattern; unwinding out of a plugin; several plugins of the same name (documented nowhere)",
  assume=[WIREENV, "shims/libloading stands in for the dynamic loader: it knows the libraries a harness provides, and whether each is still open"])
P("P34", both("p34") + odd("p34") + both("p34w"), both("p34", secs=300) + odd("p34", secs=300) + both("p34w", secs=900),
  bounds="two or three vertices with symbolic UUIDs (quick: a<b; the third id is free), four edges incl. a self-loop and parallel ones, indexed and other properties; "
         "every reading method with symbolic starts, unknown and repeated items; one or two (thorough: two) writes out of 11 in one transaction, with repeated and "
         "unknown items; full observation afterwards",
  outside="writes that the documentation leaves to the caller to validate; larger graphs")
P("P35", both("p35") + [E("p35i_mem")], both("p35", secs=800) + [E("p35i_mem")], set="wire",
  bounds="one of all 15 commands of the client on a populated database, UUIDs in both notations with two symbolic bytes (thorough: all symbolic), existing and missing "
         "elements, names and types, 12 kinds of JSON values; the text it prints, its success, and the whole database afterwards against a twin on which the operation was "
         "called directly; p35i: malformed UUIDs, identifiers and JSON in every argument position of every command",
  outside="arguments that clap itself refuses (clap ends the process with a usage text), colours and suggestions in such texts (built without these features)",
  assume=[WIREENV, "shims/clap (clap 2.34.0 whose arguments come from the harness instead of the process) and shims/faketokio (the client's main is called on an existing runtime)"])
P("P36", [E("p36_none"), E("p36_image"), E("p36_bad"), E("p36_rdb", secs=120)], [E("p36_none"), E("p36_image", secs=300), E("p36_bad"), E("p36_rdb", secs=900)], set="srv",
  bounds="every combination of subcommand, four addresses (none, IPv4, IPv6, three notations), with and without plugins, path notations and RocksDB options; image "
         "or database missing or present (symbolic UUIDs, all kinds of data), one further operation, a second start, for RocksDB also after a repair; full observation "
         "of the served database after each start; files there are; three kinds of damaged images",
  outside="arguments that clap refuses (it ends the process with a usage text); host names (need a resolver); binding the socket; serving itself (see P28, P33)",
  assume=[FSENV, "shims/clap (clap 2.34.0 whose arguments come from the harness), shims/faketokio (a listener that only has an address; main as a plain async function) and "
          "shims/fakeproto (records what the gRPC service is started with, instead of indradb-proto, whose service P28 and P33 are about)"])

# properties without a check, and why
NOT_APPLICABLE = {}

HOW = {
 "P01": "history of creations and deletions run on datastore and reference model; every result and a full observation (all queries of the model's domain) compared",
 "P02": "edge creations run on datastore and model; results and full observation compared",
 "P03": "furnished graph, symbolic vertex delete, full observation against the model, re-creation (reveals left-overs), full observation",
 "P04": "furnished graph, symbolic edge or property delete, repeated, full observation, re-creation, full observation",
 "P05": "symbolic history; outbound and inbound views of every id compared with each other and with the model",
 "P06": "symbolic history of writes; every owner and name read back in all ways and compared with the last write",
 "P07": "symbolic history around an index; presence and value queries compared with a scan of the model",
 "P08": "range and id queries with symbolic start, limit and filter against sorting and filtering the model",
 "P09": "traversal with symbolic direction, filter and limit against a set comprehension (with limit: its first elements in source order)",
 "P10": "filters against partitioning the unfiltered result; include and count against the parts",
 "P11": "every unsuitable query, its documented error kind, and a full observation before and after",
 "P12": "one symbolic history on both datastores and the model, results and observations compared pairwise",
 "P13": "the same items as one batch and as single operations on two databases, full observations compared",
 "P14": "death before the nth storage write; after reopening the observation must equal that of a twin with or without the operation, and both must go on alike",
 "P15": "observation before closing equals that after reopening; further operations act as on a twin that was never closed",
 "P16": "observation and behaviour after sync and reload against the model",
 "P17": "symbolic fault at any file-system call; the reloaded image must be the old or the new one (the new one if sync reported success)",
 "P18": "pairs of symbolic keys: equal bytes only for equal keys, order, prefix separation, decode of encode; and an end-to-end run over symbolic types",
 "P19": "successor of a symbolic UUID compared with 128-bit addition",
 "P20": "every way to make an identifier, against an independent definition of validity",
 "P21": "laws of equality, order and hash on symbolic values; hash equality on the byte stream fed to the hasher",
 "P22": "model value to wire message (and its bytes) and back, compared by hand-written structural equality",
 "P23": "a message with one symbolic damage must be rejected with an error, never converted",
 "P24": "two threads under every schedule with bounded preemptions; results and final observation must equal those of one of the sequential orders, run on a second database",
 "P25": "UUIDs generated under symbolic clock readings and schedules must differ pairwise",
 "P26": "the mapper records the vertices it was given; must be each once; failing calls and reads must give an error",
 "P27": "extreme operands in every operation; any panic, overflow or memory error on any path is a violation; the database must answer afterwards",
 "P28": "every request through the client and the in-process server, compared with the local call on a twin; malformed and failing requests must give the right status",
 "P29": "symbolic numbers through each way of storing and sending, compared bit for bit",
 "P30": "the nth write fails: the operation must report it, and the observation must equal that of a twin without the operation, also after reopening and repeating",
 "P32": "builder calls in a symbolic order, the resulting query compared field by field with an independent description; extractors and directions against theirs",
 "P33": "libraries and a call chosen symbolically; what the plugin and the caller see against the request; a full observation against the model",
 "P36": "the server's main is run on modelled files and storage; the database it serves is observed against the model",
 "P35": "what the client's main prints, its result and the database afterwards against the operation called on a twin",
 "P34": "every method of the transaction trait against the model",
 "P31": "the nth read fails: the query or operation must report an error or give the right answer",
}
