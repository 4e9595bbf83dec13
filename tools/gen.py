#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, na=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe or [], state=state or [], na=na, note=note))

GM="src/graph_impl/graph_map/graph.rs"; GN="src/graph_impl/graph_map/node.rs"; GE="src/graph_impl/graph_map/edge.rs"
SG="src/graph_impl/static_graph/graph.rs"; EV="src/graph_impl/static_graph/edge_vec.rs"
MM="src/graph_impl/static_graph/mmap/graph_mmap.rs"; EM="src/graph_impl/static_graph/mmap/edge_vec_mmap.rs"; IM="src/io/mmap.rs"
CW="src/io/csv/writer.rs"; CR="src/io/csv/reader.rs"; RC="src/io/csv/record.rs"; SE="src/io/serde.rs"
LS="src/io/ldbc/scheme.rs"; LN="src/io/ldbc/node.rs"; LR="src/io/ldbc/relation.rs"; GT="src/generic/graph.rs"

prop("D01","CSV export that reports success is complete",
 "When exporting a graph to CSV returns success, the node file holds exactly one row per node and the edge file exactly one row per edge of the graph (each undirected edge once), with every label intact whatever characters it contains, and importing the files gives an equal graph; this holds whichever storage calls failed, were interrupted or were short on the way, and for a process killed right after the export returned. An export that could not write everything returns an error, an export with nothing failing below it succeeds, and the exported graph is unchanged.",
 ["inputs","fault_sequences","crash_points"],
 "for every mutable or static graph, separator, label text and id/label type, and every sequence of storage failures and process kills",
 "io.rs exports small graphs to a healthy temp dir; nothing fails, nothing is cut short, and a missing final flush or swallowed error is invisible there",
 [CW,RC,"src/io/csv/mod.rs"],[{"name":"CSVWriter::write","where":CW},{"name":"NodeRecord/EdgeRecord serialization","where":RC}],
 ["CSVWriter::write","write_to_csv","the files on disk"])
prop("D02","Binary export that reports success is complete",
 "When saving a graph, an edge vector or a label map in binary form returns success, loading that file afterwards (in the same or in a new process) gives an object equal to the one saved, whichever storage calls failed, were interrupted or were short during the save and whatever the file held before; a load that itself meets failures, interruptions or short reads gives that object or an error. A save that could not write everything returns an error, and a save with nothing failing below it succeeds.",
 ["inputs","fault_sequences","crash_points"],
 "for every graph map, static graph, edge vector, set map and vec map, every previous content of the file and every sequence of storage failures and process kills",
 "the tests save and load a few small objects without any failure",
 [SE,GM,SG,EV,"src/map/set_map.rs","src/map/vec_map.rs"],[{"name":"Serializer::export","where":SE},{"name":"Serialize impls","where":GM}],
 ["Serializer::export","Deserializer::import"])
prop("D03","A memory-mapped dump opens as the graph that was dumped",
 "When dumping a static graph for memory mapping returns success, opening the dump gives the same answer as the original graph to every graph query (nodes, edges, labels, neighbours in both directions, counts, membership of unknown ids, label maps, directedness, edge-less and label-less graphs included), even when an older dump with other parts existed under the same prefix, whatever storage failures occurred before or during the dump. A dump that could not write everything returns an error, and opening a complete dump either fails loudly because of a failure below it or gives the whole graph. A graph that is open goes on answering as before when its prefix is dumped to again.",
 ["inputs","histories","fault_sequences","crash_points"],
 "for every static graph, every sequence of dumps to one prefix and every sequence of storage and mapping failures",
 "static_graph.rs maps a handful of non-empty graphs into a fresh directory with no failures and no older dump",
 [MM,EM,IM,EV,SG],[{"name":"StaticGraph::dump_mmap","where":SG},{"name":"EdgeVec::dump_mmap","where":EV},{"name":"StaticGraphMmap::new","where":MM},{"name":"TypedMemoryMap","where":IM}],
 ["dump_mmap","StaticGraphMmap"])
prop("D04","CSV import never reports a failed read as success",
 "When importing a graph from CSV returns success, the graph contains exactly what the files contain: no row that is in a file is missing because opening or reading it failed, was interrupted or was short. With nothing failing below it, an import of well-formed files succeeds; the row iterators give every row in file order.",
 ["inputs","fault_sequences"],
 "for every well-formed node and edge file (separator, header or not, column order, quoting, line ending) and every sequence of open and read failures",
 "tests read small files on a healthy disk, so no read ever fails in the middle",
 [CR,"src/io/csv/mod.rs",RC],[{"name":"CSVReader::read","where":CR},{"name":"read_from_csv","where":"src/io/csv/mod.rs"}],
 ["CSVReader::read","read_from_csv","node_iter","edge_iter"])
prop("D05","CSV import skips bad rows and nothing else",
 "Importing CSV takes every row whose ids can be read and skips exactly the others (unreadable or out-of-range ids, invalid text, wrong number of fields when not flexible); a row whose label cannot be read or is empty is taken without label. A later row for the same node or edge replaces its label, and so does a row for one the graph held before, endpoints not listed become unlabelled nodes, and the row iterators give exactly the same rows in file order.",
 ["inputs","fault_sequences"],
 "for every mixture of good and bad rows, label and id type, reader setting and header order, under any splitting of the reads",
 "tests use clean files plus at most one bad row",
 [CR,RC],[{"name":"NodeRecord::deserialize / EdgeRecord::deserialize","where":RC},{"name":"CSVReader::read","where":CR}],
 ["CSVReader::read","node_iter","edge_iter"])
prop("D06","A binary import gives a saved object or an error",
 "Loading a file that was being saved in binary form when the process was killed, the disk filled up or a write failed, or that was cut short afterwards, returns an error: never a panic and never an object that was not completely saved to that file. When no load-time failure occurs and the last save was complete, the load succeeds with exactly the last saved object.",
 ["inputs","histories","fault_sequences","crash_points"],
 "for every sequence of saves over one file, every crash point and every prefix left behind, and every read failure during the load",
 "no test loads a truncated file or fails a read",
 [SE],[{"name":"Deserializer::import","where":SE},{"name":"Serializer::export","where":SE}],["Deserializer::import"])
prop("D07","An interrupted memory-mapped dump never yields invented content",
 "After a dump for memory mapping was killed or failed part-way, opening what is on disk either fails or gives a graph in which every node, edge, neighbour and label belongs to one graph that was dumped under that prefix; parts of different dumps are never mixed into edges or labels that none of them had. Repeating the dump afterwards, without failures, gives the complete new graph.",
 ["histories","crash_points","fault_sequences"],
 "for every sequence of dumps under one prefix and every point at which one of them is interrupted",
 "no test interrupts a dump or dumps twice to one prefix",
 [SG,EV,MM,IM],[{"name":"StaticGraph::dump_mmap","where":SG},{"name":"EdgeVec::dump_mmap","where":EV},{"name":"dump","where":IM}],
 ["dump_mmap","StaticGraphMmap::new"])
prop("D08","Storage failures are survivable: retry works, memory is unharmed",
 "A save that fails (CSV, binary or memory-mapped) leaves the in-memory graph exactly as it was, and a failed CSV import leaves the target graph with everything it already held plus only nodes, edges and labels from the files, all queries and counts staying mutually consistent. Once failures stop, repeating the operation, in the same or a restarted process, succeeds with the result it would have had without them, after no more storage operations than an undisturbed run plus a constant, and no files stay open.",
 ["histories","fault_sequences","crash_points"],
 "for every operation, every sequence of failed attempts and restarts before the failures stop",
 "no test injects a failure, so none sees what is left behind after one",
 [CW,CR,SE,SG,EV,IM],[{"name":"CSVWriter::write","where":CW},{"name":"CSVReader::read","where":CR},{"name":"Serializer::export","where":SE},{"name":"dump_mmap","where":SG}],
 ["results of the retried operation","number of storage operations","open files"])
prop("D09","Concurrent saves and loads do not disturb one another",
 "Threads that save and load graphs at the same time under different file names, several of them saving one shared graph or loading the same files, each get the result they would get running alone, under every interleaving of their storage operations and memory accesses and whichever of the operations fail. A failure injected into one thread's storage is reported to that thread only.",
 ["schedules","fault_sequences"],
 "for every interleaving of the storage operations and memory accesses of up to four threads and every fault sequence",
 "every test is single-threaded as far as storage is concerned and uses a healthy disk",
 [CW,CR,SE,SG,EV,IM,MM],[{"name":"no shared state between operations","where":"src/io"}],
 ["results of every thread","files on disk"])
prop("D10","LDBC import gives the whole graph or fails",
 "Importing an LDBC directory gives the same graph, up to the numbering of nodes, whatever order the directory is listed in and however the reads are split: every node row becomes a node with its own label and every relation row an edge of the relation's label between the right nodes, with no node shared between different entities (ids numeric, as in LDBC). If listing, opening or reading any file of the directory fails, or a row is malformed, the import fails loudly instead of returning a partial graph.",
 ["inputs","schedules","fault_sequences"],
 "for every set of LDBC files, directory order, split of the reads and storage failure",
 "no test runs the LDBC import",
 [LS,LN,LR],[{"name":"Scheme::from_path","where":LS},{"name":"Node::add_node","where":LN},{"name":"Relation::add_edge","where":LR}],
 ["read_ldbc_from_path"])
prop("H01","A mutable graph always answers according to its mutation history",
 "After any sequence of adding, removing and updating nodes, edges and labels (also through node and edge handles, bulk constructors, shared label maps and clones), every query - membership, neighbours in both directions, labels, iterators - answers as the mathematical graph defined by that history, and each mutation returns what its documentation says. A mutation interrupted by a panic in the caller's label code leaves everything else untouched and takes effect either not at all, entirely, or only by having created unlabelled endpoints; the graph stays consistent and usable.",
 ["histories","inputs","fault_sequences"],
 "for every mutation history over directed and undirected graphs of every id and label type, every hash seed, and every call of user label code that panics",
 "graph_map.rs exercises about ten fixed short histories and no panics",
 [GM,GN,GE,GT,"src/generic/node.rs","src/generic/edge.rs"],[{"name":"TypedGraphMap MutGraphTrait impl","where":GM},{"name":"NodeMap","where":GN}],
 ["GraphTrait, DiGraphTrait, GraphLabelTrait, MutGraphTrait"])
prop("H02","Counts and degrees always agree with the content",
 "After any mutation history, including self loops, repeated insertions, removal of absent or loop-carrying nodes and interrupted operations, node_count, edge_count, degree, in_degree, label counters and label statistics equal what the node and edge iterators yield, and the maximum seen id is never below an existing id and never forgets a larger id that was added.",
 ["histories","fault_sequences"],
 "for every mutation history over every graph type, and every panic in user label code",
 "tests assert counts after a few fixed histories",
 [GM,GN,GT],[{"name":"num_of_edges maintenance","where":GM},{"name":"label counters","where":GT}],["node_count","edge_count","degree","in_degree","label counters","max_seen_id"])
prop("H03","Label maps give dense, stable, consistent ids",
 "A label map gives each distinct item one id, ids are 0..n-1 in order of first insertion, adding an existing item returns its old id, looking an item up by id or by value is always mutually consistent, and popping removes exactly the last id; this holds for both map kinds, through every conversion, clone, constructor and save/load, and when an insertion is interrupted by a panic in the item's code or its save or load by a storage failure. Maps that assign the same ids to the same items are equal and have equal hashes, other maps are unequal.",
 ["histories","inputs","fault_sequences"],
 "for every history of insertions, pops, conversions and saves over both map kinds, every hash seed, panic and storage failure",
 "map.rs checks fixed sequences of three items",
 ["src/map/set_map.rs","src/map/vec_map.rs","src/generic/map.rs"],[{"name":"SetMap","where":"src/map/set_map.rs"},{"name":"VecMap","where":"src/map/vec_map.rs"}],["MapTrait","MutMapTrait"])
prop("H04","Graph equality and hash depend only on content",
 "Two graphs compare equal exactly when they have the same directedness, nodes, edges and labels, and equal graphs have equal hashes, whatever histories, insertion orders, label numbering, capacities, representations (mutable, static, boxed, cloned, saved and loaded) and hash seeds produced them.",
 ["histories","inputs","configurations"],
 "for every pair of histories and every hash seed",
 "tests compare a few graphs built in one order in one process",
 [GM,SG,GT],[{"name":"PartialEq/Hash for TypedGraphMap","where":GM},{"name":"PartialEq/Hash for TypedStaticGraph","where":SG},{"name":"equal, boxed graphs","where":GT}],["==","Hash","equal"])
prop("H05","Conversion to a static graph preserves the graph",
 "Converting a mutable graph with ids 0..n-1 into a static graph, after any mutation history, gives a static graph with the same directedness, nodes, edges, labels, neighbours in both directions, counts, degrees and label numbering, for every query of the graph interface; with gaps between the ids the edges, their directions and labels, the edge count and the neighbours of every id are kept; every static graph so obtained survives being cloned, saved, loaded, dumped and mapped.",
 ["histories","inputs"],
 "for every mutation history ending in dense ids, every graph, id and label type",
 "converter.rs converts two fixed graphs",
 [GM,SG,EV,"src/graph_impl/static_graph/node.rs","src/graph_impl/static_graph/static_edge_iter.rs"],[{"name":"TypedGraphMap::into_static","where":GM},{"name":"TypedStaticGraph queries","where":SG},{"name":"EdgeVec","where":EV}],["into_static","GraphTrait on static graphs"])
prop("H06","A static graph answers like the edge vectors it is made of",
 "A static graph made from edge vectors - by any constructor, labels and counts given or left out, node-less or edge-less, with self loops, up to all ids of the id type - answers every query like the graph those vectors describe, and looking up the position of an edge finds it exactly when the edge is there. Removing node or edge labels removes exactly these, changes through the mutable accessors show in every query, and clones, saved and loaded or dumped and mapped copies equal the graph, also after storage failures and kills. An empty, default or cleared edge vector has no nodes and no edges.",
 ["inputs","histories","fault_sequences","crash_points"],
 "for every graph given as edge vectors, every constructor, every sequence of label removals, accessor changes, saves and dumps, and every storage failure on the way",
 "static_graph.rs builds a few labelled graphs with two to five nodes and never an empty one, a loop-carrying one or one that uses the largest id",
 [SG,EV,"src/graph_impl/static_graph/node.rs","src/graph_impl/static_graph/static_edge_iter.rs",MM,EM],[{"name":"TypedStaticGraph constructors and accessors","where":SG},{"name":"EdgeVec, find_edge_index","where":EV},{"name":"StaticEdgeIndexIter","where":"src/graph_impl/static_graph/static_edge_iter.rs"}],["TypedStaticGraph","EdgeVecTrait","GraphTrait on static graphs"])
prop("T01","Breadth-first traversal is exact and resumable",
 "A breadth-first traversal visits every node of the graph exactly once: first all nodes reachable from its start, in non-decreasing distance from it, then what is left, root by root, each time everything reachable from the new root in non-decreasing distance; without a start it does the same from a root of its own choice. The result does not depend on how its steps are interleaved with other traversals or clones of it, on the thread, or on the graph representation. Graphs too long and deep for recursion are walked all the same. A clone taken at any step continues exactly like the original, and a start that is not in the graph is refused or visits nothing.",
 ["schedules","inputs"],
 "for every graph, representation, start, and every schedule of stepping, cloning and interleaving traversals",
 "algorithm.rs walks one fixed graph to the end once",
 ["src/algorithm/bfs.rs"],[{"name":"Bfs::next","where":"src/algorithm/bfs.rs"}],["Bfs iterator"])
prop("T02","Depth-first traversal is exact and resumable",
 "A depth-first traversal visits every node of the graph exactly once, depth first: each node it yields is an unvisited neighbour of the deepest node of the current path that has one, or, when none has, a new root; all nodes reachable from its start come before the others. The result does not depend on how its steps are interleaved with other traversals or clones, on the thread, or on the graph representation. Graphs too deep for recursion are walked all the same. A clone continues like the original, a reset traversal visits all nodes anew, one rebuilt from a stack and the set of nodes left continues with the top of the stack and visits exactly what is left, and a start that is not in the graph is refused or visits nothing.",
 ["schedules","inputs","histories"],
 "for every graph, representation, start, and every schedule of stepping, cloning, checkpointing and resetting",
 "algorithm.rs walks one fixed graph to the end once",
 ["src/algorithm/dfs.rs"],[{"name":"Dfs::next","where":"src/algorithm/dfs.rs"},{"name":"Dfs::from_parts, reset","where":"src/algorithm/dfs.rs"}],["Dfs iterator"])
prop("T03","Connected components are exact at every step of a stream",
 "After any sequence of edges, in any order and with repetitions, has been processed, two nodes are reported connected exactly when the processed edges (ignoring direction) connect them, the component count is the exact number of components, every node known to the detector has one representative shared exactly by its component, and the members listed for a node are exactly its component; isolated nodes are components of their own, and chains of any length are no problem. Running the detection on a graph, resetting and streaming its edges give the same answers.",
 ["schedules","histories","inputs"],
 "for every graph, arrival order of edges and interleaving of edges with queries, resets and clones",
 "algorithm.rs checks one fixed graph once, after the end",
 ["src/algorithm/conn_comp.rs"],[{"name":"ConnComp::process_new_edge","where":"src/algorithm/conn_comp.rs"}],["is_connected","get_count","get_root","get_connected_nodes"])
prop("T04","Component subgraphs partition the graph",
 "Splitting a graph into connected subgraphs yields exactly one subgraph per connected component (ignoring edge direction, isolated nodes included); together the subgraphs contain every node and edge of the graph exactly once, with its direction and labels, and each subgraph is connected. The result does not depend on the representation, the hash seeds or the interleaving with other work.",
 ["inputs","schedules"],
 "for every graph, representation and hash seed",
 "the two existing tests compare one fixed graph and depend on the hash seed (they are not in the stable baseline)",
 ["src/algorithm/conn_subgraphs.rs","src/algorithm/conn_comp.rs"],[{"name":"ConnSubgraph::run_subgraph_enumeration","where":"src/algorithm/conn_subgraphs.rs"}],["ConnSubgraph::into_result","root_to_subgraph"])
prop("R01","Random graph generators produce the structure they promise",
 "Under any entropy the operating system supplies, and when its supply is interrupted or temporarily unavailable, the G(n,m) generator yields exactly n nodes and m distinct edges without self loops (or fails loudly when m is impossible), the G(n,p) generator yields n nodes and a loop-free edge set with no edge at p=0 and all at p=1, complete and empty graphs have all or no edges, every node and edge label comes from the given label set, and directedness is as requested. With working entropy, G(n,p) takes each pair with probability p, G(n,m) each pair equally often, and labels are spread evenly.",
 ["inputs","fault_sequences"],
 "for every size, probability, label set and directedness, every entropy stream and every entropy failure that is not permanent",
 "graph_gen.rs checks counts of one or two sizes with whatever entropy the machine has",
 ["src/graph_gen/random.rs","src/graph_gen/general.rs","src/graph_gen/helper.rs"],[{"name":"random_gnp_graph, random_gnm_graph","where":"src/graph_gen/random.rs"},{"name":"complete_edge_pairs, random labels","where":"src/graph_gen/helper.rs"}],["random_gnp_graph","random_gnm_graph","complete_graph","empty_graph"])
prop("R02","Reordering ids keeps the graph",
 "Reordering node ids, node label ids or edge label ids yields a graph that is the original renamed by the reported mapping: same edges, directions and labels, ids dense from 0; node ids ascend with degree, label ids ascend with frequency, and the mapping works in both directions. This holds after any mutation history and for every order in which ties and hash maps happen to be visited.",
 ["histories","inputs","schedules"],
 "for every mutation history, every combination of the three reorderings and every hash seed",
 "graph_map.rs reorders one fixed graph",
 [GM],[{"name":"reorder_id, reorder_id_with","where":GM},{"name":"ReorderResult","where":GM}],["reorder_id","get_original_node_id","find_new_node_id"])
prop("A01","Union and difference of graphs follow set algebra",
 "The union of two graphs of the same directedness contains exactly the nodes and edges of either, where both have one with the label the second gives it; their difference is the first graph without the nodes of the second and without all edges at them. This holds through every entry point (functions and operators, on references, boxes and values), for every representation of the operands, results of earlier operations included, label numbering and hash seed; the result is an ordinary graph, and the operands never change, not even when a panic in the caller's label code interrupts the operation.",
 ["inputs","histories","fault_sequences"],"for every pair of graphs in every representation, every hash seed and every call of user label code that panics",
 "algorithm.rs computes a union and a difference of one fixed pair of disjoint or contained graphs",
 ["src/algorithm/graph_union.rs","src/algorithm/graph_minus.rs"],[{"name":"graph_union, graph_minus","where":"src/algorithm"}],["graph_union","graph_minus","+","-"])
prop("C01","Graphs can be used by several threads at once",
 "Threads that share graphs (mutable ones nobody mutates, static and memory-mapped ones) and label maps by reference and query, iterate, traverse, hash, compare, clone, convert, reorder, split into components or combine them, or build, mutate and generate graphs of their own meanwhile, each get the answer they would get alone, under every interleaving of their memory accesses; the shared graphs stay as they were, and the graph types stay shareable between threads.",
 ["schedules","histories"],
 "for every interleaving of the loads and stores of up to four threads, every graph representation and every combination of operations",
 "the tests never share a graph between threads, and a race needs a preemption between two particular memory accesses",
 [GM,SG,EV,MM,"src/algorithm/dfs.rs","src/algorithm/bfs.rs","src/algorithm/conn_comp.rs","src/map/set_map.rs"],[{"name":"no process-wide state, no interior mutability in graphs","where":"src/graph_impl"}],
 ["every query","Dfs","Bfs","ConnComp","ConnSubgraph","Hash","Clone","into_static","reorder_id","graph_union","random_gnm_graph"])
prop("A02","Id types agree with plain arithmetic",
 "Converting between integers and id types never changes a value that fits, incrementing is plus one, and the maximum of a type is its largest value.",
 ["inputs"],"for every id type and value",
 "the tests use small ids only",
 ["src/generic/dtype.rs"],[{"name":"IdType","where":"src/generic/dtype.rs"}],["IdType"],
 na="pure functions of one integer, with no concurrency, time, I/O, history or failure for a simulator to decide; what users see of them (graphs that use all ids of a type) is covered by H05 and H06")

CLAIMED = open(os.path.join(V,"tools","claimed.txt")).read().split()
with open(os.path.join(V,"properties.jsonl"),"w") as f:
    for p in P:
        assert len(p["title"])<=80,(p["id"],len(p["title"]))
        f.write(json.dumps({"id":p["id"],"title":p["title"],"statement":p["statement"],
          "quantifier":{"over":p["over"],"text":p["text"]},"why_tests_cant":p["why"],
          "anchors":{"files":p["files"],"state":p["state"],"mechanism":p["mech"],"observe_at":p["observe"],"hook_needed":None}})+"\n")
NOTE = ("Seeded search: a clean run means no violation in the runs reported in the evidence, not absence. The real rust_graph, csv, bincode, "
        "serde, indexmap and std code runs; the kernel below libc is simulated (files survive a process kill as the page cache held them; "
        "power loss and close() errors are not modelled). Trusts the simulator and the reference model.")
NOTEH = ("Seeded search: a clean run means no violation in the runs reported in the evidence, not absence. The real library runs against a "
        "small reference model; hash seeds and entropy come from the simulated kernel, panics in user label code and storage failures from the fault plan. "
        "Trusts the simulator and the reference model.")
NOTEC = ("Seeded search: a clean run means no violation in the runs reported in the evidence, not absence. The real library runs, compiled with a callback at every load, "
        "store and branch, on real threads of which the simulator lets one run at a time. Sequentially consistent memory; no switch inside precompiled std code. Trusts the simulator and the reference model.")
checks=[]
for p in P:
    if p["id"] in CLAIMED:
        checks.append({"property":p["id"],"quick_cmd":"bin/check %s --tier quick"%p["id"],
          "thorough_cmd":"bin/check %s --tier thorough"%p["id"],
          "evidence_file":"evidence/%s.json"%p["id"],
          "technique":"deterministic simulation with fault injection (seeded schedules and fault sequences, reference-model oracle)",
          "level":"exploration","level_note":p["note"] or (NOTE if p["id"][0]=="D" else NOTEC if p["id"][0]=="C" else NOTEH)})
na=[{"property":p["id"],"reason":p["na"] or "check not finished yet"} for p in P if p["id"] not in CLAIMED]
json.dump({"version":1,"setup_cmd":"bin/build","checks":checks,"not_applicable":na,
  "notes":"bin/replay FILE re-executes a recorded violation; replays are written to replays/. No hooks in /repo: the simulator takes the place of libc's system-call wrappers."},
  open(os.path.join(V,"MANIFEST.json"),"w"),indent=1)
print(len(P),"properties",len(checks),"claimed")
