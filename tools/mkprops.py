import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,state=[dict(name=n,meaning=m,where=w) for n,m,w in state],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))
LOG=("log","the blocks of the hypercore; the last one holds the root of the current tree","src/blocks.rs")
p("P01","The store is a sorted map: get returns the latest value",
  "After any history of puts and deletes (compare-and-swap or not, of any keys and values, empty ones included), a get of a key returns exactly the value of the last put of that key and the sequence number of the block that put wrote, or nothing if the key was never put or deleted since. Every write changes the contents by exactly that one key. No get fails on a complete log.",
  ["histories","inputs"],"every finite history of writes from the empty store or from any valid tree, every key and value",
  "the tests check a few hundred sequential decimal keys in fixed orders; the transitions that matter (each rotation, merge and split at each position and level) depend on the shape of the tree, which the history determines",
  ["src/tree.rs","src/put.rs","src/del.rs","src/lib.rs","src/blocks.rs"],[("search","src/lib.rs nearest_node, get_index_of_key"),("insert/split","src/put.rs"),("remove/repair","src/del.rs")],[LOG],["Hyperbee::get","Hyperbee::put","Hyperbee::del"])
p("P02","put and del report what they did",
  "A put returns the sequence number of the block it wrote and that of the entry it replaced, if there was one. A del returns the sequence number of the entry it removed, or nothing (and changes nothing) if the key was not there.",
  ["histories","inputs"],"every history, every key",
  "tests look at a handful of return values",["src/put.rs","src/del.rs"],[("result of put","src/put.rs"),("result of del","src/del.rs")],[LOG],["Hyperbee::put","Hyperbee::del"])
p("P03","Compare-and-swap decides on the right data and is obeyed",
  "A compare-and-swap operation calls its predicate exactly once with the entry currently stored under the key (number, key and value; nothing if absent for a put) and, for a put, the entry it would write; a compare-and-swap delete of an absent key does not call it. The write happens if and only if the predicate returns true, and the result says which. A declined operation leaves the log and the contents as they were (apart from the header a first put writes).",
  ["histories","inputs"],"every history, key, value and answer of the predicate",
  "tests cover one accepted and one declined case each",["src/put.rs","src/del.rs","src/hb.rs","src/prefixed.rs"],[("cas call","src/put.rs put_compare_and_swap"),("cas call","src/del.rs del_compare_and_swap")],[LOG],["put_compare_and_swap","del_compare_and_swap"])
p("P04","Every version is a well-formed B-tree",
  "The tree of every version ever written is a valid B-tree: keys strictly increasing in order, all leaves at the same depth, every node with at most 8 keys and every node but the root with at least 4, inner nodes with one child more than keys, and no pointer that leads nowhere.",
  ["histories"],"every history of puts and deletes",
  "one test checks this for shuffled small integer keys (up to a few hundred) through an in-memory walk",["src/put.rs","src/del.rs","src/lib.rs"],[("split","src/put.rs Node::split"),("repair","src/del.rs Side::repair, repair"),("order","src/lib.rs get_index_of_key")],[LOG],["blocks of the log"])
p("P05","Blocks are byte for byte what the JavaScript hyperbee writes",
  "For every history, the header and every block appended are byte-identical to those the JavaScript hyperbee writes for the same operation on the same log: same tree algorithm (which node is split where, which sibling is rotated or merged), same order of nodes within the block, same encoding.",
  ["histories","inputs"],"every operation on every valid tree",
  "the JS tests need node and network, and compare a few sequential histories",["src/put.rs","src/del.rs","src/blocks.rs","src/schema.proto"],[("node order","src/blocks.rs reorder_nodes"),("algorithm","src/put.rs, src/del.rs"),("encoding","src/blocks.rs add_changes")],[LOG],["bytes appended to the hypercore"])
p("P06","Append discipline: one block per effective write, nothing else",
  "The log only grows, and only by effective writes: each appends exactly one block (the first ever write is preceded by one header block). Reads, traversals, deletes of absent keys and declined compare-and-swaps append nothing. The version is always the number of blocks.",
  ["histories","inputs"],"every history of operations",
  "tests look at the version after a few operations",["src/tree.rs","src/put.rs","src/del.rs","src/blocks.rs"],[("header once","src/tree.rs ensure_header"),("commit","src/blocks.rs add_changes")],[LOG],["Hyperbee::version","hypercore appends"])
p("P07","A traversal yields exactly the keys of its range, in order",
  "Traversing with any bounds (finite or infinite, inclusive or exclusive, whether or not they are keys of the tree, also empty or inverted ranges), forwards or in reverse, yields exactly the live entries within the bounds, each once, in key order (or reverse), with their current values and numbers, and then ends.",
  ["inputs","histories"],"every valid tree and every range",
  "tests use integer keys on full trees and a few ranges",["src/traverse.rs","src/keys.rs"],[("start of iteration in a node","src/traverse.rs make_child_key_index_iter"),("bounds","src/traverse.rs in_bounds"),("infinite limits","src/keys.rs")],[LOG],["Hyperbee::traverse"])
p("P08","A traversal is a snapshot",
  "A traversal yields the contents of the version current when it was opened, whatever is written while it is in progress, and whatever was or is in the caches.",
  ["histories","schedules"],"every interleaving of the steps of a traversal with writes through the same handle",
  "no test writes during a traversal",["src/traverse.rs","src/tree.rs","src/blocks.rs"],[("root fixed at open","src/tree.rs traverse"),("nodes are immutable once committed","src/blocks.rs get_tree_node")],[("cache","decoded blocks shared by readers and writers","src/blocks.rs")],["stream items"])
p("P09","Subs are isolated views",
  "Operations of a sub act on exactly the keys that consist of its prefix, its separator and the key given; its traversals yield exactly the entries under its prefix and separator that are within the (relative) bounds, with prefix and separator removed. Nothing outside is seen or changed, whatever the prefixes and separators of other subs are (empty, nested, ending in the greatest byte).",
  ["inputs","histories"],"every prefix, separator, key, range and history through several subs and the store itself",
  "tests use one ASCII prefix with few keys",["src/prefixed.rs"],[("prefixing","src/prefixed.rs with_key_prefix"),("range of a sub","src/prefixed.rs traverse, end_of_range")],[LOG],["Prefixed"])
p("P10","Concurrent writes through one store are serialized",
  "However writes through one store (also via its subs) overlap, in tasks or threads, the outcome is that of executing them one after the other: no update is lost, every version in between is valid, every result (numbers, compare-and-swap arguments and answers) agrees with the order in which the blocks were appended. The header is written exactly once.",
  ["schedules","histories"],"every interleaving at every await point of several writers",
  "no test runs two writes at a time",["src/hb.rs","src/tree.rs","src/put.rs","src/del.rs"],[("write lock","src/tree.rs write_lock"),("read latest, append next","src/put.rs, src/del.rs")],[LOG],["Hyperbee::put","Hyperbee::del","Hyperbee::create_header"])
p("P11","Reads concurrent with writes see one committed version",
  "A get, traversal, height or version that overlaps writes answers as if executed at one moment between its start and its end, on a version whose block has been appended: never a mixture of versions, never the effect of a write not yet appended, never an error because of the overlap.",
  ["schedules","histories"],"every interleaving at every await point of readers and writers",
  "no test reads during a write",["src/tree.rs","src/blocks.rs","src/lib.rs"],[("root of the last block","src/tree.rs get_root"),("copies of nodes for writers","src/blocks.rs get_tree_node")],[("cache","decoded blocks shared by readers and writers","src/blocks.rs")],["Hyperbee::get","Hyperbee::traverse"])
p("P12","A failed write leaves no trace",
  "When a write fails (a block cannot be read, or the append fails), it returns an error and the store continues exactly as if it had not been tried, or, if the block did reach the log, as if it had succeeded; later reads and writes through the same handle are right. A failed read has no effect on later ones.",
  ["fault_sequences","histories"],"a failure at any read or append of any operation, repeatedly, on any tree",
  "no test injects failures",["src/put.rs","src/del.rs","src/blocks.rs"],[("changes are made on copies and committed by one append","src/blocks.rs add_changes")],[("cache","decoded blocks","src/blocks.rs")],["errors, and everything read afterwards"])
p("P13","A cancelled operation leaves no trace",
  "Dropping the future of an operation at any await point leaves the store as if the operation had not been started or, if its block had been appended, as if it had completed; no lock stays taken, and later operations through the same handle (and those running at the same time) are right.",
  ["schedules","histories"],"cancellation at every await point of every operation",
  "no test cancels an operation",["src/put.rs","src/del.rs","src/tree.rs","src/blocks.rs"],[("one append commits","src/blocks.rs add_changes"),("guards released on drop","src/tree.rs write_lock")],[("cache","decoded blocks","src/blocks.rs")],["everything after the cancellation"])
p("P14","Reopening after a stop or crash continues from the log",
  "A store opened on a storage directory or a hypercore holds exactly the contents of the log found there: everything whose append had completed, nothing else, whether the previous user closed cleanly or crashed leaving any prefix of the log (a partly written last block included). Reading and writing go on from there as in one uninterrupted history.",
  ["crash_points","histories"],"every history, cut after any block or inside one, any number of times",
  "one test reopens one small store once",["src/tree.rs","src/hb.rs","src/blocks.rs"],[("state is only the log","src/tree.rs from_storage_dir, get_root")],[LOG],["Hyperbee::from_storage_dir","Hyperbee::from_hypercore"])
p("P15","Every version stays readable: each prefix of the log is a store",
  "The first n blocks of a log, for every n, are by themselves a valid store that holds exactly the contents as they were when the log had n blocks; later blocks never change or are needed for an earlier version.",
  ["histories","crash_points"],"every history and every n",
  "tests only read the latest version",["src/blocks.rs","src/put.rs","src/del.rs"],[("blocks point backwards only","src/changes.rs, src/blocks.rs")],[LOG],["reads on a prefix of the log"])
p("P16","On an incomplete replica, an answer is right or an error",
  "On a replica that lacks some blocks, every read either gives the answer that the complete log gives or reports an error (a traversal: entries of the range in order, with errors in between); it never panics, hangs, or gives a wrong, partial or stale answer as if it were complete. Once the missing blocks arrive, the same handle answers everything right.",
  ["fault_sequences","inputs","histories"],"every set of missing blocks, every order of arrival, every read",
  "one test replicates a complete log",["src/blocks.rs","src/lib.rs","src/traverse.rs","src/tree.rs"],[("missing block is an error","src/blocks.rs get"),("only present blocks are cached","src/blocks.rs get"),("errors in the stream","src/traverse.rs poll_next")],[("cache","decoded blocks","src/blocks.rs")],["reads through a handle over a sparse hypercore"])
p("P17","A live replica follows its source",
  "While a replica's log grows behind the writer's, each read on it answers for a version it has heard of during that read, never an older one, and traversals keep to the version they were opened on. When two stores are connected by a stream in either role, the replica comes to hold what the writer holds. A replica cannot be written: writes on it fail and change nothing.",
  ["schedules","histories"],"every interleaving of writes, arrivals of blocks and reads",
  "one test replicates a single put",["src/tree.rs","src/blocks.rs","src/hb.rs"],[("length is asked for at each read","src/tree.rs get_root, version"),("add_stream","src/blocks.rs add_stream")],[LOG],["reads through a handle over a growing hypercore","Hyperbee::add_stream"])
p("P18","Reads need only the blocks on their path",
  "A get needs no block but those that hold the nodes on the path to its key and the keys in these nodes; a traversal none but those holding nodes that can contain keys of its range, and their keys. A replica that has these blocks answers without the others.",
  ["inputs","histories"],"every tree, key and range",
  "tests never run on partial logs",["src/lib.rs","src/traverse.rs","src/blocks.rs"],[("descent","src/lib.rs nearest_node"),("children out of range are not opened","src/traverse.rs make_child_key_index_iter")],[LOG],["reads on a replica holding exactly these blocks"])
p("P19","Traversal configurations are validated and defaulted correctly",
  "Building a traversal configuration succeeds exactly when the limits, if both are given, admit some key (minimum below maximum, or equal and both inclusive; minimum not positive infinity, maximum not negative infinity); the result has the values given and the documented defaults for the others, and so has the configuration one gets without a builder.",
  ["configurations"],"every combination of limits, inclusiveness and direction, given or not",
  "tests try three combinations",["src/traverse.rs","src/keys.rs"],[("validation","src/traverse.rs validate_traverse_config_builder"),("order of infinities","src/keys.rs")],[],["TraverseConfigBuilder::build"])
p("P20","The header is written once, first, and as given",
  "The first block of a log is the header, with the metadata given to the explicit creation or none if a put created it; it is written exactly once, even by operations that race or are repeated after reopening; a later explicit creation fails with the error that says so and changes nothing.",
  ["histories","schedules","inputs"],"every metadata, every order and overlap of header creations and other operations",
  "tests create a default header once",["src/tree.rs"],[("create_header, ensure_header","src/tree.rs")],[LOG],["Hyperbee::create_header","first block"])
p("P21","Any valid log is read and extended correctly, whoever wrote it",
  "On any valid log (nodes of one operation or of a batch, in whatever block and order the format allows, blocks without nodes, headers with metadata), all reads are right, and writes produce valid, correct and JavaScript-identical blocks.",
  ["inputs","histories"],"every valid layout of a tree in a log, followed by any operations",
  "tests only read logs written by this library one operation at a time",["src/blocks.rs","src/lib.rs","src/put.rs","src/del.rs","src/tree.rs"],[("decoding","src/blocks.rs make_node_vec"),("child pointers","src/lib.rs Children::get_child")],[LOG],["all operations on a given log"])
p("P24","height and print describe the tree exactly",
  "height is the number of levels of the current tree (0 for a store without entries ever written), and print lists all keys in order, one per line, each indented by the depth of its node.",
  ["histories"],"every tree",
  "tests check a few heights and one print-out",["src/lib.rs","src/traverse.rs","src/tree.rs"],[("height","src/lib.rs Node::height"),("print","src/traverse.rs print")],[LOG],["Hyperbee::height","Hyperbee::print"])
p("P25","Damaged blocks give errors, not panics or wrong answers",
  "A block that cannot be decoded, lacks the tree node it is asked for, or whose nodes lack a child or an offset, makes the operations that need it fail with an error; nothing panics or hangs, other answers stay right, and a write that fails because of it appends nothing.",
  ["inputs","fault_sequences"],"every kind of such damage at every block, on replicas and on a writer's own log",
  "no test reads a damaged log",["src/blocks.rs","src/lib.rs","src/error.rs"],[("decode errors","src/blocks.rs get_from_core, make_node_vec"),("pointer errors","src/blocks.rs get_tree_node, src/lib.rs get_child")],[LOG],["reads and writes on damaged logs"])
p("P26","Every operation finishes",
  "Under any fair schedule every operation completes (with a result or an error) as long as the hypercore answers: no deadlock and no lost wake-up among concurrent reads, writes, traversals and header creations, also when some of them fail or are cancelled (dropped; a traversal nobody polls is still under way until it is dropped). Nothing panics, with logging on or off, and a store can be printed for debugging at any moment.",
  ["schedules","fault_sequences"],"every interleaving, failure and cancellation of concurrent operations",
  "tests run one operation at a time on an in-memory hypercore that never waits",["src/tree.rs","src/hb.rs","src/blocks.rs","src/lib.rs","src/traverse.rs","src/put.rs","src/del.rs"],[("lock order","src/tree.rs, src/lib.rs"),("wakers","src/traverse.rs poll_next")],[],["completion of futures"])
p("P22","The bindings for other languages are the store",
  "Through the exported (uniffi) functions, opening, version, get, put, delete and subs (with the default or a given separator) do exactly what the store does: same results, same contents, values absent and empty kept apart, a failure reported as an error and never as a result or a panic; calls may overlap and be dropped.",
  ["histories","inputs","schedules","fault_sequences"],"every history of calls through the bindings, every key, value, prefix, failure and overlap",
  "the Python tests of the bindings need a built wheel and cover a put, a get and a delete",["src/ffi.rs","src/lib.rs","src/error.rs"],[("exported functions","src/ffi.rs")],[LOG],["the exported uniffi functions"])
p("P23","The C interface answers every lookup once and right",
  "Opening a directory through the C interface gives a store that holds what the directory holds, or NULL if it cannot be opened; while the runtime and the store stay open, each hb_get calls its callback exactly once, with the number and value of the entry (a value that is absent told from an empty one, its bytes and length exact), with number 0 if the key is not there, or with an error code if it could not be looked up; an empty key may be passed as NULL. Memory handed out by the interface is given back to it with the size and layout it was made with.",
  ["inputs","histories","fault_sequences"],"every directory, key, value and failing block",
  "the C test looks up one key that is there",["src/external.rs"],[("open","src/external.rs hyperbee_from_storage_directory"),("lookup","src/external.rs hb_get")],[LOG],["callback of hb_get","returned pointer"])
p("P27","Limits and keys are in one total order",
  "Compared with any key by any operator, in either direction, negative infinity is less, positive infinity is greater and neither is ever equal; a finite limit compares as its bytes do, and a limit made from a number is its decimal text.",
  ["inputs"],"every limit and every key",
  "the test compares the infinities with two keys, by three operators",["src/keys.rs","src/traverse.rs"],[("infinities","src/keys.rs"),("limits","src/traverse.rs LimitValue")],[],["comparison operators of LimitValue and of the infinite keys"])
P.sort(key=lambda x:x["id"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
NOTE={}
checks=[]
for x in P:
    checks.append(dict(property=x["id"],quick_cmd=f"python3 tools/check.py {x['id']}",thorough_cmd=f"VERIF_TIER=thorough python3 tools/check.py {x['id']}",
      technique="TLA+ specification model-checked with TLC; executions of the real code (scenarios generated from the specification, random and exhaustive ones) trace-validated against it by TLC",
      level="model_checking",
      level_note="The specification is checked exhaustively within small bounds; the code is bound to it by trace validation of the executions counted in the evidence. Trusts TLC and the stand-ins for hypercore, replicator, futures-lite and derive_builder in /verif/env."))
json.dump(dict(version=1,setup_cmd="python3 tools/setup.py",checks=checks,not_applicable=[],notes="No hooks in /repo are needed: everything is observed through the public API and the hypercore stand-in."),open('/verif/MANIFEST.json','w'),indent=1)
