MA = ["include/simfil/model/arena.h", "include/simfil/model/bitsery-traits.h"]
prop("A01", "Arrays in an ArrayArena are independent vectors",
     "After any sequence of new_array, push_back, emplace_back, clear and shrink_to_fit each array of an ArrayArena holds exactly the elements appended to it, in order, whether read by at, iterators, range or iterate. References to elements stay valid, and an index beyond the end throws std::out_of_range.",
     ["inputs", "histories"], "every sequence of operations on several arrays, every value, every index", "Tests append to one or two arrays in a few fixed orders.", MA, [dict(name="chunk chains", where="include/simfil/model/arena.h ensure_capacity_and_get_last_chunk, at_impl, iterate")],
     {"ops": H("A01.cpp", [N(N=6), N(N=4, K=1, LATE=1), N(N=6, K=1, CLEAR=1), N(N=4, K=3, CAP=1), N(N=16, K=1, CAP=5)], [N(N=9), N(N=6, K=2, LATE=1), N(N=8, K=2, CAP=2, CLEAR=1), N(N=6, K=3, CAP=2), N(N=40, K=1, CAP=9)], group="arena", ub=True, reach=["grown", "clear"])},
     "up to 6 appends to two arrays, 4 to three, 16 to one; initial capacities 0 to 3 (0 to 5)", "thorough: 9 appends to two, 6 to three, 40 to one array, capacities up to 9")
prop("A02", "An ArrayArena survives serialization",
     "Writing an ArrayArena and reading it again gives the same arrays with the same elements in order, replacing any previous content and consuming exactly what was written. Arrays which were read can be extended without affecting others.",
     ["inputs", "histories"], "every sequence of appends, every value", "Tests serialize one model.", MA, [dict(name="ArrayArenaExt", where="include/simfil/model/bitsery-traits.h")],
     {"io": H("A02.cpp", [N(N=5), N(N=4, USED=1), N(N=3, K=3)], [N(N=8), N(N=6, USED=1), N(N=5, K=3)], group="arena", ub=True, defs=["SX_SHIM_STREAMS"], reach=["read", "replaced"]),
      "large": H("A02.cpp", [N(LARGE=65537)], [N(LARGE=140001)], group="arena", ub=True, defs=["SX_SHIM_STREAMS"], max_steps=1000000000, reach=["large"])},
     "up to 5 elements in two, 3 in three arrays; 65537 elements", "thorough: 8 elements in two, 5 in three arrays")

prop("A03", "A thread safe ArrayArena may be shared by threads using different arrays",
     "If ARRAY_ARENA_THREAD_SAFE is defined, threads may create arrays and append to, read and iterate different arrays of an ArrayArena at the same time: each array gets exactly the elements its thread appended, in order. What all arrays have in common is only read while holding the lock and only changed while holding it exclusively, and no operation takes the lock twice.",
     ["inputs", "schedules"], "every operation of one thread, interrupted anywhere by operations of another", "The mode is off by default and its test is not compiled.", MA, [dict(name="lock_", where="include/simfil/model/arena.h")],
     {"threads": H("A03.cpp", [N(N=1), N(N=2)], [N(N=1), N(N=2), N(N=3)], group="arena", ub=True, noaccess=True, reach=["two", "interrupted"])},
     "one operation of ten kinds, interrupted once by one or two operations of the other thread, arrays of 0 to 3 elements", "thorough: three operations",
     assumptions=["std::shared_mutex is replaced by a model of the lock which reports misuse; interruption points are the lock operations, which suffices as the common bookkeeping is shown to be accessed under the lock only"])

PF = ["src/model/string-pool.cpp", "include/simfil/model/string-pool.h"]
prop("P01", "Names are interned once, in any case, and resolve to their first spelling",
     "A StringPool gives every string the id of the equal string (up to the case of ASCII letters) interned first, and the next free id if there is none; get gives that id without interning, or Empty. Every id resolves to the spelling interned first, all other ids to nothing, and size, bytes, highest, hits and misses count accordingly.",
     ["inputs", "histories"], "every sequence of strings, every id", "Tests intern a few keys.", PF, [dict(name="emplace, get, resolve", where="src/model/string-pool.cpp")],
     {"intern": H("P01.cpp", [N(N=2), N(N=3, L=1), N(N=2, L=1, STATIC=1)], [N(N=3, L=2), N(N=4, L=1), N(N=2, L=3), N(N=3, L=1, STATIC=1)], group="pool", ub=True, zero=HASH0, reach=["known", "unknown", "new"])},
     "2 strings of up to 2 or 3 of up to 1 arbitrary bytes", "thorough: 3 strings of up to 2, 4 of up to 1 bytes", assumptions=["the hash of a string is taken to be constant; P03 shows that it is consistent with equality, which is all that matters to a hash table"])
prop("P02", "A copy of a StringPool is equal to and independent of the original",
     "A copied StringPool compares equal to and resolves the same ids as the original. Interning strings in one does not change the other, and each keeps working after the other is destroyed.",
     ["inputs", "histories"], "every pool content, every later string", "Tests copy one pool.", PF, [dict(name="copy constructor", where="src/model/string-pool.cpp StringPool(StringPool const&)")],
     {"copy": H("P02.cpp", [N(N=2), N(N=1, LONG=1), N(PART=1, N=3)], [N(N=3), N(N=2, LONG=1), N(N=1, L=2), N(PART=1, N=5)], group="pool", ub=True, zero=HASH0, defs=["SX_SHIM_STREAMS"], reach=["copied", "gaps"])},
     "pools of up to 2 strings of up to 1 byte and long strings; pools read from any part of what another wrote", "thorough: 3 strings, 2 bytes")
prop("P03", "The hash of names agrees with their equality",
     "CaseInsensitiveEqual holds for exactly the strings of equal length that differ in the case of ASCII letters at most, and strings that are equal in this sense have equal hashes.",
     ["inputs"], "every pair of strings", "Tests compare a handful of keys.", PF, [dict(name="CaseInsensitiveHash, CaseInsensitiveEqual", where="src/model/string-pool.cpp")],
     {"hash": H("P03.cpp", [N(N=n, M=m) for n, m in ((0, 1), (1, 1), (2, 2), (3, 3), (2, 3), (3, 2))] + [N(N=n, PART=1) for n in range(6)] + [N(N=n, PART=2) for n in (7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 100)] + [N(N=n, PART=3) for n in (8, 16, 33)], [N(N=n, M=m) for n in range(5) for m in range(5)] + [N(N=n, PART=1) for n in range(9)], group="pool", ub=True, reach=["equal", "different", "hash", "long"])},
     "strings of up to 3 bytes for equality, 5 for the hash; letters at any position of longer ones, up to 100 bytes", "thorough: 4 and 8 bytes")
prop("P04", "A StringPool can be written in parts and read back, and ids never run over",
     "A pool written, at once or in parts from an id on, and read into another gives the same strings with the same ids; new strings then get the same ids in both. When all ids are used, emplace throws std::overflow_error and changes nothing, and reading any bytes throws std::runtime_error or adds strings, keeping the existing ones.",
     ["inputs", "histories", "faults"], "every pool content, split and byte sequence", "Tests write one pool.", PF, [dict(name="write, read", where="src/model/string-pool.cpp")],
     {"io": H("P04.cpp", [N(N=2), N(PART=1, N=3), N(PART=3, N=2)] + [N(PART=2, N=n) for n in (0, 1, 2, 4, 5)] + [N(PART=2, N=7, SHORT=1)], [N(N=3), N(N=2, L=2), N(PART=1, N=5), N(PART=3, N=3)] + [N(PART=2, N=n) for n in range(7)] + [N(PART=2, N=n, SHORT=1) for n in (7, 8, 9, 10)], group="pool", ub=True, defs=["SX_SHIM_STREAMS"], zero=HASH0, reach=["read", "increment", "overflow", "accepted", "rejected", "older part later"])},
     "2 strings of up to 1 byte; the last 5 ids; up to 7 bytes of input", "thorough: 3 strings, 10 bytes", assumptions=["bitsery is represented by the stand-in in shim/"])
prop("P05", "A StringPool may be shared by threads",
     "Concurrent operations on a StringPool have the effect of the same operations one after another, in some order. Its tables are only read while holding its lock and only changed while holding it exclusively, and no operation takes a lock twice.",
     ["inputs", "schedules"], "every pair (triple) of operations, every interleaving", "Tests are single threaded.", PF, [dict(name="stringStoreMutex_", where="src/model/string-pool.cpp emplace")],
     {"threads": H("P05.cpp", [N(), N(C=1)], [N(), N(C=1)], group="pool", noaccess=True, zero=HASH0, reach=["two", "three", "interrupted"])},
     "two operations of eight kinds or three of emplace, get and resolve, names of four; an operation is interrupted by a whole operation of another thread wherever it holds no lock",
     assumptions=["std::shared_mutex and std::mutex are replaced by a model of locks which reports misuse; interruption points are the lock operations, which suffices as the tables are shown to be accessed under the lock only", "individual operations of the other threads run until they finish or are interrupted themselves (stack-like schedules)"])
MF = ["src/model/model.cpp", "src/model/nodes.cpp", "include/simfil/model/model.h", "include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h"]
prop("M01", "Every value stored in a model reads back exactly",
     "An integer of any size, float (bit by bit), bool, string or null added to a model, as field, array element or root, by value or as node, reads back with its type and value by index, name, iterator and callback. Nodes keep their model alive, and a root index out of range is an error.",
     ["inputs"], "every value of every kind", "Tests store a few small numbers and strings.", MF, [dict(name="storage classes of values", where="src/model/model.cpp newValue, newSmallValue, resolve; include/simfil/model/nodes.h ModelNodeAddress")],
     {"values": H("M01.cpp", [N(N=1), N(N=2), N(LARGE=300)], [N(N=2), N(N=3), N(LARGE=1500)], group="core", ub=True, reach=["stored"])},
     "2 values of 7 kinds, strings of up to 2 bytes", "thorough: 3 values")
prop("M02", "Objects and arrays keep their members in order, found by name in any case",
     "After any sequence of additions and extensions of several objects or arrays each one has exactly its members in order of addition, by index, iterator, callback (which may stop) and fields. A field is found by name, in any case, and is the first of that name; indices out of range and unknown names give nothing.",
     ["inputs", "histories"], "every sequence of additions, every name", "Tests build a few objects.", MF, [dict(name="members", where="include/simfil/model/nodes.impl.h, src/model/nodes.cpp extend")],
     {"members": H("M02.cpp", [N(N=3), N(N=2, L=2), N(N=5, OBJ=0)], [N(N=4), N(N=3, L=2), N(N=7, OBJ=0)], group="core", ub=True, zero=HASH0, reach=["object", "array", "extend"]),
      "large": H("M02.cpp", [N(LARGE=65540, OBJ=0, CAP=65537), N(LARGE=65540, OBJ=1, CAP=65537)], [N(LARGE=140000, OBJ=0), N(LARGE=140000, OBJ=1)], group="core", ub=True, zero=HASH0, max_steps=1000000000, reach=["large"])},
     "3 operations on two objects with names of 1 byte (2 with 2 bytes), 5 on two arrays; 65540 members", "thorough: 4 and 7 operations; 140000 members", assumptions=["the hash of a name is taken to be constant, see P01"])
prop("M03", "A model survives serialization, renaming and clearing",
     "A model written and read, into a new or used model with the names read too, has the same roots, values and names, and can be extended; a truncated one is an error. setStrings translates all names to the given pool and leaves the previous pool alone, and clear leaves a model like a new one.",
     ["inputs", "histories", "faults"], "every tree of objects, arrays and values", "Tests write one model.", MF + ["include/simfil/model/bitsery-traits.h"], [dict(name="readWrite, setStrings, clear", where="src/model/model.cpp")],
     {"io": H("M03.cpp", [N(D=2), N(D=1, KINDS=1), N(D=1, ROOTS=2, KINDS=1, W=1), N(PART=1, D=2), N(PART=2, D=2), N(LARGE=300)], [N(D=2, KINDS=1), N(D=3, W=1), N(D=1, ROOTS=2, KINDS=1), N(PART=1, D=3, W=1), N(PART=1, D=1, W=3), N(PART=2, D=3, W=1)], group="core", max_steps=400000000, ub=True, zero=HASH0, reach=["read", "used", "truncated", "renamed", "cleared"])},
     "trees of depth 2 with up to 2 members each, values of all kinds at depth 1", "thorough: depth 3", assumptions=["bitsery is represented by the stand-in in shim/"])
prop("M04", "Objects with procedural fields behave like any other object",
     "A ProceduralObject has its procedural fields first, in order, followed by its stored fields if it has any: by index, name, callback (which may stop) and fields. It can be a root, element or field like any other node of a model that resolves it.",
     ["inputs"], "every number of procedural and stored fields, every value and index", "No test uses procedural fields.", ["include/simfil/model/nodes.h"], [dict(name="ProceduralObject", where="include/simfil/model/nodes.h")],
     {"proc": H("M04.cpp", [N()], [N(S=3)], group="core", ub=True, reach=["procedural only", "both"])},
     "up to 3 procedural and 2 stored fields with five names", "thorough: 3 stored fields")
prop("V01", "An overlay adds fields to a value and leaves everything else alone",
     "A field set on an OverlayNode is found by its name, with the value set last, and hides a field of that name below; all other fields, and all members by index, name and iteration, are those of the value below. The value itself and other overlays of it are not changed.",
     ["inputs", "histories"], "every sequence of fields set on every kind of value", "Tests use overlays through sum only.", ["src/overlay.cpp", "include/simfil/overlay.h"], [dict(name="OverlayNode", where="src/overlay.cpp")],
     {"overlay": H("V01.cpp", [N(N=2), N(LARGE=300)], [N(N=3), N(LARGE=1000)], group="core", ub=True, reach=["scalar", "node", "set", "below"])},
     "2 fields set out of five names, over scalars of all kinds, objects and arrays of up to 2 members", "thorough: 3 fields")
prop("V02", "Values and value nodes hold exactly what they are made of",
     "A Value made of a bool, integer, float, string, scalar variant or node has that type only, and as, visit, getScalar, getNumeric, isBool and toString agree on exactly that content, also after copies, moves and assignments; a Value of a node keeps the node and its model alive. A node address keeps its column and 24 bit index; null nodes, casts of nodes of another kind and roots that do not exist are errors.",
     ["inputs", "histories"], "every value of every kind, made in six ways; every address", "Tests make few values.", ["include/simfil/value.h", "include/simfil/model/nodes.h", "src/model/nodes.cpp"], [dict(name="Value", where="include/simfil/value.h Value"), dict(name="ValueNode, ModelNodeAddress, model_ptr", where="include/simfil/model/nodes.h")],
     {"value": H("V02.cpp", [N(), N(PART=1), N(PART=2)], [N(), N(PART=1), N(PART=2)], group="core", ub=True, reach=["made", "node", "value node", "kept", "address", "structure", "nothing"])},
     "all integers, floats, bools and small values, strings of up to 2 bytes; all addresses")
prop("J01", "Importing JSON gives the same values",
     "A JSON text imported into a model adds one root with the values of the text: null, booleans, integers, floats (also for integers beyond int64), strings, and nested arrays and objects with all their members. Text that is not JSON throws and leaves the model as it was.",
     ["inputs"], "every JSON text", "Tests import a few documents.", ["src/model/json.cpp"], [dict(name="build", where="src/model/json.cpp build, parse")],
     {"import": H("J01.cpp", [N(D=0, HOW=1), N(D=1), N(D=2, W=1), N(LARGE=300)] + [N(ANY=n) for n in (1, 2, 3)], [N(D=1, HOW=1), N(D=2, W=1), N(D=3, W=1), N(ANY=4), N(ANY=5)], group="json", max_steps=400000000, ub=True, zero=HASH0, reach=["null", "large", "float", "string", "accepted", "rejected"])},
     "trees of depth 1 with up to 2 members and of depth 2 with 1 member, integers of up to 3 digits and around the limits of int64 and uint64, 20 floats, strings of up to 2 plain characters or one of 9 escapes; all texts of up to 3 bytes", "thorough: depth 3, texts of up to 5 bytes", assumptions=["the hash of a name is taken to be constant, see P01", "nlohmann::json is executed as compiled"])
prop("J02", "Exporting to JSON gives the same values",
     "toJson gives every scalar with its type and value, every array with its elements in order, and every object with its fields under the spelling interned first; a model exports as the array of its roots. In an object with several fields of a name all fields become arrays of their values in order, and the field _multimap tells so.",
     ["inputs"], "every tree of values", "Tests export a few documents.", ["src/model/nodes.cpp", "src/model/model.cpp"], [dict(name="toJson", where="src/model/nodes.cpp ModelNode::toJson; src/model/model.cpp ModelPool::toJson")],
     {"export": H("J02.cpp", [N(LARGE=300), N(D=1), N(D=2, W=1), N(D=1, W=1, ROOTS=2), N(D=2, W=1, TOP=2)], [N(D=1, W=3), N(D=2, W=2), N(D=2, W=1, TOP=3), N(D=2, W=2, TOP=2)], group="json", max_steps=400000000, ub=True, zero=HASH0, reach=["object", "multimap"])},
     "trees of depth 1 with up to 2 members or depth 2 with 1 member (2 at the top, of a few values), field names of four, all values, strings of up to 2 bytes", "thorough: 3 members", assumptions=["the hash of a name is taken to be constant, see P01", "nlohmann::json is executed as compiled"])
prop("M05", "Validation reports exactly the unsound models",
     "checkForErrors reports an error, and validate throws, exactly if a root or member of the model refers to a value that does not exist, if an object or array contains itself, directly or not, or if the name of a field is unknown. All nodes of a model without errors can be reached and read.",
     ["inputs", "histories"], "every graph of references", "No test validates an unsound model.", ["src/model/model.cpp"], [dict(name="checkForErrors", where="src/model/model.cpp ModelPool::checkForErrors, validate")],
     {"validate": H("M05.cpp", [N(N=2), N(N=3, COLS=2, OBJS=2), N(N=3, COLS=2, ARRS=2, OBJS=0), N(NAMES=1)], [N(N=3), N(N=4, COLS=2, OBJS=2), N(N=4, COLS=2, ARRS=2), N(NAMES=1)], group="core", ub=True, zero=HASH0, reach=["sound", "unsound", "cycle", "names"])},
     "2 references of 6 kinds among one object and one array, 3 references among two objects and an array; indices one beyond the end", "thorough: 3 and 4 references")
prop("X01", "Transient objects keep and release their payload through any copy and move",
     "A value holding a transient object keeps its type and payload through any sequence of copies, moves, swaps, assignments (also to itself, and from or to values moved from) and container operations. Each copy has a payload of its own, and every payload is released exactly once.",
     ["inputs", "histories"], "every sequence of operations on values", "Tests copy few transient objects.", ["include/simfil/transient.h", "include/simfil/value.h"], [dict(name="copy, move, assignment", where="include/simfil/transient.h TransientObject")],
     {"life": H("X01.cpp", [N(N=3), N(N=2, S=3)], [N(N=3), N(N=3, S=3)], group="core", ub=True, reach=["copy", "move", "erase"])},
     "3 of 9 operations on 2 values, 2 on 3 values", "thorough: 3 operations on 3 values")
