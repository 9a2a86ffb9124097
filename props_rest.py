OF = ["include/simfil/operator.h", "include/simfil/value.h", "src/simfil.cpp"]
prop("O01", "Integer arithmetic is exact and never crashes",
     "For all 64 bit integers, + - * / % and unary minus give the exact mathematical result (division truncating towards zero), wrapped around modulo 2^64 where it does not fit; division or modulo by zero is reported as an error. No operand values make the evaluation crash or run into undefined behaviour, neither on data nor on constants folded at compile time.",
     ["inputs"], "every pair of 64 bit integers, as data or as constants",
     "The tests use single digit numbers; the limits of the type are where arithmetic breaks.",
     OF, [dict(name="arithmetic operators", where="include/simfil/operator.h OperatorAdd..OperatorMod, OperatorNegate")],
     {"arith": H("O01.cpp", [N(OP=o, MODE=m) for o in range(6) for m in (0, 1, 2)], group="lib", ub=True, reach=["exact", "zero"])},
     "all pairs of 64 bit integers for each operator")
prop("O02", "Floating point and mixed arithmetic is IEEE arithmetic",
     "For all doubles, and for all integers mixed with doubles, + - * / and unary minus give exactly the IEEE double result on the operands converted to double. Dividing by zero and taking a remainder of floating point numbers are errors.",
     ["inputs"], "every pair of doubles or double and integer, including infinities, NaN, zeros and subnormals",
     "Tests use five round numbers.", OF, [dict(name="mixed operator overloads", where="include/simfil/operator.h OperatorAdd..OperatorMod")],
     {"arith": H("O02.cpp", [N(OP=o, KA=1, KB=1) for o in range(6)] + [N(OP=o, KA=0, KB=1) for o in range(5)] + [N(OP=o, KA=1, KB=0) for o in range(5)] + [N(OP=o, KA=1, KB=1, MODE=1) for o in (0, 3)], group="lib", reach=["value", "zero", "modulo"])},
     "all operand values")
prop("O03", "Comparisons are exact, consistent and type safe",
     "On integers, on doubles, on mixed numbers (as doubles) and on strings (byte order), < <= > >= == != and the alias = give the mathematical answer, so they never contradict each other. Comparing values of incompatible types is false for all of them except !=, which is true.",
     ["inputs"], "every pair of values of seven kinds, as data or constants",
     "Tests compare a handful of small constants.", OF, [dict(name="comparison operators", where="include/simfil/operator.h OperatorEq..OperatorGtEq")],
     {"all": H("O03.cpp", [N(), N(MODE=1), N(KA=0, KB=0, ALIAS=1), N(KA=1, KB=1, ALIAS=1), N(KA=2, KB=2, LA=2, LB=2, ALIAS=1), N(KA=2, KB=2, LA=0, LB=1), N(KA=2, KB=2, LA=3, LB=2)], [N(), N(MODE=1), N(KA=2, KB=2, LA=4, LB=4), N(KA=2, KB=2, LA=6, LB=5)], group="lib", reach=["numbers", "strings", "booleans", "nulls", "incompatible"])},
     "all values of all pairs of kinds; strings of 0 to 3 bytes", "thorough: strings up to 6 bytes")
prop("O04", "Bit operators work on the 64 bit pattern",
     "& | ^ and ~ operate bit by bit on the 64 bit two's complement pattern of integers. << and >> shift that pattern logically; a count below 0 or above 63 shifts everything out and gives 0.",
     ["inputs"], "every pair of 64 bit integers", "Tests use one or two small values per operator; large counts are undefined behaviour in C++.",
     OF, [dict(name="bit operators", where="include/simfil/operator.h OperatorBitInv, OperatorBitAnd..OperatorShr")],
     {"bits": H("O04.cpp", [N(OP=o, MODE=m) for o in range(6) for m in (0, 1)], group="lib", ub=True, reach=["bits", "shift", "large count"])},
     "all pairs of 64 bit integers")
prop("O05", "Null and incompatible operands never yield a made-up value",
     "An arithmetic or bit operation with a null operand is null, except that adding null or a boolean to a string appends its spelling. Operands of any other incompatible kinds make the query fail with an error naming the operator.",
     ["inputs"], "every operator on every pair of seven kinds of operand with arbitrary values",
     "Tests try a few combinations of 490.", OF, [dict(name="operand dispatch", where="include/simfil/operator.h BinaryOperatorDispatcher")],
     {"pairs": H("O05.cpp", [N(), N(FOLD=1)], group="lib", reach=["null", "concatenation", "incompatible", "string and node"])},
     "all operators and kinds, all values, strings of 1 byte")
prop("O06", "Casts convert exactly or give the documented fallback",
     "'as int' keeps integers, truncates floating point numbers in range, reads a string of digits as its value and gives 0 for anything that is no such number; 'as float' likewise. 'as bool' is the truth value, 'as string' spells the value so that integers read back unchanged.",
     ["inputs"], "every value of seven kinds, strings of digits and of other text",
     "Tests cast eight values. Out of range numbers are undefined behaviour in C++.", OF, [dict(name="cast operators", where="include/simfil/operator.h OperatorAsInt, OperatorAsFloat, OperatorAsString"), dict(name="cast parser", where="src/simfil.cpp CastParser")],
     {"casts": H("O06.cpp", [N(), N(FOLD=1)] + [N(PART=1, K=k, NEG=n) for k, n in ((1, 0), (3, 1), (5, 2))] + [N(PART=1, K=2, Z=20)] + [N(PART=2, K=k) for k in (0, 1, 3)] + [N(PART=3), N(PART=3, FOLD=1)], [N(), N(FOLD=1)] + [N(PART=1, K=k, NEG=n) for k, n in ((1, 0), (8, 1), (15, 2))] + [N(PART=2, K=5), N(PART=3)], group="lib", ub=True, reach=["int", "bool", "float in range", "float out of range", "other", "digits", "no number", "string"])},
     "all integers, doubles and booleans; digit strings of 1 to 5 digits with sign; other strings of up to 3 bytes; integers of up to 3 digits and the limits as strings")
prop("O07", "Truth, not, and, or and typeof follow the documented rules",
     "Only null and false are false; ? and not report that. 'and' gives its first false operand or else the last, 'or' its first true operand or else the last, unchanged in type and value; typeof names the type.",
     ["inputs"], "every pair of values of seven kinds", "Tests use constants of three types.",
     OF, [dict(name="and/or expressions", where="src/simfil.cpp AndExpr, OrExpr"), dict(name="truth", where="include/simfil/operator.h OperatorBool, OperatorNot, OperatorTypeof")],
     {"logic": H("O07.cpp", [N(), N(FOLD=1)], group="lib", reach=["true", "false"])},
     "all pairs of kinds and all values, strings of 2 bytes")
prop("O08", "Strings join, measure and index by bytes",
     "+ on strings is their concatenation, # the number of bytes, and (for a string that is not a model node) s[i] the i-th byte as a string for 0 <= i < #s and null for every other integer. Adding an integer to a string inserts its decimal spelling on that side.",
     ["inputs"], "every string content and every 64 bit index", "Tests index one string.",
     OF, [dict(name="string operators", where="include/simfil/operator.h OperatorAdd, OperatorLen, OperatorSubscript")],
     {"strings": H("O08.cpp", [N(LA=0, LB=2), N(LA=3, LB=3), N(LA=2, LB=2, FOLD=1), N(LA=1, LB=1, PAD=40), N(LA=1, LB=1, PAD=33000), N(PART=1, LA=0), N(PART=1, LA=3), N(PART=1, LA=2, PAD=20), N(PART=1, LA=1, PAD=300), N(PART=1, LA=2, FOLD=1), N(PART=2, LA=2)], group="lib", ub=True, reach=["concatenation", "inside", "outside", "number"])},
     "strings of 0 to 3 arbitrary bytes, also next to 20 or 40 more; all 64 bit indexes; integers -20..100")
prop("Y01", "Integer ranges contain and unpack exactly their values",
     "A number equals range(a, b) exactly if it lies between a and b inclusive, from either side of the operator and for either order of a and b. Unpacking gives every integer from a to b in order, upwards or downwards, also at the limits of 64 bit integers; two ranges are equal if both ends are.",
     ["inputs"], "every pair of ends and every value", "Tests use three small ranges.",
     ["src/types.cpp", "include/simfil/types.h", "src/function.cpp"], [dict(name="range operators", where="src/types.cpp IRangeType")],
     {"range": H("Y01.cpp", [N(K=0), N(K=1), N(K=2), N(K=0, FOLD=1), N(PART=1), N(PART=1, SPAN=2, FOLD=1), N(PART=1, SPAN=2, BASE=2**63-3), N(PART=1, SPAN=2, BASE=-2**63), N(PART=2), N(PART=3)], [N(K=0), N(K=1), N(K=1, FOLD=1), N(PART=1, SPAN=8), N(PART=1, SPAN=5, BASE=2**63-6), N(PART=1, SPAN=5, BASE=-2**63), N(PART=2), N(PART=3)], group="lib", ub=True, reach=["inside", "outside", "upwards", "downwards", "compared", "string"])},
     "all ends and all integer and double values for membership; unpacking of all ranges within 4 consecutive integers around 0 and 3 at either 64 bit limit")
prop("Q01", "Operators bind as documented",
     "A query without parentheses means the same as the fully parenthesized one: unary operators before * / %, + -, bit operators and shifts, comparisons < <= > >=, == !=, and, or, binary operators of one level from left to right. Paths, subscripts, sub-queries, ? and ... bind to the operand before them, prefix operators to the operand after them.",
     ["inputs"], "every combination of up to three operators",
     "Tests look at about ten combinations; there are thousands and every new operator adds its own.",
     ["src/simfil.cpp", "src/parser.cpp", "include/simfil/parser.h"], [dict(name="Pratt parser", where="src/parser.cpp Parser::parsePrecedence, Parser::parseInfix")],
     {"prec": H("Q01.cpp", [N(PART=0), N(PART=1), N(PART=2), N(PART=3)], group="lib", reach=["right first", "left first", "three operators", "unary", "chain"])},
     "all pairs and half the triples of 18 binary operators, 5 prefix and 6 postfix operators on either operand, chains of 3")
prop("Q02", "Folding constants at compile time never changes the result",
     "A query gives the same values whether operands are known at compile time or read from the model. What is not known at compile time (fields, anything depending on them, random functions) is never folded.",
     ["inputs"], "66 query templates over all functions and operators, every subset of their operands constant, all operand values",
     "Tests look at the AST of single constant expressions; the mixed cases are where folding goes wrong.",
     ["src/simfil.cpp", "src/function.cpp"], [dict(name="constant folding", where="src/simfil.cpp simplifyOrForward")],
     {"fold": H("Q02.cpp", [N(FROM=i, TO=i+8) for i in range(0, 67, 9)] + [N(FROM=i, TO=i+8, KINDS=5, CONC=1) for i in range(0, 67, 9)], [N(FROM=i, TO=i+2) for i in range(0, 69, 3)] + [N(FROM=i, TO=i+2, KINDS=5, CONC=1, ALL=1) for i in range(0, 69, 3)], group="lib", reach=["compared", "error"]), "large": H("Q02.cpp", [N(LARGE=1)], [N(LARGE=1)], group="lib", max_steps=200000000, reach=["many"])},
     "three operands 0..9; lists of 9999 to 10001 values")
prop("Q03", "any, all and count agree with logic over all their values",
     "any(...) is true exactly if one of all the values of its arguments is true, each/all(...) if all are, count(...) is the number of true ones. Evaluation stops at the deciding value: nothing after it, and no right side of and/or that is not needed, is evaluated.",
     ["inputs"], "every list of values",
     "Tests use a few fixed lists.", ["src/function.cpp", "src/simfil.cpp"], [dict(name="any/each/count", where="src/function.cpp AnyFn, EachFn, CountFn")],
     {"any": H("Q03.cpp", [N(N=1), N(N=2), N(N=3), N(N=2, PART=1), N(PART=2), N(PART=3)], group="lib", reach=["any", "all", "none"], max_steps=200000000)},
     "lists of 1 to 3 values of four kinds; the values of 26 expressions over every list of three booleans")
prop("Q04", "Paths and sub-queries select exactly the matching nodes in order",
     "Evaluating a path of fields, *, **, subscripts and sub-queries on any model gives exactly the nodes a walk over the model gives, in model order, each node once per match, and a single null if nothing matches. It never fails or crashes, whatever the shape of the model.",
     ["inputs"], "every small model, every path",
     "Tests run paths on one fixed document.", ["src/simfil.cpp", "src/model/nodes.cpp"], [dict(name="paths", where="src/simfil.cpp PathExpr, WildcardExpr, FieldExpr, SubExpr, SubscriptExpr")],
     {"path": H("Q04.cpp", [N(LARGE=1)] + [N(DEPTH=2, NODES=3, LEN=2, S0=i) for i in range(17)] + [N(DEPTH=1, NODES=2, LEN=3)], group="lib", reach=["nothing", "values"])},
     "models of up to 4 nodes and depth 2 with every path of two of 17 segments; one 70 levels deep and one with 300 members per node")
FF = ["src/function.cpp", "src/overlay.cpp"]
prop("F01", "sum folds its values from left to right",
     "sum(list, expr, init) starts at init (0) and replaces the sum by expr ($sum + $val) for every value of the list in order, with $val and $idx (counted from 0) belonging to the current value and its fields accessible. Its result is the last sum: exact for integers, IEEE for floats, concatenation for strings.",
     ["inputs"], "every list of values", "Tests sum three fixed lists.", FF, [dict(name="sum", where="src/function.cpp SumFn::eval"), dict(name="overlay", where="src/overlay.cpp OverlayNode")],
     {"sum": H("F01.cpp", [N(N=1), N(N=3), N(N=3, FOLD=1), N(PART=1), N(PART=1, FOLD=1), N(PART=2), N(PART=2, FOLD=1), N(PART=3, N=2), N(PART=3, N=1), N(PART=4)], group="lib", ub=True, reach=["integers", "order", "strings", "floats", "long"])},
     "lists of up to 3 arbitrary integers, floats or strings of 2 bytes; one of 300 integers")
prop("F02", "select gives exactly the requested slice",
     "select(list, i, n) gives the values at positions i to i+n-1 of the list in order (all from i on if n <= 0; one without n), and a single null if there are none. It ends only the evaluation of its own list, not of the expression around it.",
     ["inputs"], "every index and count", "Tests use four combinations; the limits of the type overflow.", FF, [dict(name="select", where="src/function.cpp SelectFn::eval")],
     {"select": H("F02.cpp", [N(), N(FOLD=1), N(PART=1), N(N=1)], [N(N=k) for k in range(1, 6)] + [N(N=k, FOLD=1) for k in range(1, 6)] + [N(PART=1, N=5)], group="lib", ub=True, reach=["nothing", "slice"])},
     "lists of 3 values, every 64 bit index and count", "thorough: lists of up to 5 values")
prop("F03", "split gives the parts between separators",
     "split(s, t) gives the pieces of s between non-overlapping occurrences of t from left to right, so that joining them with t gives s; with false as third argument the empty ones are left out. An empty t gives s, an empty list is null.",
     ["inputs"], "every string and separator", "Tests split three strings.", FF, [dict(name="split", where="src/function.cpp SplitFn::eval")],
     {"split": H("F03.cpp", [N(N=n, M=m) for n in range(4) for m in range(3)] + [N(N=2, M=1, FOLD=1), N(LARGE=1200)], [N(N=n, M=m) for n in range(6) for m in range(4)] + [N(N=3, M=1, FOLD=1)], group="lib", reach=["split", "whole"])},
     "strings of up to 3 and separators of up to 2 arbitrary bytes", "thorough: up to 5 and 3 bytes")
prop("F04", "Lists keep order and operators apply to every value",
     "arr(...) gives the values of its arguments in order, an operator combines every value of its left side with every value of its right side in order, and keys(o) and o.* give all keys and values of an object in order. A field is found by its name in any case, the first one if there are several.",
     ["inputs"], "every list of values, every small object", "Tests use fixed lists.", FF + ["src/simfil.cpp", "src/model/nodes.cpp"], [dict(name="arr and keys", where="src/function.cpp ArrFn, KeysFn"), dict(name="operators on lists", where="src/simfil.cpp BinaryExpr")],
     {"lists": H("F04.cpp", [N(), N(FOLD=1), N(PART=1), N(PART=2), N(PART=2, FOLD=1)], [N(), N(FOLD=1), N(PART=1), N(PART=2, M=1000)], group="lib", ub=True, reach=["lists", "fields"])},
     "lists of up to 4 values, objects of up to 3 fields with three names")
prop("F05", "Wrong function arguments are reported, never crash",
     "A call with a wrong number or wrong types of arguments, or of an unknown function, fails with an error naming the function; a correct call always gives at least one value. Function names are case-insensitive.",
     ["inputs"], "every function with every combination of argument kinds", "Tests look at a few error cases.", FF, [dict(name="argument checks", where="src/function.cpp ArgParser")],
     {"args": H("F05.cpp", [N(N=2), N(N=2, FOLD=1)], [N(N=3), N(N=3, FOLD=1)], group="lib", reach=["count", "type", "value"])},
     "0 to 2 arguments of seven kinds", "thorough: 0 to 3 arguments")
prop("F06", "trace is transparent and keeps at most limit values",
     "trace(expr, limit, name) gives exactly the values of expr and stops when they are no longer needed. Every call is counted under the name, and at most limit values (all if negative) are stored, in order.",
     ["inputs"], "every list of values and limit", "Tests trace one value.", FF, [dict(name="trace", where="src/function.cpp TraceFn::eval")],
     {"trace": H("F06.cpp", [N(N=2), N(N=1), N(N=2, PART=1)], [N(N=3), N(N=3, PART=1)], group="lib", reach=["unlimited", "limited", "stopped"])},
     "lists of 1 or 2 values of four kinds, limits -1 to 4", "thorough: 3 values")
SF = ["src/simfil.cpp", "src/parser.cpp", "src/function.cpp"]
prop("Q07", "Evaluation is repeatable and independent of other evaluations",
     "Evaluating a compiled query gives the same values every time, no matter on which models it was evaluated in between, and never changes a model. Compiling the same query again gives the same expression.",
     ["inputs", "histories"], "every model value, 40 queries", "Tests evaluate each query once.", SF, [dict(name="cached lookups and overlays", where="src/simfil.cpp FieldExpr, CallExpression; src/function.cpp SumFn")],
     {"repeat": H("Q07.cpp", [N(CONC=0), N(BIG=1000), N(BIG=70000)], group="lib", reach=["values"])},
     "40 queries over all functions, two models of five fields with values 0..3 and strings of 2 bytes")
prop("Q08", "Any text compiles or is rejected, and evaluates without crashing",
     "For any query text, compile either gives an expression or throws a std::runtime_error with a message, in every mode. Evaluating the expression gives at least one value or throws a std::runtime_error, without undefined behaviour.",
     ["inputs"], "every sequence of tokens, every byte sequence", "Tests try a dozen malformed queries.", SF, [dict(name="parser", where="src/parser.cpp, src/simfil.cpp compile")],
     {"any": H("Q08.cpp", [N(N=1), N(N=2), N(N=3, A=24), N(PART=2, N=2), N(PART=2, N=3, A=20), N(PART=1, N=1), N(PART=1, N=2)], [N(N=3), N(PART=2, N=3), N(N=4, A=15), N(PART=2, N=4, A=15), N(PART=1, N=3)], group="lib", ub=True, reach=["rejected", "error", "value"])},
     "all sequences of up to 2 of 47 tokens and 3 of 24, also with brackets closed; all texts of up to 2 bytes", "thorough: sequences of 3 of 47 and 4 of 15 tokens, texts of 3 bytes")
prop("Q09", "Upper case words are symbols, all other words fields or constants",
     "Outside of a path a word of upper case letters, digits and underscores with at least one letter is a string; any other word is a constant of the environment of that name or else a field. Inside of a path every word is a field, found in any case.",
     ["inputs"], "every word", "Tests use three words.", SF, [dict(name="words", where="src/simfil.cpp WordParser, isSymbolWord")],
     {"words": H("Q09.cpp", [N(N=1), N(N=2), N(N=3)], [N(N=1), N(N=2), N(N=3), N(N=4), N(N=5)], group="lib", zero=HASH0, reach=["symbol", "field"])},
     "words of 1 to 3 characters", "thorough: 5 characters")
prop("Q10", "The any and autoWildcard modes search as documented",
     "Compiling in any mode gives what any(query) gives. With autoWildcard a constant query is compared with every value of the model, any other query is unaffected; both modes combine.",
     ["inputs"], "23 queries, all values", "Tests check the AST of two queries.", SF, [dict(name="compile", where="src/simfil.cpp compile")],
     {"modes": H("Q10.cpp", [N()], group="lib", reach=["constant", "expression"])},
     "23 queries over fields and constants 0..3")
prop("Q11", "Every operand is evaluated on the current node",
     "A query in p.(query) gives what it gives with every field name replaced by its path from p, without missing values, for each value of p in order, and p{query} gives p once for each true value of it: the operands, arguments, subscripts and bounds of an operator or function mean fields of the current node, not of another operand, of the root or of a previous node.",
     ["inputs"], "%d query templates over all operators and functions, in four places, all values of the operands" % open("h/Q11.cpp").read().split("static const int NT")[0].count('", "'), "Tests have few nested names and none which are shadowed.", SF + ["src/function.cpp"], [dict(name="evaluation of operands", where="src/simfil.cpp, src/function.cpp: every eval(ctx, val, ..)")],
     {"node": H("Q11.cpp", [N(FROM=i, TO=i+5) for i in range(0, 108, 6)] + [N(FROM=i, TO=i, COMP=1, CONC=1) for i in (0, 20, 31, 36, 46, 57, 62, 79)], [N(FROM=i, TO=i+5) for i in range(0, 108, 6)] + [N(FROM=i, TO=i+3, COMP=1, CONC=1) for i in range(0, 104, 4)], group="lib", reach=["path", "filter", "nodes", "error"])},
     "operands 0..9, objects of depth 2 which repeat all names at every level, two nodes", "8 templates with any other one as operand; thorough: all of them")
