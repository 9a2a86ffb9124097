prop("R01", "One compiled query may be evaluated by several threads at once",
     "Evaluating a compiled query changes no memory which another evaluation, of the same query on the same environment and model, may use at the same time, unless atomically or under a lock. Concurrent evaluations each give the result of an evaluation alone.",
     ["inputs", "schedules"], "every value in the model, every schedule of two evaluations", "Tests are single threaded.", ["src/simfil.cpp", "src/function.cpp", "src/environment.cpp", "src/model/nodes.cpp"], [dict(name="mutable members of expressions", where="src/simfil.cpp FieldExpr, CallExpression"), dict(name="warnMtx, traceMtx", where="src/environment.cpp")],
     {"race": H("R01.cpp", [N(FROM=a, TO=a + 10) for a in range(0, 70, 10)], group="lib", ub=True, san="thread", reach=["two"])},
     "67 queries covering all expression kinds and functions, each in its four modes",
     assumptions=["absence of unsynchronized writes to existing memory is taken to make the evaluations independent; that a lock protects all accesses to what is written under it is left to P05 and N02"])
prop("X02", "User-defined functions and types take part in queries",
     "A registered function is called by its name, in any case, with its arguments as written, and its values, or null if it gives none, are the values of the call. An operator, cast or word operator on a value of a user-defined type calls the type's operation once, with the operator's name and the operands on their sides, and gives its result; an operation the type rejects is a runtime error, and all temporary objects are released.",
     ["inputs"], "every operator, value and answer of the type", "Tests define one type with a few operators.", ["src/simfil.cpp", "include/simfil/operator.h", "include/simfil/typed-meta-type.h"], [dict(name="operator dispatch", where="include/simfil/operator.h UnaryOperatorDispatcher, BinaryOperatorDispatcher; src/simfil.cpp UnaryWordOpExpr, BinaryWordOpExpr, UnpackExpr")],
     {"user": H("X02.cpp", [N(), N(PART=1), N(PART=1, FROM=11), N(PART=2)], group="lib", ub=True, reach=["scalar", "invalid", "object", "functions", "kinds"])},
     "44 operator expressions, 3 kinds of answers; 12 queries with a user-defined function")
prop("N01", "Functions and constants are found by name, in any case",
     "A function or constant registered in an environment, and every built-in function, is found under its name in any combination of upper and lower case and under no other name; a later registration of the same name replaces the function. Calling an unknown function is a runtime error naming it, and an environment without string pool cannot be made.",
     ["inputs"], "every name", "Tests call functions by their exact name.", ["src/environment.cpp", "include/simfil/environment.h", "src/simfil.cpp"], [dict(name="CaseInsensitiveCompare orders the maps of functions and constants", where="include/simfil/environment.h CaseInsensitiveCompare")],
     {"order": H("N01.cpp", [N(N=2), N(N=1, PAD=40)], [N(N=3), N(N=2, PAD=300)], group="lib", ub=True, reach=["order"]),
      "functions": H("N01.cpp", [N(PART=1, FROM=a, TO=a + 3) for a in range(0, 17, 3)], group="lib", ub=True, reach=["found", "builtin", "unknown"]),
      "queries": H("N01.cpp", [N(PART=2), N(PART=3), N(PART=4), N(PART=2, PAD=70), N(PART=3, PAD=70)], group="lib", ub=True, reach=["call", "constant", "null"])},
     "comparator on all triples of byte strings up to 2 bytes; 17 names of up to 6 letters, each letter in either case, one of them replaced by any character", "thorough: triples up to 3 bytes")
prop("N02", "Warnings and traces may be recorded by several threads",
     "Environment::warn and Environment::trace may be called by several threads at the same time: there is no data race, every warning and every traced call is kept exactly as given, and no lock stays held, not even when the callback throws.",
     ["schedules", "inputs"], "every schedule of two operations, every traced value", "Tests are single threaded.", ["src/environment.cpp"], [dict(name="warnMtx, traceMtx", where="src/environment.cpp Environment::warn, Environment::trace")],
     {"two": H("N02.cpp", [N(SAME=1), N()], group="lib", ub=True, san="thread", reach=["two"])},
     "two threads with one operation each, after 0 to 2 earlier ones",
     assumptions=["threads run one after the other; a race is a write without lock to memory the other thread can see, or an access without the lock under which the other thread writes"])
prop("D01", "The debug interface observes evaluations without changing them",
     "With a debug interface installed, a query compiles and evaluates to the same result or error. evalBegin is called for every evaluated expression with the evaluation's context, starting with the query on the root, and evalEnd for every expression whose evaluation ends normally, innermost first.",
     ["inputs"], "every value in the model", "Tests never install a debug interface.", ["include/simfil/expression.h", "src/simfil.cpp"], [dict(name="Expr::eval wraps ieval", where="include/simfil/expression.h Expr::eval")],
     {"debug": H("D01.cpp", [N(FROM=a, TO=a + 10) for a in range(0, 60, 10)], group="lib", ub=True, reach=["debug"])},
     "60 queries covering all expression kinds and functions, each in its four modes")
prop("G01", "Regular expressions match whole strings",
     "A string compared with a regular expression by == gives the string if all of it matches the pattern and false otherwise, and != the opposite, on either side. Null gives null, any other value never matches; invalid patterns and all other operators are runtime errors.",
     ["inputs"], "every string of up to 3 bytes", "Tests match a handful of strings.", ["src/types.cpp", "src/function.cpp", "src/simfil.cpp"], [dict(name="ReType", where="src/types.cpp ReType::make, ReType::binaryOp, ReType::unaryOp"), dict(name="re()", where="src/function.cpp ReFn::eval")],
     {"match": H("G01.cpp", [N(N=3, FROM=a, TO=a + 3) for a in range(0, 18, 3)], [N(N=4, FROM=a, TO=a + 2) for a in range(0, 18, 2)], group="lib", ub=True, reach=["match"]),
      "others": H("G01.cpp", [N(PART=1)], group="lib", ub=True, reach=["other"])},
     "18 patterns (characters, classes, repetition, groups, alternatives, back references, anchors) on all byte strings up to 3 bytes; 14 other operators on all kinds of values", "thorough: strings up to 4 bytes",
     assumptions=["std::regex is the one of libstdc++ 13, executed as compiled, in the C locale; long texts, which it matches recursively, are outside the bounds"])
