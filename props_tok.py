prop("T01", "Tokenizing any input ends in tokens or a reported error",
     "For every byte string given as a query, tokenizing terminates and either returns a token list or throws a runtime error. It never crashes, reads outside the input, runs into undefined behaviour or throws anything else.",
     ["inputs"], "every byte string, including control characters, NUL and non-ASCII bytes",
     "The tests tokenize a few dozen well-formed snippets; the claim ranges over all byte strings, and crashes hide behind rare byte combinations at the end of the input.",
     TF, [dict(name="scanner that returns NUL past the end and fails explicitly", where="src/token.cpp Scanner"), dict(name="fallthrough to an error", where="src/token.cpp tokenize")],
     {"bytes": H("T01.cpp", [N(N=0), N(N=1), N(N=2), N(N=3)], [N(N=3), N(N=4)], ub=True, reach=["accepted", "rejected"], time=400),
      "kinds": H("T01.cpp", [N(N=4, A=1), N(N=4, A=2), N(N=4, A=3), N(N=3, A=4)], [N(N=6, A=1), N(N=6, A=2), N(N=5, A=3), N(N=4, A=4)], ub=True, reach=["accepted", "rejected"]),
      "long": H("T01.cpp", [N(N=2, PAD=40), N(N=2, PAD=200)], [N(N=3, PAD=40), N(N=3, PAD=300)], ub=True, reach=["accepted", "rejected"])},
     "all byte strings of length 0..3; all strings of length 4 over a number, a literal and a word alphabet, length 3 over operators; all 2-byte endings after 40 and 200 arbitrary letters/digits", "thorough: length 4 over all bytes, 6/6/5/4 over the alphabets, 3-byte endings")
prop("T02", "Tokens cover the input in order and nothing is dropped",
     "Whenever an input is accepted, the token list ends with exactly one end marker, the tokens have non-empty, ordered, disjoint spans inside the input, and everything between them is whitespace or the prefix of a raw or regular expression literal. Each token equals what its own source text means on its own.",
     ["inputs"], "every accepted byte string",
     "The tests check spans of two inputs. Silent loss of input shows only for particular byte combinations.",
     TF, [dict(name="position bookkeeping", where="src/token.cpp Scanner::skip/pos"), dict(name="scan order number, literal, word, syntax", where="src/token.cpp tokenize")],
     {"bytes": H("T02.cpp", [N(N=0), N(N=1), N(N=2), N(N=3)], [N(N=3), N(N=4, ALONE=0)], reach=["accepted", "rejected", "token"], time=400),
      "padded": H("T02.cpp", [N(N=2, PAD=3, POST=2), N(N=1, PAD=9, POST=20), N(N=1, PAD=300, POST=300), N(N=1, LIST=12), N(N=2, LIST=1), N(N=1, BULK=300), N(N=1, BULK=66000)], [N(N=3, PAD=2, POST=1), N(N=2, PAD=40, POST=40)], reach=["accepted", "token"])},
     "all byte strings of length 0..3, and of length 2 between whitespace (3 or 9 characters) and letters (2 or 20), of length 1 between 300 and 300, of length 1-2 after 11 to 120 tokens", "thorough: length 4 (spans only), 3 with surroundings")
prop("T03", "Integer literals have their exact value or are rejected",
     "A decimal, hexadecimal (0x) or binary (0b) literal is read as one integer with exactly the value its digits denote, whatever leading zeros it has. A literal above the largest signed 64 bit integer is rejected, never wrapped or rounded.",
     ["inputs"], "every digit string in each of the three bases",
     "The tests try five literals; the carry, letter-case and range boundaries lie between them.",
     TF, [dict(name="digit accumulation with range check", where="src/token.cpp scanNumber")],
     {"dec": H("T03.cpp", [N(BASE=10, K=k) for k in (1, 2, 3, 6, 8)] + [N(BASE=10, K=2, Z=30), N(BASE=10, MODE=3, K=6), N(BASE=10, MODE=1, K=3), N(BASE=10, MODE=2, K=1)],
               [N(BASE=10, K=k) for k in range(1, 13)] + [N(BASE=10, K=4, Z=60), N(BASE=10, MODE=3, K=10), N(BASE=10, MODE=1, K=5), N(BASE=10, MODE=2, K=3)], ub=True, reach=["in range", "too large"]),
      "hex": H("T03.cpp", [N(BASE=16, K=k) for k in (1, 2, 3, 4)] + [N(BASE=16, K=1, Z=30), N(BASE=16, MODE=3, K=3), N(BASE=16, MODE=1, K=2), N(BASE=16, MODE=2, K=2)],
               [N(BASE=16, K=k) for k in (1, 2, 3, 4, 5, 6)] + [N(BASE=16, MODE=3, K=5), N(BASE=16, MODE=1, K=4), N(BASE=16, MODE=2, K=3)], ub=True, reach=["in range", "too large"]),
      "bin": H("T03.cpp", [N(BASE=2, K=k) for k in (1, 8, 33, 63)] + [N(BASE=2, K=4, Z=70), N(BASE=2, MODE=1, K=6), N(BASE=2, MODE=2, K=2), N(BASE=2, MODE=3, K=8)], [N(BASE=2, K=k) for k in (1, 16, 32, 48, 62, 63)] + [N(BASE=2, MODE=1, K=16), N(BASE=2, MODE=2, K=4)], ub=True, reach=["in range", "too large"])},
     "decimal: all strings of 1,2,3,6,8 digits, 30 zeros + 2, 18 digits with 6 arbitrary; hex: all strings of up to 4 digits, 15 digits with 3 arbitrary; binary: all strings of 1, 8, 33 and 63 digits; around and one digit above 2^63-1 with the last 1..6 digits arbitrary", "thorough: decimal up to 12 digits, hex up to 6, binary of 1, 16, 32, 48, 62, 63")
prop("T04", "Floating point literals denote the number they spell",
     "A literal with a decimal point, or with an exponent other than zero, is read as one floating point number within 1e-12 relative error of the decimal value it spells; an exponent of zero without a decimal point gives an integer. The letter case of the exponent mark and the number of leading or trailing digits make no difference.",
     ["inputs"], "every literal of digits, optional decimal point and optional signed exponent, with a result in the normal range",
     "Eleven literals are tested; the claim is about all digit combinations.",
     TF, [dict(name="fraction and exponent accumulation", where="src/token.cpp scanNumber, parseSciSuffix")],
     {"frac": H("T04.cpp", [N(INTD=1, FRAC=1), N(INTD=0, FRAC=2), N(INTD=2, FRAC=0), N(INTD=1, FRAC=2), N(INTD=1, ZI=8, FRAC=1, ZF=6), N(INTD=1, FRAC=1, ZF=14), N(INTD=0, FRAC=1, ZF=30), N(INTD=1, ZI=14, FRAC=1)], [N(INTD=2, FRAC=1), N(INTD=1, FRAC=2), N(INTD=0, FRAC=3), N(INTD=3, FRAC=0), N(INTD=2, FRAC=1, ZF=9), N(INTD=1, ZI=14, FRAC=2)], reach=["literal"], table=True),
      "sci": H("T04.cpp", [N(FORM=1, INTD=1, EXPD=1), N(FORM=1, INTD=1, EXPD=1, NEG=1), N(FORM=1, INTD=2, EXPD=2, NEG=1), N(FORM=1, INTD=1, EXPD=2)], [N(FORM=1, INTD=2, EXPD=2), N(FORM=1, INTD=2, EXPD=2, NEG=1), N(FORM=1, INTD=3, EXPD=1)], reach=["literal", "integer"]),
      "both": H("T04.cpp", [N(INTD=1, FRAC=1, EXPD=1), N(INTD=1, FRAC=1, EXPD=1, NEG=1), N(INTD=0, FRAC=1, EXPD=2, NEG=1), N(INTD=1, FRAC=0, EXPD=2)], [N(INTD=1, FRAC=2, EXPD=2), N(INTD=1, FRAC=2, EXPD=2, NEG=1), N(INTD=2, FRAC=1, EXPD=1, ZF=4)], reach=["literal"]),
      "range": H("T04b.cpp", [N(FORM=0, ZEROS=30, HI=31, EXPD=1, NEG=1), N(FORM=0, ZEROS=2, HI=3, NEG=1), N(FORM=1, ZEROS=30, HI=32, EXPD=1), N(FORM=1, ZEROS=3, HI=3), N(FORM=2, ZEROS=40, HI=33, EXPD=1, NEG=1), N(FORM=0, HI=9, EXPD=1), N(FORM=2, HI=30, EXPD=1)],
                 [N(FORM=f, ZEROS=z, HI=h, NEG=n) for f, n in ((0, 1), (1, 0), (2, 1), (0, 0), (1, 1)) for z in (0, 50, 150) for h in (0, 3, 4)], reach=["literal", "zero", "in range", "beyond"])},
     "1-2 arbitrary integer and 0-2 arbitrary fraction digits (also among up to 14 fixed integer and 30 fixed fraction digits), arbitrary exponents of 1-2 digits and either sign; one arbitrary digit with up to 40 zeros and exponents up to 399",
     assumptions=["pow() is the host's, evaluated on the finitely many concrete exponents"])
prop("T05", "Malformed numeric literals are rejected",
     "A numeric literal that runs directly into a letter that does not belong to it, into a second decimal point, or into a digit its base does not have is rejected, as is a base prefix or an exponent mark without a digit. It is never split silently into several tokens, whatever surrounds it.",
     ["inputs"], "every numeric literal and every character that may not follow it",
     "Five rejections are tested. Silent splitting changes the meaning of a query without any error.",
     TF, [dict(name="checks after the last digit", where="src/token.cpp scanNumber")],
     {"forms": H("T05.cpp", [N(FORM=f, K=k, TAIL=1, PRE=p) for f in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12) for k, p in ((1, 0), (2, 1))] + [N(FORM=11, K=2, TAIL=0), N(FORM=12, K=1, TAIL=0)] + [N(FORM=10, K=1, TAIL=0)] + [N(FORM=f, K=1, TAIL=1, ZEROS=z) for f in (0, 1, 2, 3, 6, 7, 8, 9, 11, 12) for z in (12, 70)], [N(FORM=f, K=k, TAIL=2, PRE=p) for f in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 12) for k, p in ((1, 0), (3, 1), (2, 2))], reach=["checked"], samples=2)},
     "13 malformed shapes with 1-2 arbitrary digits, every offending character, 0-1 preceding and 1 arbitrary following character", "thorough: 3 digits, 2 surrounding characters on each side")
prop("T06", "Quoted strings keep their text exactly",
     "Any text, written between single or double quotes with the quote character and the backslash escaped, is read back as one string with exactly that text; an escaped n, r or t denotes newline, carriage return or tab, and any other escaped character itself. The literal is one token spanning from quote to quote in any context.",
     ["inputs"], "every text of arbitrary bytes, both quote characters",
     "Six literals are tested; every byte value, escape and neighbouring combination is claimed.",
     TF, [dict(name="escape handling", where="src/token.cpp scanStringLiteral")],
     {"quoted": H("T06.cpp", [N(K=0), N(K=1), N(K=2), N(K=3, CTX=1), N(K=4), N(K=2, PLAIN=30, PLAIN2=30), N(K=1, PLAIN=70, CTX=1), N(K=1, PLAIN=700, PLAIN2=400), N(K=1, PLAIN=66000)], [N(K=5), N(K=6, CTX=1), N(K=3, PLAIN=60, PLAIN2=60)], reach=["literal"]),
      "escaped": H("T06.cpp", [N(K=1, MODE=1), N(K=2, MODE=1), N(K=3, MODE=1), N(K=1, MODE=1, PLAIN=20, PLAIN2=20, CTX=1)], [N(K=4, MODE=1), N(K=5, MODE=1), N(K=2, MODE=1, PLAIN=40, PLAIN2=9, CTX=1)], reach=["literal"])},
     "all texts of up to 4 bytes, 2 arbitrary bytes between 30+30 ordinary ones, up to 3 escaped arbitrary bytes; inside an expression", "thorough: 6 bytes, 3 between 60+60")
prop("T07", "Raw strings and regular expressions; unterminated literals fail",
     "In a literal prefixed with r or R (raw string) or re or RE (regular expression) a backslash is kept as it is, except directly before the closing quote character, where it makes the quote part of the text. Any literal that is not closed is an error.",
     ["inputs"], "every literal body of arbitrary bytes, four prefixes, both quotes",
     "Backslash runs, quote kinds and prefixes combine in more ways than the ten tested literals.",
     TF, [dict(name="prefix detection and raw escapes", where="src/token.cpp scanStringLiteral")],
     {"closed": H("T07.cpp", [N(K=0), N(K=1), N(K=2), N(K=3), N(K=2, PLAIN=40), N(K=1, PLAIN=700)], [N(K=4), N(K=5), N(K=3, PLAIN=80)], reach=["closed", "open"]),
      "open": H("T07.cpp", [N(K=0, MODE=1), N(K=1, MODE=1), N(K=2, MODE=1), N(K=3, MODE=1), N(K=2, PLAIN=40, MODE=1), N(K=1, PLAIN=700, MODE=1)], [N(K=4, MODE=1), N(K=5, MODE=1)], reach=["unterminated"])},
     "all bodies of up to 3 bytes, and 40 ordinary characters followed by 2 arbitrary bytes", "thorough: 5 bytes")
prop("T08", "Names keep their spelling, with escapes for any character",
     "A name of letters, digits and underscores (starting with a letter, underscore or $) is read as one name token with exactly that spelling and letter case. A backslash makes any following character, whatever byte it is, part of the name.",
     ["inputs"], "every name and every escaped byte",
     "Six names are tested; field names in data are arbitrary.",
     TF, [dict(name="word scanner", where="src/token.cpp scanWord")],
     {"plain": H("T08.cpp", [N(K=1), N(K=2), N(K=4), N(K=3, CTX=1), N(K=7, CTX=1), N(K=60), N(K=300, CTX=1)], [N(K=8, CTX=1), N(K=12), N(K=600)], reach=["name"]),
      "escapes": H("T08.cpp", [N(K=0, ESC=1), N(K=1, ESC=1, MORE=1), N(K=2, ESC=2, AT=1, MORE=2), N(K=0, ESC=3, CTX=1), N(K=30, ESC=1, AT=1, MORE=10)], [N(K=2, ESC=4, AT=1, MORE=2), N(K=0, ESC=5)], reach=["name"])},
     "all names of 1,2,3,4,7,60,300 characters; up to 3 escaped arbitrary bytes at the start or inside", "thorough: up to 600 characters, 5 escapes")
prop("T09", "Exactly nine reserved words, in any letter case",
     "The words and, or, not, typeof, as, true, false, null and the single underscore are read as their own kind of token in every mixture of upper and lower case and in any position. Every other word is a name.",
     ["inputs"], "every word, every letter case, every position",
     "One keyword is tested in four letter cases.",
     TF, [dict(name="keyword table on the lower-cased word", where="src/token.cpp scanWord")],
     {"reserved": H("T09.cpp", [N(MODE=0), N(MODE=0, PRE=1, POST=1), N(MODE=0, PRE=3, POST=2)], reach=["keyword"]),
      "words": H("T09.cpp", [N(MODE=1, K=k) for k in (1, 2, 3, 4, 5, 6, 7)] + [N(MODE=2, K=4), N(MODE=2, K=8)], [N(MODE=1, K=k) for k in range(1, 13)] + [N(MODE=2, K=k) for k in (3, 4, 5, 6, 7, 9)], reach=["keyword", "name"])},
     "each reserved word in all letter cases with up to 3 preceding and 2 following characters; all words of 1-7 letters, of 4 and 8 letters and digits", "thorough: 1-12 letters")
prop("T10", "Operators and punctuation follow longest match",
     "A run of operator and punctuation characters is split by longest match, and every operator spelling gives its own token: in particular <<, >>, <=, >=, ==, !=, ** and ... are never confused with each other or with their parts. A lone exclamation mark is an error.",
     ["inputs"], "every sequence of operator and punctuation characters",
     "Five operators are tested; the claim is about every operator and every neighbouring pair or triple.",
     TF, [dict(name="ordered operator table", where="src/token.cpp scanSyntax")],
     {"runs": H("T10.cpp", [N(N=1), N(N=2), N(N=3), N(N=2, ENDS=1), N(N=3, WS=1)], [N(N=4), N(N=4, WS=1), N(N=3, ENDS=1)], reach=["operators", "lone !"])},
     "all sequences of up to 3 characters out of the 25 operator and punctuation characters (and blank), bare and between names", "thorough: 4 characters")
prop("T11", "Whitespace only separates tokens",
     "Two valid pieces of input joined by any whitespace give the tokens of the first followed by those of the second, at positions shifted accordingly; leading and trailing whitespace changes nothing but positions. An invalid piece stays invalid after a valid one.",
     ["inputs"], "every pair of inputs and every whitespace sequence",
     "Tests use single blanks between a handful of tokens.",
     TF, [dict(name="whitespace skipping", where="src/token.cpp skipWhitespace")],
     {"join": H("T11.cpp", [N(A=1, B=1, W=1), N(A=0, B=2, W=2), N(A=2, B=0, W=0, TRAIL=2), N(A=1, B=1, W=3, LEAD=2, TRAIL=1), N(A=2, B=1, W=1), N(A=1, B=2, W=1), N(A=1, B=1, W=1, BULK=300), N(A=1, B=0, W=0, BULK=5000)], [N(A=2, B=1, W=2, LEAD=1, TRAIL=1), N(A=1, B=2, W=2, LEAD=1), N(A=2, B=2, W=1), N(A=3, B=0, W=0, LEAD=1, TRAIL=1)], reach=["accepted", "rejected", "second rejected"], time=400)},
     "all byte strings of 1-2 characters on either side (3 together), 0-3 whitespace characters between, up to 2 around", "thorough: 2+2 and 3 characters")
prop("T12", "Tokenizing has no memory of earlier inputs",
     "Tokenizing the same input gives the same tokens, positions, values or error again, no matter which other inputs, valid or not, were tokenized in between.",
     ["inputs", "histories"], "every pair of inputs",
     "Each test tokenizes fresh inputs; state kept between calls would show only for particular pairs.",
     TF, [dict(name="no mutable state outside the scanner", where="src/token.cpp tokenize")],
     {"pairs": H("T12.cpp", [N(X=1, Y=1), N(X=1, Y=2), N(X=2, Y=1), N(X=1, Y=1, MODE=1), N(X=1, Y=1, MODE=2), N(X=1, Y=1, MODE=3), N(X=1, Y=1, REP=20), N(X=2, Y=0, REP=3)], [N(X=2, Y=2), N(X=2, Y=2, MODE=1), N(X=2, Y=2, MODE=2), N(X=2, Y=2, MODE=3)], reach=["accepted", "rejected"], time=400)},
     "all pairs of byte strings of lengths 1+1, 1+2 and 2+1, also inside number, string and regular expression literals, and with 80 other inputs in between", "thorough: 2+2")
prop("T13", "A printed token reads back as the same token",
     "The printed form of an operator, punctuation, reserved word, plain name, integer, or string or regular expression without quotes and backslashes is read as one token of the same kind and value.",
     ["inputs"], "every such token that any input produces",
     "No test prints tokens; error messages and debugging output rely on it.",
     TF, [dict(name="token spelling", where="src/token.cpp Token::toString")],
     {"any": H("T13.cpp", [N(N=1), N(N=2), N(MODE=1), N(MODE=2), N(MODE=2, MUL=30000000000000000), N(MODE=3, K=2), N(MODE=3, K=2, HEAD=9223372036854775807), N(MODE=3, K=2, HEAD=99)], [N(N=3), N(MODE=1), N(MODE=2, MUL=123456789), N(MODE=3, K=3, HEAD=9223372036854775807)], reach=["printed"], time=400)},
     "all tokens of all byte strings of up to 2 characters, all reserved words and multi-character operators, 600 integers up to 19 digits, 100 consecutive integers around 2^53 and 2^63", "thorough: strings of 3 characters")
prop("T14", "Foreign characters are rejected, not skipped",
     "Outside quoted literals and escapes, an input that contains a character with no meaning in the language - NUL and other control characters, non-ASCII bytes, or one of @ ; ` - is rejected with an error.",
     ["inputs"], "every foreign byte in every surrounding",
     "No test uses a foreign character. Skipping one silently changes or truncates a query.",
     TF, [dict(name="error for anything no scanner takes", where="src/token.cpp tokenize")],
     {"foreign": H("T14.cpp", [N(PRE=0, POST=0), N(PRE=0, POST=2), N(PRE=1, POST=1), N(PRE=2, POST=1), N(PRE=3, POST=0), N(PRE=1, POST=1, BULK=300)], [N(PRE=2, POST=2), N(PRE=4, POST=1)], reach=["foreign"])},
     "every foreign byte after up to 3 characters of an 8 character alphabet and before up to 2 arbitrary bytes", "thorough: 4 before")
EF = ["src/exception-handler.cpp", "include/simfil/exception-handler.h"]
prop("E01", "A raised error reaches the handler once and is then thrown",
     "Raising an error always throws an error of exactly the requested type and contents. If a handler is installed it is called exactly once, before the throw, with the type's name and the error's message (empty if it has none); a cleared or replaced handler is not called, and an exception leaving the handler is passed on.",
     ["inputs", "histories"], "every message, every handler history (unset, set, cleared, replaced, throwing), repeated raising",
     "No test covers the handler at all.",
     EF, [dict(name="handler call before throw", where="include/simfil/exception-handler.h raise"), dict(name="single registry", where="src/exception-handler.cpp ThrowHandler::instance/set/get")],
     {"raise": H("E01.cpp", [N(MODE=m, N=n) for m in range(5) for n in ((0, 2) if m < 4 else (0,))] + [N(MODE=0, N=40), N(MODE=1, N=20, ROUNDS=3)], [N(MODE=m, N=5, ROUNDS=4) for m in range(5)] + [N(MODE=0, N=200)], reach=["handled", "unhandled", "handler throws"], samples=3)},
     "five error types, messages of 0, 2, 20 and 40 arbitrary characters, arbitrary 64 and 32 bit error fields, five handler histories, up to 3 successive errors")
prop("E02", "Tokenizer errors are reported once, with position and rest",
     "Each rejected input raises one error, reported once to an installed handler with the same text the caller gets, and an accepted input reports none. The message ends with the position of the error and the input from there on; for a foreign character after a valid beginning that position is the character's own.",
     ["inputs"], "every rejected input without NUL characters",
     "Tests only check that something is thrown.",
     TF + EF, [dict(name="error construction", where="src/token.cpp Scanner::fail")],
     {"errors": H("E02.cpp", [N(N=1), N(N=2), N(N=2, MODE=1), N(N=2, MODE=2), N(N=2, MODE=3), N(N=1, MODE=4), N(N=1, MODE=4, PAD=120), N(N=1, POST=300), N(N=1, MODE=1, POST=70)], [N(N=3), N(N=3, MODE=1), N(N=3, MODE=2), N(N=3, MODE=3), N(N=2, MODE=4, PAD=1000)], reach=["handled", "unhandled", "accepted", "foreign character"], time=400)},
     "all inputs of up to 2 characters, alone, after a valid beginning, in an open string, after a digit, after 12 or 120 whitespace characters, and before 70 or 300 letters", "thorough: 3 characters, 1000 whitespace characters",
     assumptions=["inputs with NUL are excluded: the message is a C string"])
