#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script only so the text is easy to edit)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":list(files),"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state:a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe:a["observe_at"]=list(observe)
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},"why_tests_cant":why,"anchors":a})
PARSER="src/expr/parser.rs";LEXER="src/expr/lexer.rs";EXPR="src/expr.rs";TARG="src/targets.rs";BI="src/targets/builtins.rs";ERR="src/error.rs";UPD="update/src/main.rs"

p("C01","Parsing any string returns a result and never panics",
 "Parsing terminates with an expression or an error for every input string, of any length, nesting depth and Unicode content, in debug and release builds alike. It never panics: no slicing off a character boundary or out of range, no arithmetic overflow of a nesting or predicate counter, no failed unwrap or reached 'unreachable' point.",
 ["inputs"],"every UTF-8 string, including deep nesting, hundreds of siblings, multi-byte characters next to every delimiter, and truncated input",
 "The tests parse about fifty short ASCII strings; the panic conditions depend on string length, nesting width and character widths that none of them reach.",
 [PARSER,LEXER],[("Expression::parse main loop",PARSER),("Lexer::next slicing",LEXER)],
 [("nesting/predicate counters","children seen so far by each open function","%s FuncAndSpan"%PARSER)],["Expression::parse","Lexer as Iterator"])
p("C02","Parsing accepts exactly the cfg() grammar",
 "A token sequence is accepted if and only if it is one root predicate, optionally followed by one trailing comma, where a predicate is a key, a key = \"value\", all(list), any(list) or not(list), a list is a possibly empty comma separated sequence of predicates with at most one trailing comma, and not's list has exactly one element. Missing, doubled, leading or misplaced commas, equals signs, parentheses and keywords, unbalanced parentheses, and more than one root predicate (of any kind) are all rejected with an error, as is any text the lexer cannot split into tokens. (A predicate whose key is an unknown target_ key, or whose value its key does not allow, is rejected for that reason, apart from the grammar.)",
 ["inputs"],"every sequence of tokens the lexer can produce",
 "The set of token sequences is infinite and nested; the tests list about twenty rejected and twenty accepted ones, none with function predicates as several roots or repeated commas.",
 [PARSER],[("last_token checks per token kind",PARSER),("root predicate count and final checks",PARSER)],
 [("last_token","the previous token, which decides what may follow",PARSER),("func_stack","the functions still open",PARSER),("root_predicate_count","root predicates seen",PARSER)],["Expression::parse"])
p("C03","A parsed expression has the structure of its source text",
 "For every accepted text, each all(), any() and not() in the parsed expression combines exactly the predicates written directly between its own parentheses: none lost, none duplicated, none attached to another function, at any nesting depth and any position of nested functions among plain predicates. Evaluating it therefore gives the value obtained by reading the text recursively.",
 ["inputs"],"every accepted expression, any nesting depth, width and interleaving of plain and function predicates",
 "Structure errors appear only for particular interleavings of nested functions and plain predicates (and wide or deep nesting); the tests evaluate a handful of fixed shapes.",
 [PARSER,EXPR],[("counting of direct children when a function is closed",PARSER),("postfix emission order",PARSER)],
 [("per-function predicate list and nested-function count","children of an open function",PARSER),("postfix queue","nodes emitted so far","%s Expression"%EXPR)],["Expression::eval","Expression::predicates"])
p("C04","eval folds results with the caller's logic and never panics",
 "For every parsed expression, every result type implementing Logic and every callback, eval calls the callback exactly once for each predicate occurrence, combines an all() of n predicates as the top element and-ed with exactly those n results, an any() as the bottom element or-ed with exactly those n results, and not() as the negation of its single result, returns the value of the root, and never panics. The predicates() iterator yields those same predicates, in the same order as eval hands them to the callback.",
 ["inputs","programs"],"every parsed expression x every Logic implementation x every predicate callback",
 "The tests evaluate fixed expressions with bool and a few Option<bool> callbacks; other Logic types, widths and shapes are not reachable from them.",
 [EXPR],[("eval's postfix loop and result stack",EXPR),("predicates iterator",EXPR)],
 [("result_stack","values of completed sub-expressions",EXPR)],["Expression::eval","Expression::predicates"])
p("C05","Each key denotes its own predicate kind, with or without a value",
 "unix and windows denote target_family predicates; test, debug_assertions and proc_macro denote their own predicates; each of these five is rejected when given a value. feature, panic and the ten recognised target_* keys (abi, arch, feature, os, family, env, endian, has_atomic, pointer_width, vendor) each denote their own predicate, are rejected without a value, and any other target_ key is rejected; every other key is a plain flag when bare and a key-value pair when given a value.",
 ["inputs"],"every key (any identifier) x value presence, in every position of an expression",
 "Keys are arbitrary identifiers; the tests parse only a few of the known keys, most only as part of one fixed expression, and almost none of the forbidden combinations.",
 [PARSER,EXPR],[("key classification",PARSER),("conversion of stored predicates to public ones","%s to_pred"%EXPR)],observe=["Expression::parse","Expression::predicates"])
p("C06","Predicates carry the exact text or value that was written",
 "The string in every predicate handed to a caller (abi, arch, os, family, env, vendor, panic, feature, target_feature, flag, key and value) is exactly the identifier, or exactly the characters between the quotes, of that predicate's own occurrence in the source. target_endian accepts only big and little, target_has_atomic only an integer that fits or ptr, target_pointer_width only an integer that fits, target_feature only a non-empty value, and the predicate carries the value that was written.",
 ["inputs"],"every predicate occurrence in every accepted expression, any key and value text including empty, spaced and multi-byte values",
 "Tests compare a dozen single-predicate inputs; the stored spans must stay right at every offset, nesting position and value content.",
 [PARSER,EXPR,TARG],[("key and value spans recorded by the parser",PARSER),("slicing of the original by span","%s to_pred"%EXPR),("FromStr for Endian and HasAtomic",TARG)],observe=["Expression::predicates","Expression::eval"])
p("C07","The lexer splits text into the defined tokens and always makes progress",
 "After skipping whitespace, the lexer yields '=', '(', ')' and ',' as themselves, a maximal run [A-Za-z_][A-Za-z0-9_]* as a key (or as all/any/not when it is exactly that word), and a double-quoted run as a value without its quotes (everything up to the next quote, no escapes); an unterminated quote or any other character is an error. Every token consumes at least one character and lexing resumes right after it, so iterating the lexer to the end always stops; after an error it yields nothing more.",
 ["inputs"],"every UTF-8 string and every position in it",
 "Six lexer tests on ASCII text; identifier and whitespace classes range over all of Unicode, and adjacency, maximal-munch and progress hold only if they hold at every position.",
 [LEXER],[("Lexer::next",LEXER),("is_ident_start / is_ident_rest",LEXER),("Token::len",LEXER)],
 [("inner/offset","rest of the text and its byte position in the original",LEXER)],["Lexer as Iterator"])
p("C08","Token and error spans are valid ranges of the text they refer to",
 "Every token's span, and the span of every parse error, satisfies start <= end <= length of the text in which it is reported, lies on character boundaries, and so can be used to slice that text; a token's span covers exactly that token's characters. The text in an error is the text that was parsed (without an enclosing cfg( )), the same text its span refers to.",
 ["inputs"],"every token of every text and every error of every rejected text",
 "Spans are compared for about twenty ASCII errors; every error path at every offset with multi-byte text around it is out of the tests' reach.",
 [LEXER,PARSER,ERR],[("offset bookkeeping","%s Lexer::next"%LEXER),("spans in every ParseError construction",PARSER)],observe=["ParseError.span","LexerToken.span"])
p("C09","The bool and Option<bool> logics obey their truth tables",
 "For bool, top, bottom, and, or, not are true, false, conjunction, disjunction, negation. For Option<bool>, they are Kleene's strong three-valued logic: and is false if either side is false, true if both are true, otherwise unknown; or is the dual; not maps unknown to unknown; top and bottom are known true and known false.",
 ["inputs"],"all operand combinations of both implementations",
 "The tests evaluate only and with (false, unknown) and (true, unknown), and the doc test one or; the other cells, and both argument orders, are not exercised.",
 [EXPR],[("impl Logic for bool",EXPR),("impl Logic for Option<bool>",EXPR)],observe=["Expression::eval"])
p("C10","Matching a target's info compares each predicate with its own field",
 "For every target description, a predicate matches if and only if it equals that description's own field of the same kind: arch, endianness, pointer width and panic strategy by equality, families and atomics by membership. A missing abi or env matches only the empty string, a missing os only \"none\", a missing vendor only \"unknown\"; a present one matches by exact equality only.",
 ["inputs"],"every target description (built-in or user-made, any field present or missing) x every target predicate",
 "Tests match builtin targets against their own values and a few fixed predicates; user-made descriptions and the negative combinations are an unbounded space.",
 [EXPR],[("TargetMatcher for TargetInfo",EXPR)],observe=["TargetPredicate::matches"])
p("C11","Builtin lookup by triple is exact",
 "Looking up a string finds a builtin target if and only if some builtin has exactly that triple, and returns that target. The builtin list is strictly sorted by triple, so there are no duplicates and every builtin is found.",
 ["inputs"],"every string looked up, every builtin target",
 "The ordering test covers the list but only a few triples are ever looked up and no absent, near-miss or differently cased one is.",
 [TARG,BI],[("get_builtin_target_by_triple",TARG),("ALL_BUILTINS order",BI)],observe=["get_builtin_target_by_triple","ALL_BUILTINS"])
p("C12","The builtin target data is what rustc of the stated version reports",
 "Every builtin target's os, abi, arch, env, vendor, families, pointer width, endianness, atomics and panic strategy are those rustc (of the version returned by rustc_version) reports for that triple, for exactly the targets that rustc lists, and the README names the same version. Every named constant of Abi, Arch, Vendor, Os, Family, Env and Panic holds the string its name spells, and every named families/atomics group holds exactly the members its name lists, in sorted order.",
 ["configurations"],"every builtin target x every field, every named constant",
 "The tests read the same table on both sides of their comparisons, so a wrong endianness, atomics, abi, panic or pointer width of one of 287 targets goes unnoticed.",
 [BI,TARG,"README.md"],[("ALL_BUILTINS",BI),("named constants",BI)],observe=["ALL_BUILTINS","rustc_version"])
p("C13","Matching a parsed triple agrees with matching the builtin target",
 "For every builtin target whose triple target-lexicon can parse, and every arch, endian, env, family, os, pointer width or vendor predicate over values that occur in the builtin list (plus the empty env and os \"none\"), matching the parsed triple gives the same answer as matching the builtin target's info, with the one exception of the vendor of mips64-openwrt-linux-musl.",
 ["inputs","configurations"],"every parsable builtin triple x every builtin predicate value, positive and negative",
 "The tests compare the two only for the predicates of a few fixed expressions and each target's own values; almost all negative pairs (roughly 28,000) are never compared.",
 [EXPR],[("TargetMatcher for target_lexicon::Triple",EXPR)],observe=["TargetPredicate::matches with a Triple (feature targets)"])
p("C14","Abi, atomics and panic predicates never match a parsed triple",
 "Matching any target-lexicon triple, builtin or custom, against a target_abi, target_has_atomic or panic predicate gives false, whatever the value, and matching any triple against any predicate never panics.",
 ["inputs"],"every triple that target-lexicon can represent x every target predicate",
 "The tests skip these predicates for triples or look at five triples; custom triples are unbounded.",
 [EXPR],[("TargetMatcher for target_lexicon::Triple",EXPR)],observe=["TargetPredicate::matches with a Triple (feature targets)"])
p("C15","Family and atomics sets compare and match independently of order",
 "Two Families (or HasAtomics) built from the same members in any order are equal, and equal to the corresponding builtin set; contains is true exactly for the members; iterating yields the members in sorted order.",
 ["inputs"],"every collection of families or atomics, in every order",
 "One test compares one pair of two-element families; atomics and longer lists are untested.",
 [TARG,BI],[("Families::new / HasAtomics::new sorting",TARG),("new_const groups",BI)],observe=["Families","HasAtomics"])
p("C16","Field types keep their text, and text forms of atomics and endianness agree",
 "A Triple, Abi, Arch, Vendor, Os, Family, Env or Panic built from any string by any constructor gives back exactly that string from as_str, as_ref and Display, and two are equal exactly when the strings are. Parsing a HasAtomic accepts exactly a u16 decimal or ptr and prints back as that number or ptr, so printing and parsing are inverse; parsing an Endian accepts exactly big and little and yields that one.",
 ["inputs"],"every string, every HasAtomic value",
 "Display of these types and HasAtomic printing are not tested at all, and parsing for four fixed strings.",
 [TARG],[("field_impls!",TARG),("FromStr/Display for HasAtomic",TARG),("target_enum!",TARG)],observe=["as_str, as_ref, Display, FromStr"])
p("C17","The library is silent, pure and deterministic",
 "No function of the library reads or writes files, environment, standard streams, clocks, network, processes, threads or mutable global state, on any path; results depend on the arguments alone. The library contains no unsafe code.",
 ["inputs","histories","schedules"],"every public function, every path through it, any call history or thread interleaving",
 "Tests observe return values only; a stray print, environment read or cached global on a rarely taken path passes them all.",
 ["src/lib.rs",EXPR,PARSER,LEXER,TARG,ERR],[("call graph from every function of the crate","src/")],observe=["whole library"])
p("C18","Parsed expressions and targets are owned, immutable and shareable",
 "Expression, ParseError, Reason, TargetInfo and the field types own their data (no borrow of the parsed string), can be sent to and shared between threads, and evaluating or inspecting them needs only a shared reference. Predicates handed to the callback borrow only from the expression, and builtin targets are available for the whole program.",
 ["programs","schedules"],"every client program that stores, shares or sends these values",
 "Trait and lifetime guarantees are properties of all client programs; the tests compile only a few uses.",
 [EXPR,TARG,ERR],[("type definitions and method signatures","src/")],observe=["auto traits and signatures"])
p("C19","Expression equality and original() are exactly the parsed text",
 "original() returns the parsed text, with an enclosing cfg( ) removed and nothing else changed; an enclosing cfg( ) is removed only when the text both starts with cfg( and ends with ). Two expressions are equal if and only if their original texts are identical, and a clone is equal to and evaluates like its source.",
 ["inputs"],"every accepted text and pair of texts",
 "One doc test compares two pairs and one original; wrapper removal is tested with one text.",
 [EXPR,PARSER,LEXER],[("PartialEq for Expression",EXPR),("original field set by parse",PARSER),("Lexer::new",LEXER)],observe=["Expression::original","Expression == Expression","Lexer::new"])
p("C20","Errors display without panicking and describe their reason",
 "Formatting any parse error, including one built by a caller with any text and span, never panics; the output starts with the error's text, a newline and as many spaces as the span's start, and ends with the message of its reason. Every reason has its own distinct message, which Display and description both take from the same reason.",
 ["inputs"],"every ParseError value (any original, span and reason)",
 "No test formats an error.",
 [ERR],[("Display for ParseError / Reason",ERR),("Error::description",ERR)],observe=["Display, Error::description"])
p("C21","The update tool writes only complete, successfully gathered data",
 "The update tool changes files only after both the target data and the README text were assembled without error; any failing rustc call, unreadable output or missing mandatory field ends it with a failure status before anything is written. An unrecognised cfg key stops it instead of being dropped, and each recognised key fills its own field.",
 ["fault_sequences","inputs"],"every failure point of the tool and every cfg key rustc may print",
 "The tool has no tests; failure points need rustc or the file system to fail.",
 [UPD],[("main / assemble / finalize",UPD)],observe=["src/targets/builtins.rs and README.md on disk, exit status"])
p("C22","Parsing and evaluation take time and memory linear in the text",
 "Parsing a text of n bytes and evaluating the result take O(n) time and memory.",
 ["inputs"],"every input length","No test measures cost.",
 [PARSER,LEXER,EXPR],[("single pass loops",PARSER)],observe=["run time"])
p("C23","Equality, ordering and hashing of the public types agree",
 "For every public type that has these impls (field types, HasAtomic, Endian, Families, HasAtomics, TargetInfo, TargetPredicate, Predicate, Func, Token, Reason, ParseError): two values are equal exactly when they are of the same kind and all their contents are equal. Where a type is ordered, cmp answers Equal exactly for equal values, reverses when its arguments are swapped and agrees with partial_cmp, and field types are ordered as their texts. Equal values give a hasher the same input, whether their text or list is borrowed or owned.",
 ["inputs","histories"],"every pair of values of each public type, in every representation",
 "Tests compare a handful of values with assert_eq; an equality that ignores a field, or a hash that differs between equal values, shows only in maps, sets and sorted collections of particular values.",
 [TARG,EXPR,LEXER,ERR],[("derives on the public types","src/"),("impl ordering of Families / HasAtomics",TARG)],observe=["==, cmp, partial_cmp, Hash of public types"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
