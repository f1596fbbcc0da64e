#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

TOK = ["src/token.cpp", "include/simfil/token.h"]
p("C01", "Number literals denote exactly the number that is written, or are rejected",
  "Tokenizing a number literal (decimal, 0x/0b prefixed, with fraction, with e/E exponent) yields one integer token with exactly the written value if it has no fraction and a zero exponent, and otherwise a floating point token with the double nearest to the written value (infinity beyond the largest one, zero below half of the smallest one). A literal that is malformed (prefix without digits, digit outside of the base, exponent without digits, letter or dot glued to the number, integer beyond the 64 bit range) raises an error; it never yields a different number.",
  ["inputs"], "All byte strings containing number literals, including those next to any other character, at the limits of the integer range, with very long digit strings and with every combination of base, fraction and exponent.",
  "The tokenizer tests check 20 literals; the number grammar has several interacting options (base x fraction x exponent x following character x overflow) whose combinations are unbounded.",
  TOK, [("scanNumber", "src/token.cpp")], observe=["simfil::tokenize"])
p("C02", "String literals denote exactly the quoted text",
  "A quoted string, raw string (r/R prefix) or regular expression literal (re/RE prefix) tokenizes to the text between its quotes, with backslash escapes resolved as documented for plain strings and backslashes kept for raw ones, and ends at the first unescaped matching quote. An unterminated literal or unfinished escape raises an error; no byte of the text is lost, added or reordered, whatever bytes (NUL included) it contains.",
  ["inputs"], "All byte strings as literal content, both quotes, all prefixes, escapes at every position including the end of input.",
  "The tests check a dozen literals; the interaction of quote kind, prefix, escape position and end of input is unbounded.",
  TOK, [("scanStringLiteral", "src/token.cpp")], observe=["simfil::tokenize"])
p("C03", "Words, keywords and operators tokenize by longest match",
  "Every operator or punctuation sequence is split by longest match into the tokens of the documented operators, keywords are recognized in any letter case but only as whole words, and any other word becomes one word token with exactly its letters (backslash escapes resolved). Tokens are independent of the white space around them: inserting white space between two tokens never changes the result.",
  ["inputs"], "All sequences of operators, words, keywords in any case, and white space.",
  "The tests tokenize each operator once on its own; sequences of operators, prefixes of operators and keyword-like words are not sampled.",
  TOK, [("scanSyntax", "src/token.cpp"), ("scanWord", "src/token.cpp")], observe=["simfil::tokenize"])
p("C04", "Tokenizing is total: it covers the whole input or reports where it failed",
  "For every byte string tokenizing terminates and either returns the tokens in source order, with disjoint source ranges inside the input between which only white space (and literal prefixes) lies, closed by one end token, or raises a runtime error that reports the position where it failed (the character which begins no token, a place inside of a malformed number, or the end of the input if a literal or an escape sequence has no end) and the rest of the input from there. No part of the input is ever silently dropped.",
  ["inputs"], "All byte strings, including NUL and non-ASCII bytes, of any length.",
  "One test checks the positions of one expression; dropped input or wrong positions elsewhere pass unnoticed.",
  TOK, [("tokenize", "src/token.cpp"), ("Scanner::fail", "src/token.cpp")],
  state=[("Scanner", "remaining input and position", "src/token.cpp")], observe=["simfil::tokenize", "Token::begin", "Token::end"])
p("C05", "The installed throw handler sees every raised error exactly once",
  "Whenever the library raises an error while a throw handler is installed, the handler that was installed last is called exactly once, before the exception propagates, with the type name and the message of that very exception, and the exception then reaches the caller with its dynamic type and message intact. With no handler installed the exception just propagates; replacing or removing the handler takes effect for the next error.",
  ["histories", "inputs"], "All histories of installing, replacing and removing handlers (also handlers that throw themselves) interleaved with operations that succeed or raise errors of every exception type.",
  "No existing test installs a handler.",
  ["src/exception-handler.cpp", "include/simfil/exception-handler.h"], [("raise", "include/simfil/exception-handler.h"), ("ThrowHandler::set", "src/exception-handler.cpp")],
  state=[("handler", "callback installed in the process-wide singleton", "ThrowHandler::customThrowHandler_")], observe=["simfil::ThrowHandler", "simfil::tokenize", "simfil::compile"])
p("C06", "Expressions parse as the documented precedence table says, or are rejected",
  "Compiling an expression yields the unique tree given by the documented precedence and left associativity of the operators, the postfix and prefix forms and parentheses: adding redundant parentheses never changes the tree and printing any tree with minimal parentheses and compiling it gives the same tree. Every token sequence outside of the grammar (dangling operator, unbalanced bracket, trailing tokens, unknown function or type name) raises an error, and none (nested within the limits of the stack) crashes or hangs the process.",
  ["inputs", "programs"], "All token sequences and all expression trees.",
  "Tests compare about 60 printed trees; the precedence interaction of each pair of operators, in particular with postfix and prefix forms, is not enumerated.",
  ["include/simfil/parser.h", "src/parser.cpp", "src/simfil.cpp", "include/simfil/token.h"],
  [("Parser::parsePrecedence", "src/parser.cpp"), ("PrefixParselet/InfixParselet classes", "src/simfil.cpp")], observe=["simfil::compile", "Expr::toString"])
p("C07", "Words resolve to fields, symbols, constants or functions as documented",
  "A word made of upper-case letters, digits and underscores is a string unless it stands on either side of a path dot or in an explicit path position; any other word is a field access; a word followed by a parenthesis is a call. Functions, constants, type names and field names are looked up independent of letter case, symbols keep their case, and an unknown function is an error at compile time.",
  ["inputs", "configurations"], "All words in all positions (operand, path side, subscript, argument, cast) and any set of registered functions and constants.",
  "Tests check two symbols and one spelling per function.",
  ["src/simfil.cpp", "src/environment.cpp", "include/simfil/environment.h"],
  [("WordParser", "src/simfil.cpp"), ("PathParser", "src/simfil.cpp"), ("Environment::findFunction", "src/environment.cpp"), ("Environment::findConstant", "src/environment.cpp")],
  observe=["simfil::compile", "simfil::eval"])
p("C08", "Compile-time simplification never changes what an expression evaluates to",
  "For every expression and model, evaluating the compiled (simplified) expression yields the same sequence of values as evaluating the expression with simplification inhibited; compiling reports an evaluation error only if a constant part of the expression raises it whatever the model is. Expressions that depend on the model, or on a variable, are never replaced by a constant.",
  ["programs", "inputs"], "All expressions, in particular constant sub-expressions nested in model dependent ones, calls, sub-queries and multi-valued operands, over all models.",
  "Tests list some ten folded expressions and never compare folded against unfolded evaluation.",
  ["src/simfil.cpp", "src/function.cpp", "include/simfil/result.h"], [("simplifyOrForward", "src/simfil.cpp"), ("Context::Phase::Compilation", "include/simfil/environment.h")], observe=["simfil::compile", "simfil::eval"])
p("C09", "Scalar operators compute the documented result for every pair of types",
  "Each unary and binary operator yields the documented value for each combination of operand types: exact 64 bit integer and IEEE double arithmetic with int-to-float promotion, concatenation for strings, null propagation, false (true for !=) for comparisons of incompatible types, and an error for undefined operand types. No combination of operand values crashes the process; division by zero is reported as an error.",
  ["inputs"], "All pairs of values of all types including integer limits, negative numbers, infinities, empty strings, ranges, regular expressions and containers.",
  "Tests sample one or two pairs per operator; results at type boundaries and value limits are not checked.",
  ["include/simfil/operator.h", "src/simfil.cpp", "src/types.cpp", "include/simfil/value.h"],
  [("UnaryOperatorDispatcher/BinaryOperatorDispatcher", "include/simfil/operator.h"), ("IRangeType, ReType", "src/types.cpp")], observe=["simfil::eval"])
p("C10", "Casts and type queries are total and consistent",
  "`as bool|int|float|string`, `?`, `not`, `typeof` and `#` yield the documented value for each value of each type: conversions of text take its leading number or give zero, conversions of integers to string and back are lossless, and only null and false are false. A value has the same type name and truth value wherever it comes from (literal, model, function result).",
  ["inputs"], "All values of all types, text that is almost a number, limits of the integer range.",
  "Tests sample about thirty casts.",
  ["src/simfil.cpp", "include/simfil/operator.h"], [("UnaryExpr, CastExpr", "src/simfil.cpp"), ("OperatorAsInt/AsFloat/AsString/Bool/Typeof/Len", "include/simfil/operator.h")], observe=["simfil::eval"])
p("C11", "Paths, wildcards and subscripts select exactly the matching nodes, in order",
  "A path yields, in document order and without duplicates or omissions, exactly the nodes that its steps select: a field name selects that field, `*` all direct children, `**` the node itself and all its descendants in pre-order (except for nulls), a subscript the array element or field of that index or name, `_` the current node. A path that matches nothing yields a single null and never an error.",
  ["inputs", "programs"], "All models (nested objects and arrays, empty containers, duplicate and missing fields, null values) and all paths.",
  "Tests run some forty path queries against one fixed document.",
  ["src/simfil.cpp", "include/simfil/model/nodes.h"], [("PathExpr, FieldExpr, WildcardExpr, AnyChildExpr, SubscriptExpr", "src/simfil.cpp")], observe=["simfil::eval"])
p("C12", "Sub-queries and and/or filter and combine value by value",
  "A sub-query yields its left value once for each value of the condition that is not false, evaluated with the left value as the current node and without effect on the outside; `and` and `or` yield, per value of the left side, that value or the values of the right side, decided by its truth. Binary operators and calls combine each value of the left with each value of the right side, in order.",
  ["inputs", "programs"], "All nestings of sub-queries, logical operators and multi-valued operands over all models.",
  "Tests have a dozen sub-queries on one document and no multi-valued logical operands.",
  ["src/simfil.cpp"], [("SubExpr, AndExpr, OrExpr, BinaryExpr", "src/simfil.cpp")], observe=["simfil::eval"])
p("C13", "Built-in functions return the documented values for all arguments",
  "any, each/all, count, arr, range, split, select, sum, keys, re and trace yield exactly the documented values for every number and type of arguments, for multi-valued and empty inputs and for positions and limits outside of the input. Wrong argument counts or types raise an error.",
  ["inputs", "programs"], "All argument lists: values of all types, multi-valued expressions, negative and too large indices, empty strings and separators.",
  "Tests call each function three to ten times with typical arguments.",
  ["src/function.cpp", "include/simfil/function.h"], [("Function subclasses", "src/function.cpp"), ("ArgParser", "src/function.cpp")], observe=["simfil::eval"])
p("C14", "Evaluation stops exactly when its consumer is satisfied",
  "As soon as a consumer (any, each, select, the caller of an expression) has what it needs, no further value is produced or evaluated (select may look one value ahead), through every kind of expression in between; and a consumer that is not yet satisfied receives all values: satisfying an inner consumer never cuts off values of an outer one.",
  ["programs", "histories"], "All expression nestings and all points at which any consumer in it may stop.",
  "Only final results are compared in the tests; too early or too late termination shows only in special nestings or as extra work.",
  ["include/simfil/result.h", "src/simfil.cpp", "src/function.cpp"], [("Result::Stop", "include/simfil/result.h")], observe=["Expr::eval with a counting callback", "user function with a call counter"])
p("C15", "Diagnostics report what happened and never alter results",
  "trace() returns exactly the values of its argument, counts each evaluation under its name and keeps at most the given number of values; warnings are collected in order and readable until taken. Looking up functions, constants or traces never changes other entries, and expressions evaluate the same with and without diagnostics.",
  ["histories", "programs"], "All histories of compiling and evaluating traced expressions with any limits and names in one environment.",
  "One test checks one trace.",
  ["src/environment.cpp", "src/function.cpp", "include/simfil/environment.h"], [("Environment::trace/warn", "src/environment.cpp"), ("TraceFn", "src/function.cpp")],
  state=[("traces", "per name: calls, total time, kept values", "Environment::traces"), ("warnings", "list of message/detail pairs", "Environment::warnings")], observe=["Environment::traces", "Environment::warnings"])
p("C16", "Evaluation is repeatable, leaves the model alone and may run concurrently",
  "Evaluating a compiled expression any number of times, on any root, in any order with other expressions, and from several threads at once, always yields the same values for the same root and leaves model, string pool and expression unchanged. Compiling is deterministic and compiled expressions are independent of each other.",
  ["histories", "schedules"], "All histories and thread schedules of compilations and evaluations sharing environment, expression and model.",
  "Tests evaluate each expression once on one thread.",
  ["src/simfil.cpp", "src/function.cpp", "src/environment.cpp"], [("Expr::eval is const", "include/simfil/expression.h")], observe=["simfil::compile", "simfil::eval"])
p("C17", "A model pool returns exactly what was stored in it",
  "After any history of creating objects, arrays and scalars, adding fields, elements and roots, every node reads back with its type, value, children, order and field names as written, including duplicate names, shared nodes, arrays beyond any capacity hint and integers that do not fit the compact encoding. Later additions never change what earlier nodes return.",
  ["histories", "inputs"], "All histories of model building operations with values over the full range of each scalar type.",
  "One test builds one small model; growth past initial capacity, interleaved growth and value limits are not exercised.",
  ["src/model/model.cpp", "src/model/nodes.cpp", "include/simfil/model/model.h", "include/simfil/model/nodes.h", "include/simfil/model/nodes.impl.h"],
  [("ModelPool::newObject/newArray/newSmallValue/newValue", "src/model/model.cpp"), ("ModelNodeAddress", "include/simfil/model/nodes.h")],
  state=[("columns", "roots, int64, double, string bytes, object and array member arenas", "ModelPool::Impl")], observe=["ModelPool", "ModelNode"])
p("C18", "Arrays of an array arena behave like independent growable sequences",
  "After any interleaving of creating, appending to and reading arrays of an arena, each array holds exactly the elements appended to it in order, its size is their number, reads beyond its end raise an error, and iteration in each form visits exactly its elements. In the thread-safe build this also holds when distinct arrays grow from concurrent threads.",
  ["histories", "schedules"], "All interleavings of operations on any number of arrays with any initial capacities (including zero), and all schedules of concurrent growth.",
  "Two tests fill arrays in fixed patterns on one thread.",
  ["include/simfil/model/arena.h"], [("ArrayArena::ensure_capacity_and_get_last_chunk_unlocked", "include/simfil/model/arena.h")],
  state=[("heads_, continuations_, data_", "chunk lists and shared element storage", "ArrayArena")], observe=["ArrayArena"])
p("C19", "The string pool is a stable bijection between names and ids",
  "In any history of interning, lookups, static registrations, copies and reloads, strings that are equal up to letter case always share one id and different strings have different ids, an id resolves for ever to the spelling that was stored first, lookups of unknown strings add nothing, and size, byte count and highest id match the content. Running out of ids raises an error and never reuses one.",
  ["histories", "inputs"], "All histories of pool operations on all strings (empty and non-ASCII included), up to and beyond the number of available ids.",
  "Tests intern a handful of strings.",
  ["src/model/string-pool.cpp", "include/simfil/model/string-pool.h"], [("StringPool::emplace/get/resolve", "src/model/string-pool.cpp")],
  state=[("idForString_, stringForId_, nextId_, byteSize_, cacheHits_, cacheMisses_", "the two directions of the mapping and counters", "StringPool")], observe=["simfil::StringPool"])
p("C20", "Concurrent string pool operations appear atomic",
  "When several threads intern, look up, resolve and inspect one pool at once, each operation returns what it would have returned had the operations run one after the other in some order compatible with real time: no string gets two ids, no id two strings, and an id handed out is resolvable at once.",
  ["schedules"], "All interleavings of the lock-protected steps of operations of two to four threads.",
  "No test uses the pool from more than one thread.",
  ["src/model/string-pool.cpp"], [("std::shared_mutex stringStoreMutex_, double-checked insert", "src/model/string-pool.cpp")], observe=["simfil::StringPool"])
p("C21", "Writing and reading back a pool is lossless, and truncation is detected",
  "A model pool or string pool written to a stream and read into a fresh one, or into a string pool that holds an earlier part of it, yields the same content: the same roots, nodes, values, field names and ids, also for a partial string pool continued from an earlier one. Reading a stream that ends too early raises an error instead of yielding a silently different model.",
  ["inputs", "crash_points", "histories"], "All models, every prefix of the written bytes, and sequences of partial writes.",
  "One test round-trips one small model; no test reads a truncated stream.",
  ["src/model/model.cpp", "src/model/string-pool.cpp", "include/simfil/model/bitsery-traits.h", "include/simfil/model/arena.h"], [("ModelPool::write/read", "src/model/model.cpp"), ("StringPool::write/read", "src/model/string-pool.cpp")], observe=["ModelPool", "StringPool"])
p("C22", "Replacing the string pool of a model keeps every field name",
  "Assigning another string pool to a model re-labels every field so that names, values, order and query results stay the same as before, whatever strings and ids the new pool already holds, also when models share a pool or the pool is assigned repeatedly.",
  ["histories", "inputs"], "All models and all pools (empty, overlapping with other ids, superset), repeated assignments.",
  "One test switches the pool of one model once.",
  ["src/model/model.cpp"], [("ModelPool::setStrings", "src/model/model.cpp")], observe=["ModelPool::setStrings", "ModelNode::keyAt"])
p("C23", "Clearing and validating a model reflect its real state",
  "After clear() a model is indistinguishable from a new one and may be filled again; validate() accepts every model built through the API and reports any reference to a missing node, value or name. Model accessors reject out-of-range roots and nodes with an error.",
  ["histories"], "All histories of building, clearing, refilling, and all dangling references.",
  "One test checks one dangling reference.",
  ["src/model/model.cpp"], [("ModelPool::clear/validate/checkForErrors", "src/model/model.cpp")], observe=["ModelPool"])
p("C24", "Loading and dumping JSON is lossless for the supported values",
  "Loading a JSON document yields a model whose tree has the same elements in the same order, the same members ordered by name, and the same types and values; dumping that model yields an equal document, for nulls, nested and empty containers, all signed 64 bit integers, doubles (also larger integers, as nearest double) and strings. Names that repeat in an object are dumped as a multimap of arrays. Invalid JSON raises an error and adds nothing; loading several documents into one model adds one root each.",
  ["inputs"], "All JSON documents of objects, arrays, strings, booleans, nulls, signed 64 bit integers and doubles, whose field names differ by more than letter case.",
  "Tests load one document and never dump one.",
  ["src/model/json.cpp", "src/model/nodes.cpp"], [("build in json.cpp", "src/model/json.cpp"), ("ModelNode::toJson", "src/model/nodes.cpp")], observe=["simfil::json::parse", "ModelNode::toJson"])
p("C25", "Overlay and procedural nodes present the underlying node plus their own fields",
  "An overlay is an object that shows its injected fields first and otherwise exactly the wrapped value: scalar value, fields, elements, keys, size and iteration; setting a field again replaces it and never changes the wrapped node. A procedural object shows its own callbacks' fields together with the stored ones in every form of access.",
  ["histories", "inputs"], "All sequences of setting fields on overlays over any value, and all accesses.",
  "Overlays are tested only through sum(); procedural objects by one test.",
  ["src/overlay.cpp", "include/simfil/overlay.h", "include/simfil/model/nodes.h"], [("OverlayNode", "src/overlay.cpp"), ("ProceduralObject", "include/simfil/model/nodes.h")], observe=["OverlayNode", "ProceduralObject"])
p("C26", "Transient values own their object exactly once",
  "In any sequence of constructing, copying, moving, assigning (also to itself) and destroying values that hold an object of a user-defined type, each object is created once and destroyed once, copies are independent and equal, moved-from values are empty and reusable, also when copying an object fails, and operators reach the object's own type.",
  ["histories"], "All sequences of value operations over a small number of variables.",
  "No test copies or moves such values on purpose.",
  ["include/simfil/transient.h", "include/simfil/typed-meta-type.h", "include/simfil/value.h"], [("TransientObject", "include/simfil/transient.h"), ("TypedMetaType", "include/simfil/typed-meta-type.h")],
  state=[("alive objects", "objects created by the meta type and not yet deinitialized", "MetaType::init/deinit")], observe=["simfil::TransientObject", "simfil::Value"])
p("C27", "A debug hook sees every evaluation, properly nested, and alters nothing",
  "While a debug hook is installed in the environment, each evaluation of an expression and of its operands, during compilation and evaluation, is announced by one begin (with the expression, the phase and the value it is evaluated on) and one end, also when the consumer stops it early: what began last ends first, operands begin only within their expression, and values reach the caller before the end of the expression that yields them. Compiling and evaluating yield the same expression, values, warnings and traces as without a hook.",
  ["programs", "inputs", "histories"], "All expressions, roots and consumers that stop after any number of values.",
  "No test installs a hook.",
  ["include/simfil/expression.h", "include/simfil/environment.h", "src/simfil.cpp"], [("Expr::eval", "include/simfil/expression.h"), ("struct Debug", "include/simfil/environment.h")],
  state=[("open evaluations", "stack of expressions that have begun and not ended", "calls of Debug::evalBegin/evalEnd")], observe=["Environment::debug", "simfil::compile", "Expr::eval"])
p("C28", "Results and nodes keep alive what they refer to, and only that",
  "The values an evaluation yields, their copies, and nodes of a model stay readable and unchanged when environment, string pool, model, expression and other results are released in any order, or the model gets another string pool: a value or node keeps the model it refers to alive. Once no handle, node, value or collected trace refers to it, a model, its names and the expressions are released; nothing leaks and nothing is released twice.",
  ["programs", "histories"], "All expressions and all orders of compiling, evaluating, copying, moving, replacing the string pool, reading and releasing.",
  "Tests keep everything alive until they end.",
  ["include/simfil/model/nodes.h", "include/simfil/value.h", "src/function.cpp", "src/model/model.cpp"], [("ModelNode::model_", "include/simfil/model/nodes.h"), ("Value::nodePtr", "include/simfil/value.h"), ("KeysFn::eval, SumFn::eval", "src/function.cpp")],
  state=[("held, in, swapped", "handles that the user holds, which of them contain nodes of the model, and whether its string pool was replaced", "weak_ptr to model and string pool")], observe=["Expr::eval", "simfil::Value", "ModelNode", "ModelPool", "Environment"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
