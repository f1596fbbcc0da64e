CLAIMED["C05"] = ("TLA+ state machine of the throw handler (Handler.tla): TLC enumerates all histories up to a length, which are executed by the real code and validated against the machine, as are long random ones",
  "Exhaustive over histories of up to 4 (thorough: 5) operations for 5 kinds of handlers; library error sources are a list of about 25 operations. Trusts TLC and the recording harness.")

_T = ("Trusts TLC, the recording harness and the specification's reading of the documentation; a few situations are left open by the specification (listed in DESIGN.md) and accepted.")
def _ev(what):
    return "TLA+ specification of the whole language (Lex/Parse/Val/Eval.tla: source text -> tokens -> tree -> folded tree -> sequence of values and events); " + what + "; recorded compilations and evaluations of the real library validated against it by TLC"
CLAIMED["C06"] = (_ev("TLC enumerates token sequences and trees (MCParse) and checks that printing and parsing are inverse"), "Exhaustive over sequences of 4 (thorough 5) tokens and small trees, random beyond. " + _T)
CLAIMED["C07"] = (_ev("TLC enumerates spellings of words, constants, functions and types (MCWord)"), "Exhaustive over short words in a set of contexts, random beyond. " + _T)
CLAIMED["C08"] = (_ev("TLC checks on enumerated expressions that folding preserves values (MCEval), and the real evaluation is compared with the unfolded tree"), "Exhaustive over small expressions with constants and fields; random larger ones. " + _T)
CLAIMED["C09"] = (_ev("exact integer/float arithmetic (Big/Num/Val.tla), model-checked for its laws (MCBig, MCVal)"), "Operator x operand type matrix over about 60 boundary values, random numbers beyond. " + _T)
CLAIMED["C10"] = (_ev("value conversions model-checked for their laws (MCVal)"), "Conversion matrix over about 60 boundary values and 12 documents, random beyond. " + _T)
CLAIMED["C11"] = (_ev("paths enumerated by TLC and checked against a declarative selection (MCEval)"), "Exhaustive over small paths on 12+ documents, random larger paths. " + _T)
CLAIMED["C12"] = (_ev("and/or/sub-query expressions enumerated by TLC (MCEval)"), "Exhaustive over small expressions, random larger ones. " + _T)
CLAIMED["C13"] = (_ev("calls of all built-in functions enumerated by TLC (MCEval)"), "Exhaustive over calls with small arguments, random nested ones. " + _T)
CLAIMED["C14"] = (_ev("consumers stopping after n values, and probes that record which sub-expressions were entered, enumerated by TLC (MCEval)"), "Exhaustive over small expressions, random larger ones, consumers stopping after 1-5 values. " + _T)
CLAIMED["C15"] = (_ev("traces, warnings and error events are part of the specified event sequence; TLC checks that erasing diagnostics does not change values (MCEval)"), "Exhaustive over small expressions, random larger ones. " + _T)
CLAIMED["C18"] = ("TLA+ machines of the array arena (Arena.tla: independent sequences; ArenaConc.tla: its locking at chunk level); TLC enumerates histories and schedules, which the real arena executes (cooperative scheduler, sanitizers) and whose records are validated against the machine",
  "Exhaustive over short histories on a few arrays and over the lock-level schedules of small thread programs (depth-first, bounded number of runs), random long histories beyond; data races below the locks are left to ThreadSanitizer on free-running threads. Trusts TLC and the recording harness.")
CLAIMED["C19"] = ("TLA+ machine of string pools and streams (Names.tla); TLC enumerates histories of operations on two pools and a stream, the real pool executes them and its records are validated against the machine",
  "Exhaustive over histories of 4 (thorough 5) operations on a few names, sampled from in the quick tier; random long histories with many names, and pools that run out of ids. Trusts TLC and the recording harness.")
CLAIMED["C20"] = ("TLA+ specification of linearizability (NamesLin.tla over the pool machine) and of the locking of emplace (NamesConc.tla); schedules enumerated by TLC and by a depth-first scheduler are replayed on the real pool, and what the threads saw is validated against the specification",
  "Exhaustive over lock-level schedules of small thread programs (bounded number of runs), random ones beyond; data races below the locks are left to ThreadSanitizer on free-running threads. Trusts TLC and the recording harness.")

def _st(what):
    return ("TLA+ machine of model pools, string pools and their streams (Store.tla over Names.tla); TLC enumerates histories (" + what + "), which the real model pool executes; what every form of access shows afterwards is validated against the machine",
      "Exhaustive over short histories on small models (sampled from in the quick tier), simulated and random long histories beyond, and a few with columns and arrays over many pages. Trusts TLC and the recording harness.")
CLAIMED["C17"] = _st("objects, arrays, fields, elements, extend, roots")
CLAIMED["C21"] = _st("writing and reading models, string pools and parts of those, every truncation of recorded streams")
CLAIMED["C22"] = _st("models sharing and replacing string pools, also pools without free ids")
CLAIMED["C23"] = _st("clear, validate, dangling references of every kind, access out of range")

CLAIMED["C24"] = ("TLA+ machine that reads JSON byte by byte and builds the value, its inverse writer, and exact decimal-to-double arithmetic (JsonDoc.tla, Big.tla); TLC enumerates texts (structure, numbers, strings) and checks the machine against the writer; the real loader reads them and random documents, and trees and dumps are validated against the machine",
  "Exhaustive over token sequences, number texts and string texts of a length (pruned at the first error), sampled from; random documents, mutations and hand-built trees beyond. Trusts TLC and the recording harness; nlohmann::json's own quirks for NUL bytes between tokens and byte order marks are left open.")
CLAIMED["C25"] = ("TLA+ machine of overlays and procedural objects over a model (Overlay.tla), refined by the map per overlay that the implementation keeps (MCOverlay.tla); TLC enumerates histories of wrapping, re-wrapping, injecting and extending the model, which the real classes execute; every form of access, and path queries, is validated against the machine",
  "Exhaustive over histories of 3 (thorough 4) operations on a small model, sampled from; simulated and random long histories over random models beyond. Trusts TLC and the recording harness; toJson() of an overlay and injected transient values are left open.")
CLAIMED["C26"] = ("TLA+ machine of variables that own objects (Transient.tla), refined by a model of the allocations that the implementation makes, also when copying fails (MCTransient.tla); TLC enumerates histories, which the real TransientObject and Value classes execute; expressions over two user-defined types are validated against the specified operators",
  "Exhaustive over histories of 4 (thorough 5) operations on four variables, sampled from; simulated and random long histories, random expressions beyond. Trusts TLC and the recording harness.")

CLAIMED["C16"] = ("TLA+ model of cached name ids, string pool and warnings (MCEngine.tla, TLC, incl. three broken variants that it refutes); recorded histories and thread schedules of the real library validated by EngineTrace.tla",
 "Exhaustive for 2 and 3 threads at the level of the model; random histories (repeated, nested and interleaved evaluations, documents added later) and random thread schedules with changes at every lock, operation and result; the atomicity of the steps with real threads under ThreadSanitizer.")

CLAIMED["C27"] = ("TLA+ machine of open evaluations (Debug.tla) with a callback-style evaluator that TLC checks against it, incl. evaluators it has to refute (MCDebug.tla); recorded compilations and evaluations of the real library under a hook are validated against the machine and against the specification of the language (Eval.tla)",
  "Evaluator model exhaustive over small trees and all stopping points; the real library on hand-written and random expressions and documents. What the hook is told after an error is left open. Trusts TLC and the recording harness.")
CLAIMED["C28"] = ("TLA+ state machine of who keeps what alive (Own.tla), checked by TLC (MCOwn.tla, refuting results that do not hold their model); histories generated from it and random ones are replayed on the real library under AddressSanitizer and LeakSanitizer, and recorded lifetimes and readings are validated against it (OwnTrace.tla)",
  "All short histories of the model for a list of expressions, plus random longer ones. Texts that refer into the arrays of a model are not required to survive further insertions into it. Trusts TLC, AddressSanitizer and the recording harness.")
