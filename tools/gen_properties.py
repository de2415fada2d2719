#!/usr/bin/env python3
"""Writes /verif/properties.jsonl."""
import json

CORE = "serde_json_path_core/src/"
LIB = "serde_json_path/src/"
MAC = "serde_json_path_macros/src/internal/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, where=b) for a, b in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=list(observe), hook_needed=hook)))


prop("C01", "Concurrent calls on shared queries and documents never affect one another",
     "Parsed queries and documents may be shared by any number of threads; every parse, query, located query, comparison, clone, "
     "display or drop that runs while others are running returns exactly the result it returns when it runs alone (the same nodes, "
     "by identity and in order, the same locations, the same text or the same error). This holds for every interleaving of the calls, "
     "whatever mix of queries, documents, built-in functions and user-registered functions they use.",
     ["schedules", "inputs", "histories"],
     "all interleavings, at the granularity of single memory accesses of the library, of parse/query/display/clone/drop calls by several threads over shared queries and documents",
     "every existing test is single-threaded apart from two static Send/Sync assertions; no test runs two library calls at the same time, and a pair of threads would sample a handful of schedules",
     [LIB + "path.rs", CORE + "spec/query.rs", CORE + "spec/segment.rs", CORE + "spec/selector/filter.rs", CORE + "spec/functions.rs", LIB + "parser/selector/function/registry.rs"],
     [("evaluation takes &self and keeps all working state on the caller's stack", CORE + "spec/query.rs Query::query / query_located"),
      ("function dispatch through shared static evaluators", CORE + "spec/functions.rs FunctionExpr::evaluate")],
     [("lazily built function registry", LIB + "parser/selector/function/registry.rs REGISTRY"),
      ("lazily built validators and evaluators of registered functions", MAC + "common/define.rs")],
     ["JsonPath::parse", "JsonPath::query", "JsonPath::query_located", "JsonPathExt::json_path", "Display/Debug/PartialEq/Clone of JsonPath"])

prop("C02", "Racing first use of the library is invisible",
     "When several threads make a process's first calls into the library at the same time, in any order and at any relative speed, each call "
     "sees every built-in and every registered function with its full signature and returns exactly what it returns in a process that has long been warm. "
     "No first call is lost, refused, duplicated or left waiting for ever, even if the first user function to run itself makes first calls.",
     ["schedules", "histories"],
     "all interleavings of the first parses and queries of a fresh process over all built-in and user functions, including first uses nested in user functions",
     "one test process initialises each lazy static once, from whichever test comes first; a racing initialisation is never provoked and cannot be repeated within a process",
     [LIB + "parser/selector/function/registry.rs", LIB + "parser/selector/function/mod.rs", MAC + "common/define.rs", MAC + "func/define.rs", CORE + "spec/functions.rs"],
     [("one-time initialisation of the registry, validators and evaluators", LIB + "parser/selector/function/registry.rs REGISTRY; " + MAC + "common/define.rs LazyLock statics"),
      ("link-time collection of user functions", CORE + "spec/functions.rs inventory::collect!")],
     [("REGISTRY", LIB + "parser/selector/function/registry.rs"), ("*_VALIDATOR/*_EVALUATOR", MAC + "common/define.rs")],
     ["JsonPath::parse of queries that call functions", "JsonPath::query"])

prop("C03", "A panic in a user function reaches its caller and harms nothing else",
     "If a user-registered function panics while a query is evaluated, that query call unwinds to its caller with the original panic payload, and nothing else changes: "
     "every other call in progress, and every later call on any thread (with the same query, document and function), returns exactly what it would have returned had the panic not happened. "
     "The library itself never panics on its own account, and never turns such a panic into an answer or an abort.",
     ["fault_sequences", "schedules", "histories"],
     "all sequences of panics at arbitrary invocations of user functions, in any interleaving with other calls that share the query, the document and the function",
     "no existing test registers a function that panics; and what a panic leaves behind depends on when it strikes relative to other calls and to lazy initialisation",
     [CORE + "spec/functions.rs", CORE + "spec/selector/filter.rs", MAC + "common/define.rs", LIB + "parser/selector/function/registry.rs"],
     [("no library state is modified during evaluation, so unwinding has nothing to repair", CORE + "spec/functions.rs FunctionExpr::evaluate"),
      ("initialisation of the evaluators runs no user code", MAC + "common/define.rs")],
     [("REGISTRY and the function statics, which a panic must not poison", LIB + "parser/selector/function/registry.rs")],
     ["JsonPath::query", "JsonPath::query_located", "std::panic::catch_unwind around them"])

prop("C04", "User functions may call back into the library",
     "While a user-registered function runs as part of a query, it may itself parse, display, serialize and evaluate queries, including the query that called it, on any document and to any depth. "
     "The inner calls return exactly what they return at top level, and the outer query returns exactly what it returns when its functions make no such calls; none of them deadlocks, panics or observes the other's intermediate state.",
     ["histories", "schedules", "inputs"],
     "all nestings of library calls made from inside user functions, on cold and warm processes and in any interleaving with other threads",
     "no existing test makes a library call from inside a function; re-entrancy failures need a nested call at a particular moment of the outer one",
     [CORE + "spec/functions.rs", CORE + "spec/selector/filter.rs", CORE + "spec/query.rs", LIB + "parser/selector/function/mod.rs", MAC + "common/define.rs"],
     [("no lock or exclusive borrow is held while user code runs", CORE + "spec/functions.rs FunctionExpr::evaluate")],
     [("function statics, first touched possibly from inside a function", MAC + "common/define.rs")],
     ["JsonPath::parse/query/query_located/Display called from a #[function]"])

prop("C05", "A stalled caller never holds up other callers, and every call ends",
     "A thread that is stuck inside caller code which the library called (a user function, an output sink, an input source) never prevents other threads from completing any library call, with its right result. "
     "Under every schedule, each library call made on finite input returns after a bounded amount of its own work, without deadlock and without waiting for any event outside the library. "
     "That work grows no faster than a low fixed power of the size of the query text and of the document: nesting, repetition or an error in a text does not multiply it.",
     ["schedules", "fault_sequences"],
     "all schedules in which some threads stall at arbitrary invocations of caller code for as long as the others need, and all schedules without a stall",
     "existing tests never stall anywhere; a lock held across a user call or a wait between callers shows only when one caller stops at the wrong place while another needs the same thing, and work that doubles with each level of nesting only beyond the depth of any example",
     [CORE + "spec/functions.rs", CORE + "spec/query.rs", CORE + "spec/selector/filter.rs", LIB + "parser/selector/function/registry.rs", LIB + "path.rs", CORE + "path.rs", MAC + "common/define.rs"],
     [("no lock is held while caller code runs", CORE + "spec/functions.rs FunctionExpr::evaluate; " + LIB + "path.rs Serialize/Deserialize/Display"),
      ("one-time initialisation runs no caller code", MAC + "common/define.rs")],
     [("REGISTRY and function statics", LIB + "parser/selector/function/registry.rs")],
     ["completion of JsonPath::parse/query/query_located/Display/serde calls on other threads"])

prop("C06", "Memory is conserved over any history of calls",
     "Once everything a sequence of library calls returned has been dropped, the memory those calls allocated has been released, apart from one-time set-up whose size does not depend on how many calls are made or how many different queries, patterns and documents they use. "
     "This holds for successful calls, failed parses, calls that unwound with a user panic, and calls whose output sink or input source failed, on any number of threads.",
     ["histories", "fault_sequences", "schedules"],
     "all long histories of calls with ever-fresh queries, patterns and documents, with panics, failed parses and failing sinks and sources injected at arbitrary points, on one or more threads",
     "unit tests check results of single calls and never look at memory; growth and leaks show over histories and on unwinding paths only",
     [LIB + "path.rs", LIB + "parser/mod.rs", LIB + "parser/selector/function/registry.rs", CORE + "spec/functions.rs", CORE + "node.rs", CORE + "path.rs", MAC + "common/define.rs"],
     [("all results are owned by the caller and nothing is retained", CORE + "node.rs; " + LIB + "path.rs"),
      ("patterns are compiled per evaluation and dropped", LIB + "parser/selector/function/registry.rs match_func/search")],
     [("the only retained state is the function statics", LIB + "parser/selector/function/registry.rs; " + MAC + "common/define.rs")],
     ["the global allocator, before and after histories of calls"])

prop("C07", "Writing to a failing sink is all or visibly not",
     "Displaying or serializing a query, a node list, a located node list or a normalized path to a sink that accepts short writes, is interrupted, or fails or panics at any moment, yields success only if the sink received exactly the complete text. "
     "Otherwise the failure (or panic) surfaces to the caller, what the sink received is an exact prefix of that text, nothing more is written after the failure, and repeating the call on a healthy sink yields the complete text.",
     ["fault_sequences", "inputs"],
     "all sequences of short writes, interruptions, errors and panics by the sink at every write of every displayable or serializable value",
     "existing tests only format into growing strings, which never fail",
     [LIB + "path.rs", CORE + "path.rs", CORE + "node.rs", CORE + "spec/query.rs", CORE + "spec/segment.rs", CORE + "spec/selector/mod.rs", CORE + "spec/selector/filter.rs", CORE + "spec/selector/name.rs", CORE + "spec/selector/slice.rs", CORE + "spec/functions.rs"],
     [("every write's result is propagated", "the Display and Serialize implementations of " + CORE + " and " + LIB + "path.rs")],
     [], ["fmt::Write and io::Write implementations handed to write!/serde_json::to_writer"])

prop("C08", "Reading a query from a faulty source never yields another query",
     "Deserializing a query from a stream that arrives in arbitrary pieces and with interruptions gives exactly what parsing the complete text gives. If the stream is cut short, fails or delivers altered bytes at any point, the outcome is exactly that of parsing the text that was in fact delivered, or an error; it is never a panic, and never a query that stands for something other than the delivered text.",
     ["fault_sequences", "inputs"],
     "all chunkings, interruptions, truncations, I/O errors and byte alterations, at every position of the stored form of any query or of any invalid text",
     "the existing serde tests deserialize complete, valid, in-memory values",
     [LIB + "path.rs", LIB + "parser/mod.rs", LIB + "parser/segment.rs", LIB + "parser/primitive/string.rs", LIB + "error.rs"],
     [("the visitor parses whatever complete string serde delivers and maps the parse error", LIB + "path.rs Deserialize for JsonPath")],
     [], ["serde_json::from_reader/from_slice/from_str/from_value into JsonPath and into structures that hold it"])

prop("C09", "A stored query means the same after a crash and restart",
     "A query that was written out as text or JSON and acknowledged durable reads back after any crash and restart, in a new process, as a query equal to the one written, selecting the same nodes at the same locations in every document and writing out as the same text again. "
     "A query whose write was not acknowledged reads back as the old query, the new one, or an error, and never as a third query.",
     ["crash_points", "inputs", "histories"],
     "all queries, all points of the save protocol at which a crash strikes, all partial, lost or torn states the disk may keep of unsynced writes, and any sequence of saves, crashes and restarts",
     "one existing test round-trips one hand-picked query in memory within one process",
     [LIB + "path.rs", CORE + "spec/query.rs", CORE + "spec/segment.rs", CORE + "spec/selector/mod.rs", CORE + "spec/selector/filter.rs", CORE + "spec/selector/name.rs", CORE + "spec/selector/index.rs", CORE + "spec/selector/slice.rs", CORE + "spec/functions.rs", LIB + "parser/primitive/string.rs"],
     [("Display is an inverse of parsing", "the Display implementations of " + CORE + "spec"), ("serde goes through Display and parsing", LIB + "path.rs")],
     [], ["JsonPath Serialize/Deserialize/Display/FromStr/PartialEq", "query results before and after the restart"])

prop("C10", "Running out of memory never produces a wrong answer",
     "If any allocation made on behalf of a library call fails, once or from then on, the call either ends the process the way the allocator's failure policy dictates, reports failure by unwinding, or returns exactly its right result. "
     "It never returns a shortened, reordered or otherwise altered result, a query that means something else, or an incomplete text.",
     ["fault_sequences", "inputs"],
     "a failure of any one allocation, or of every allocation from some point on, inside any parse, query, located query, display or (de)serialization",
     "no test makes an allocation fail",
     [CORE + "spec/query.rs", CORE + "spec/segment.rs", CORE + "node.rs", CORE + "path.rs", CORE + "spec/functions.rs", LIB + "parser/mod.rs", LIB + "path.rs", LIB + "parser/selector/function/registry.rs"],
     [("infallible collections only: failure aborts and is never swallowed", CORE + "spec, " + LIB + "parser")],
     [], ["results of calls whose allocations were made to fail", "exit status of the process"])

prop("C11", "Queries see the live document, and edits by location hit exactly their nodes",
     "When clients take turns to change a document and to query it, every query returns exactly the nodes that RFC 9535 selects in the document as it is at that moment, whatever was queried, changed, freed or reallocated before. "
     "A location returned with a node (as elements, as JSON pointer, or as normalized-path text parsed again as a query) identifies that node and no other, so an edit made through it, immediately or after being written down and read back, changes exactly the selected nodes.",
     ["histories", "schedules", "inputs"],
     "all interleavings of readers and writers that lock the document around each step, over all sequences of inserts, removals, replacements and rebuilds and all queries",
     "existing tests query immutable documents and check a few hand-written locations; staleness needs an edit between queries, and misdirected edits need member names and shapes no test uses",
     [CORE + "path.rs", CORE + "node.rs", CORE + "spec/query.rs", CORE + "spec/segment.rs", CORE + "spec/selector/index.rs", CORE + "spec/selector/slice.rs", CORE + "spec/selector/name.rs", CORE + "spec/selector/filter.rs", LIB + "path.rs", LIB + "ext.rs"],
     [("locations are built alongside evaluation", CORE + "spec/segment.rs query_located/descend_paths"), ("JSON pointer and normalized path rendering", CORE + "path.rs")],
     [], ["JsonPath::query/query_located", "NormalizedPath::to_json_pointer/Display/iter", "Value::pointer_mut"])

prop("C12", "Results depend on the inputs only, not on history, time or host",
     "What a call returns is determined by its arguments: it does not depend on which calls were made before in the process or how many, on whether they failed, on the thread that makes it, on the random hash seeds, on the clock or its jumps, on memory addresses being reused, or on the number of processors. "
     "Parsing the same text always gives equal queries or the identical error, and evaluating it always gives the same nodes in the same order.",
     ["histories", "configurations", "schedules"],
     "all histories of earlier calls (long, and full of distinct queries, patterns and documents), all hash seeds, clock readings, processor counts and address-reuse patterns",
     "each test makes a few calls in one process with one hash seed and compares with a fixed expectation; dependence on history needs long or peculiar histories",
     [LIB + "path.rs", LIB + "parser/mod.rs", LIB + "parser/selector/function/mod.rs", LIB + "parser/selector/function/registry.rs", CORE + "spec/functions.rs", CORE + "spec/query.rs", CORE + "spec/selector/filter.rs", CORE + "node.rs"],
     [("evaluation and parsing are stateless apart from read-only registries", LIB + "parser/selector/function/registry.rs; " + CORE + "spec/functions.rs")],
     [("REGISTRY (a hash map: only looked up, never iterated)", LIB + "parser/selector/function/registry.rs")],
     ["results of a call after a history compared with its results in a fresh process"])

prop("C13", "Result lists deliver every node exactly once, in order, to whoever consumes them",
     "However the results of a query are consumed (by value or by reference, from both ends, by several threads taking turns or working on clones, by index, or through the one-node accessors), each selected node and location is delivered exactly once, in the query's order, with correct remaining counts at every step; removing duplicates keeps exactly one entry per distinct location. "
     "This does not depend on which threads produce, share, hand over and drop the lists, nor on the query having been dropped meanwhile.",
     ["schedules", "histories", "inputs"],
     "all interleavings of consumers over one or several iterators and lists, all sequences of next/next_back/len/get/first/last/dedup/conversion calls, all results of any query",
     "existing tests take a list apart in one way on one thread, mostly with collect",
     [CORE + "node.rs", CORE + "path.rs"],
     [("iterators delegate to slice iterators", CORE + "node.rs Locations/Nodes"), ("dedup sorts by location", CORE + "node.rs dedup_in_place")],
     [], ["NodeList/LocatedNodeList methods and iterators, LocatedNode, NormalizedPath"])

prop("C14", "Tracing never changes what the library does",
     "With the optional tracing instrumentation compiled in, every call returns exactly what it returns without it, whatever the installed subscriber does when it is called (record everything, filter, stall, let other threads run, call back into the library) and whether or not one is installed. "
     "Spans are balanced: each one the library enters on a thread it also exits on that thread, including when a user function panics.",
     ["configurations", "schedules", "fault_sequences"],
     "all calls under all subscriber behaviours, with other threads scheduled inside the subscriber's callbacks and with user functions that panic inside spans",
     "the trace feature is off in the default test run, and its tests only print",
     [CORE + "spec/query.rs", CORE + "spec/segment.rs", CORE + "spec/selector/filter.rs", CORE + "spec/functions.rs", LIB + "parser/mod.rs", LIB + "error.rs"],
     [("tracing::instrument attributes only record", "cfg_attr(feature = \"trace\") throughout " + CORE + " and " + LIB)],
     [], ["results with and without the trace feature; calls made to a tracing::Subscriber"])

# ---- not simulation targets ------------------------------------------------------------------
prop("C20", "Exactly the well-formed and valid queries of RFC 9535 parse",
     "A text parses if and only if RFC 9535 makes it a well-formed and valid query (with the registered functions as the function registry).",
     ["inputs"], "all texts", "the compliance suite is not present here, and any suite samples the grammar",
     [LIB + "parser/mod.rs", LIB + "parser/segment.rs", LIB + "parser/selector/filter.rs", LIB + "parser/primitive/string.rs"],
     [("nom parsers", LIB + "parser")])
prop("C21", "Selectors and segments select what RFC 9535 says, in its order",
     "For every query and document the nodelist is the one RFC 9535 defines, for names, indexes, slices, wildcards, filters, child and descendant segments.",
     ["inputs"], "all queries and documents", "tests sample",
     [CORE + "spec/segment.rs", CORE + "spec/selector/slice.rs", CORE + "spec/selector/index.rs", CORE + "spec/selector/filter.rs"],
     [("Queryable implementations", CORE + "spec")])
prop("C22", "Comparisons follow RFC 9535, including nothing, types and numeric equality",
     "Every comparison in a filter has the truth value RFC 9535 defines.",
     ["inputs"], "all pairs of operands", "tests sample",
     [CORE + "spec/selector/filter.rs"], [("check_equal_to/check_less_than", CORE + "spec/selector/filter.rs")])
prop("C23", "Function expressions are accepted exactly when well-typed",
     "A query that calls functions is accepted if and only if each call has the declared number of arguments of convertible types and its result is used where its type allows.",
     ["inputs", "programs"], "all function declarations and all calls", "tests sample",
     [CORE + "spec/functions.rs", MAC + "common/define.rs", LIB + "parser/selector/function/mod.rs"],
     [("validators generated by the macro", MAC + "common/define.rs")])
prop("C24", "Built-in functions compute what RFC 9535 defines",
     "length, count, value, match and search return what RFC 9535 defines for every argument, including I-Regexp semantics.",
     ["inputs"], "all arguments", "tests sample",
     [LIB + "parser/selector/function/registry.rs"], [("registry functions", LIB + "parser/selector/function/registry.rs")])
prop("C25", "Located and plain queries agree",
     "query_located returns the same nodes in the same order as query.",
     ["inputs"], "all queries and documents", "tests sample",
     [CORE + "spec/query.rs", CORE + "spec/segment.rs"], [("parallel implementations", CORE + "spec")])
prop("C26", "Integers outside the I-JSON range are rejected; slices never overflow",
     "Indexes and slice parameters outside the interoperable range are refused at parse time, and no arithmetic on those inside it overflows.",
     ["inputs"], "all integers and array lengths", "tests sample",
     [CORE + "spec/integer.rs", CORE + "spec/selector/slice.rs"], [("Integer", CORE + "spec/integer.rs")])
prop("C27", "The function macro rejects at compile time what cannot work",
     "The attribute macro accepts exactly the functions whose arguments and result are JSONPath types, and reports others as compile errors.",
     ["programs"], "all function items", "there is no compile-fail test",
     ["serde_json_path_macros/src/lib.rs", MAC + "common/extract.rs"], [("signature checks", MAC + "common/extract.rs")])
prop("C28", "Parse errors point at the offending position",
     "The position and message of a parse error identify where and why the text is not a query.",
     ["inputs"], "all invalid texts", "tests sample",
     [LIB + "error.rs", LIB + "parser/mod.rs"], [("calculate_position", LIB + "parser/mod.rs")])

with open("/verif/properties.jsonl", "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
