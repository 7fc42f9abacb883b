#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": qtext}, "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          "mechanism": [dict(name=a, where=b) for a, b in mech],
                          "observe_at": list(observe), "hook_needed": hook}})

prop("L01", "Bundles survive the wire unchanged",
 "Whatever bundle a sender builds through the public API (any mix of argument types, nested bundles, blobs and strings of any length; the editable form carries no bundle time tags), serialising it yields well-formed OSC whose length is a multiple of four and equals the announced size, and decoding that datagram at a receiver gives the same messages in the same order with the same addresses, type tags, argument values and nested bundles. Serialising the decoded bundle reproduces the received bytes exactly. This holds for every datagram on its own, whatever happened to the datagrams around it (lost, duplicated, reordered, delayed).",
 ["inputs", "histories", "fault_sequences"],
 "every bundle contents x every receiver/sender history x every loss/duplication/reordering/delay pattern of the link",
 "The tests serialise a handful of fixed bundles and never decode them again; no test mixes types, padding cases and nesting, or runs a stream of datagrams over a faulty link.",
 ["osc_bundle_u.c", "osc_message_u.c", "osc_atom_u.c", "osc_bundle_s.c", "osc_message_s.c", "osc_atom_s.c", "osc_bundle_iterator_s.c", "osc_message_iterator_s.c", "osc_mem.c", "osc_util.c", "osc_timetag.c"],
 [("size calculation and encoding", "osc_bundle_u_getSerializedSize / osc_bundle_u_nserialize / osc_message_u_nserialize / osc_atom_u_nserialize"),
  ("decoding", "osc_bundle_s_deserialize / osc_message_s_deserialize / osc_atom_s_deserialize"),
  ("padding", "osc_util_getPaddedStringLen, osc_mem_sizeof")],
 observe=["bytes handed to the link", "atoms read back at the receiver"])

prop("L02", "Damaged datagrams are rejected or harmless",
 "Given any received bytes of any length, the datagram validator terminates, reads nothing outside the received bytes and accepts every well-formed OSC bundle. Whatever it accepts can be iterated, looked up, decoded, re-serialised and formatted without any access outside the received bytes (plus the library's own allocations) and without hanging. A receiver that has been fed damaged datagrams handles the next undamaged one normally.",
 ["inputs", "fault_sequences", "histories"],
 "every byte string a faulty link or peer can deliver: truncated, extended, bit-flipped, spliced, with forged sizes, type tags or nested lengths",
 "No test feeds the validator damaged data; a length field is 32 bits and the damage may sit anywhere in nested structure.",
 ["osc_error.c", "osc_bundle_s.c", "osc_message_s.c", "osc_bundle_iterator_s.c", "osc_message_iterator_s.c", "osc_atom_s.c", "osc_mem.c"],
 [("validator", "osc_error_bundleSanityCheck / osc_error_msgSanityCheck"), ("message wrapping", "osc_message_s_wrap, osc_message_s_cacheDataOffsets"), ("iterators", "osc_bundle_iterator_s_next / hasNext")],
 observe=["validator verdict", "memory accesses (guarded buffer)", "step budget"])

prop("L03", "Every allocated block is released exactly once",
 "Over any history of creating, editing, copying, converting, querying, dispatching and freeing messages, bundles, arrays, tables and expressions, once the caller has released every object it owns through the documented call, every block obtained from the installed allocator has been given back to it exactly once. No operation touches a block after it was released, writes outside a live block, or releases memory it does not own.",
 ["histories", "inputs"],
 "every history of public operations that ends with the caller releasing what it owns",
 "Tests run under the default allocator without leak or overrun checking, and each object sees one fixed short history.",
 ["osc_atom_u.c", "osc_message_u.c", "osc_bundle_u.c", "osc_bundle_s.c", "osc_message_s.c", "osc_array.c", "osc_atom_array_u.c", "osc_mem.c", "osc_rset.c", "osc_vtable.c", "osc_dispatch.c", "osc_query.c", "osc_hashtab.c", "osc_linkedlist.c", "osc_expr.c", "osc_expr_parser.y", "osc_parser.y"],
 [("installed allocator", "osc_set_mem, osc_mem_alloc/resize/free"), ("ownership", "osc_message_u_free, osc_atom_u_free, osc_bundle_s_deepFree, osc_array_free")],
 state=[("installed allocator", "the three functions all library memory goes through", "osc_mem.c")],
 observe=["allocator calls", "guard zones around every block"])

prop("L04", "Results never depend on what recycled memory holds",
 "The observable outcome of any history of API calls (returned values, serialised bytes, formatted text, error codes, evaluation results) is a function of the calls and their arguments only. Replaying the same history with an allocator that hands out zeroed, garbage-filled or recycled memory, at different addresses and with moving or in-place resizing, gives byte-identical outcomes.",
 ["histories", "inputs", "configurations"],
 "every history of public operations x every allocator behaviour permitted by malloc/realloc's contract",
 "A test run sees one allocator whose fresh memory is mostly zero; dependence on stale bytes is invisible there.",
 ["osc_mem.c", "osc_array.c", "osc_atom_u.c", "osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c", "osc_message_u.c", "osc_rset.c", "osc_expr.c", "osc_strfmt.c", "osc_vtable.c", "osc_query.c", "osc_hashtab.c"],
 [("initialisation of new objects", "osc_message_u_initMsg, osc_bundle_u_alloc, osc_array_allocWithSize, osc_bundle_s_allocEmptyBundle"), ("padding of strings and blobs", "osc_message_u_nserialize, osc_message_s_renameCopy")],
 observe=["all results of the history, compared between allocator personalities"])

prop("L05", "Running out of memory is reported and leaves data intact",
 "When the allocator fails during an operation that can report errors on serialised bundles (append, replace, union, intersection, difference, wrapping a message, writing a bundle id into a new bundle), on arrays (copy, copy-into, resize, conversion of argument arrays to native arrays), on serialised messages (blob copies, the offset cache), on handler tables (creating one, adding a handler, renaming one), on hash tables (creating one, storing) or on lists (creating one, adding an element), the operation returns a failure (or, where it has no result, visibly does nothing) instead of crashing. The objects passed in keep the contents they had before the call, nothing is leaked, and the same call succeeds once memory is available again.",
 ["fault_sequences", "histories"],
 "every allocation-failure point of every such call in every history",
 "No test makes an allocation fail.",
 ["osc_bundle_s.c", "osc_array.c", "osc_atom_array_u.c", "osc_vtable.c", "osc_mem.c"],
 [("out-of-memory returns", "osc_bundle_s_appendMessage, osc_bundle_s_union/intersection/difference, osc_array_copyInto, osc_vtable_addEntry")],
 observe=["return codes", "object contents before/after", "allocator balance"])

prop("L06", "Editable bundle keeps exactly the messages put in it",
 "After any sequence of adding, adding without duplicates, adding copies, replacing, removing, clearing and copying on editable bundles, each bundle's message count, iteration order, first message, address lookups, bound/exists answers, serialised form, union and intersection agree with a simple ordered list of messages. Copies are independent of their originals: editing or freeing one never changes the other.",
 ["histories"],
 "every sequence of editing operations over several bundles sharing messages by copy",
 "Tests build one bundle by appending; removal from head, middle and tail, replacement, duplicate suppression and copy-then-edit interleavings are not covered.",
 ["osc_bundle_u.c", "osc_bundle_iterator_u.c", "osc_message_u.c"],
 [("linked list and count maintenance", "osc_bundle_u_addMsg / addMsgWithoutDups / replaceMessage / removeMsg / removeMessage / clear / copy"), ("lookup", "osc_bundle_u_lookupAddress / getFirstFullMatch / addressExists / addressIsBound")],
 state=[("message list and count", "messages in insertion order", "osc_bundle_u.c")],
 observe=["iteration, counts and lookups after each step"])

prop("L07", "Serialised bundle edits touch only the edited messages",
 "After any sequence of appending, replacing, removing, concatenating, uniting, intersecting, subtracting, wrapping, copying and retagging serialised bundles, the bytes are a well-formed bundle holding exactly the messages an ordered-list model predicts, in order, with unrelated messages and the time tag byte-for-byte unchanged. Message counts, exact and pattern lookups, bound/exists answers agree with that list.",
 ["histories", "inputs"],
 "every sequence of edits and every contents, including nested bundles, empty messages and length-changing replacements",
 "Tests append to one bundle; replacing with a longer or shorter message at first, middle and last position, removal by pattern and set operations are not exercised over histories.",
 ["osc_bundle_s.c", "osc_bundle_iterator_s.c", "osc_message_s.c"],
 [("in-place edits", "osc_bundle_s_replaceMessage, osc_bundle_s_removeMessage, osc_bundle_s_appendMessage"), ("set operations", "osc_bundle_s_union, osc_bundle_s_intersection, osc_bundle_s_difference, osc_bundle_s_concat")],
 state=[("bundle bytes", "header, time tag and size-prefixed messages", "osc_bundle_s.c")],
 observe=["raw bytes decoded by an independent parser after each step"])

prop("L08", "Message editing preserves argument order and values",
 "After any sequence of appending, prepending, inserting at a position, removing, overwriting and clearing arguments, renaming, copying and joining messages, the message holds exactly the argument sequence a simple list model predicts, with each value and type as last set, and every view of it (count, positional access, iteration, serialised and decoded forms) agrees. An argument overwritten with a new value carries no trace of its earlier type or value.",
 ["histories", "inputs"],
 "every sequence of argument edits over every type",
 "Tests append a few arguments once; overwriting arguments with another type and inserting or removing at the ends are not covered.",
 ["osc_message_u.c", "osc_message_iterator_u.c", "osc_atom_u.c", "osc_message_s.c", "osc_message_iterator_s.c", "osc_atom_array_u.c", "osc_array.c"],
 [("argument list links and count", "osc_message_u_appendAtom / prependAtom / insertAtom / removeAtom / clearArgs / append"), ("value slots", "osc_atom_u_set*, osc_atom_u_clear, osc_atom_u_copyInto")],
 state=[("argument list", "atoms in order with count", "osc_message_u.c")],
 observe=["typed getters, iteration and serialised bytes after each step"])

prop("L09", "Dispatch calls each handler with exactly its messages",
 "When a bundle is dispatched, every registered handler whose selector is matched by at least one message is called exactly once with exactly the messages matching it completely and exactly those matching it partially (with the matched prefix removed when stripping is requested), in bundle order and unchanged; a handler with no matching message is handed no message. Messages matching no selector reach the delegate, exactly once, in order. This holds after any history of adding, rebinding and renaming handlers, including growth of the table, and handlers may change the table's bindings or dispatch again from inside a call.",
 ["histories", "inputs"],
 "every table history x every bundle x every re-entrant handler action",
 "The dispatch test prints its results and checks nothing; table growth, rename and rebind followed by dispatch are not tested.",
 ["osc_dispatch.c", "osc_vtable.c", "osc_query.c", "osc_rset.c", "osc_match.c", "osc_hashtab.c"],
 [("selector matching", "osc_match"), ("result sets", "osc_query_select, osc_rset_*"), ("table", "osc_vtable_addEntry / renameEntry / rebindSelector")],
 state=[("handler table", "selector -> handler, context", "osc_vtable.c")],
 observe=["handler invocations recorded by the simulator"])

prop("L10", "Queries partition a bundle by selector",
 "Selecting with any set of selectors over any bundle puts each message in a selector's complete set, its partial set or neither according to OSC pattern matching, in bundle order and with its arguments unchanged (and with the matched prefix removed from partial matches when stripping is requested). A message appears in the unmatched set exactly when no selector matched it, and iterating the result set visits every selector once.",
 ["inputs", "histories"],
 "every selector set x every bundle of addresses with wildcards, character ranges and alternatives",
 "The query test prints its results and checks nothing.",
 ["osc_query.c", "osc_rset.c", "osc_match.c", "osc_message_s.c", "osc_bundle_s.c"],
 [("matching", "osc_match"), ("result accumulation", "osc_rset_addCompleteMatch / addPartialMatch / addUnmatched"), ("prefix removal", "osc_message_s_renameCopy")],
 observe=["result sets decoded by an independent parser"])

prop("L11", "Hash tables, lists and arrays follow their models",
 "After any history of storing, overwriting, looking up, removing, clearing and iterating, a hash table answers exactly like a map from keys to the value last stored, whatever collisions occurred, and destructors run exactly once for each element discarded. A linked list answers exactly like a sequence under prepend, append, peek, pop at head, tail or any position, clone and iteration, and a growable array keeps the elements stored in it through resizing and copying.",
 ["histories"],
 "every sequence of operations over colliding and distinct keys and any table size",
 "There are no tests of the hash table; the list test covers one fixed sequence.",
 ["osc_hashtab.c", "osc_linkedlist.c", "osc_array.c"],
 [("bucket chains and rehash", "osc_hashtab_store / storeSafe / remove"), ("link maintenance", "osc_linkedlist_append / prepend / popNth / clone")],
 state=[("buckets", "key -> value chains", "osc_hashtab.c"), ("head/tail/count", "sequence", "osc_linkedlist.c")],
 observe=["lookups, iteration and destructor calls"])

prop("L12", "Time tags follow the clock and NTP arithmetic",
 "A time tag taken from the clock equals the clock's NTP time to within the clock's own microsecond resolution, so tags taken in sequence are ordered as the clock readings were, including across second boundaries, clock steps and skew. Comparison is a total order consistent with time; adding an interval and taking the interval between two tags is exact NTP fixed-point arithmetic, inverse to each other; header encode/decode, float conversion within double precision, and ISO-8601 formatting and parsing return the same instant.",
 ["inputs", "fault_sequences", "histories"],
 "every clock reading and every sequence of clock steps and pauses x every pair of time tags",
 "Tests cannot control the clock, and sample neither carries nor boundaries.",
 ["osc_timetag.c", "osc_strfmt.c"],
 [("clock read and conversion", "osc_timetag_now"), ("arithmetic", "osc_timetag_add / subtract / compare"), ("conversions", "osc_timetag_floatToTimetag / timetagToFloat / format / fromISO8601")],
 state=[("system clock", "read by gettimeofday", "osc_timetag.c")],
 observe=["tags produced under the simulated clock"])

prop("L13", "Byte-stream parser tracks OSC framing exactly",
 "Fed one byte at a time, the streaming parser accepts every well-formed bundle or message (one with a type tag string) without ever reporting an error, and its state depends only on the bytes received so far, not on how they were grouped or on other streams being parsed in between. A stream damaged so that it is no longer well-formed framing (bad header, bad address, bad type tags, misaligned sizes) enters an error state by the damaged message's end and, once in an error state, remains there until the caller restarts it; after a restart the next well-formed packet is accepted.",
 ["inputs", "schedules", "fault_sequences"],
 "every byte stream x every interleaving of streams x every damage",
 "There is no test that checks the streaming parser's verdicts.",
 ["osc_serial.c"],
 [("state machine", "osc_serial_processByte"), ("error encoding", "osc_serial_errorp, osc_serial_errstr")],
 state=[("parser state word", "macro state, micro state and byte count", "osc_serial.c")],
 observe=["state word after every byte"])

prop("L14", "Threads on separate objects do not disturb each other",
 "Threads that each build, serialise, parse, query, dispatch, format and evaluate expressions on their own objects get, under every interleaving, exactly the results each would get running alone. No interleaving causes a crash, an access to another thread's memory, or a leak.",
 ["schedules"],
 "every interleaving, at memory-access granularity, of independent API histories",
 "Tests are single-threaded, and real threads sample a vanishing part of the schedules.",
 ["osc_expr.c", "osc_expr_scanner.l", "osc_expr_parser.y", "osc_parser.y", "osc_scanner.l", "osc_mem.c", "osc_error.c", "osc_hashtab.c"],
 [("re-entrant scanners and parsers", "osc_parser.y, osc_expr_parser.y (reentrant options)"), ("no shared mutable state", "osc_expr.c function table")],
 state=[("process-wide tables", "function lookup tables built on first use", "osc_expr.c")],
 observe=["per-thread result traces compared with solo runs"])

prop("L15", "Expressions update the bundle exactly as specified",
 "Evaluating any sequence of expressions against a bundle (arithmetic, comparison and logic with element-wise promotion, assignment, compound assignment, increment, indexed access and assignment, ranges and lists, conditionals, null-coalescing, bound/exists tests, deletion, lambda application with closures, map and reduce, string and list functions, type conversions, vectors and matrices, pattern matching of addresses, time tags, nested bundles, partial and nested evaluation) leaves the bundle holding exactly the addresses and values a reference interpreter of the language predicts, and returns the values it predicts. Addresses an expression does not assign are untouched, and an expression that fails reports failure and leaves the bundle well formed.",
 ["programs", "histories"],
 "every sequence of expressions over every bundle state",
 "The expression tests evaluate fixed one-liners, each on a fresh bundle, and check only that evaluation succeeds.",
 ["osc_expr.c", "osc_expr_func.h", "osc_expr_parser.y", "osc_expr_scanner.l", "osc_expr_rec.c", "osc_bundle_s.c", "osc_atom_array_u.c"],
 [("evaluation", "osc_expr_evalInLexEnv, osc_expr_call, osc_expr_specFunc_*"), ("assignment", "osc_expr_specFunc_assign / assigntoindex / replace in osc_bundle_s"), ("element-wise promotion", "osc_typetag_getLargestType, osc_expr_1arg/2arg dispatch")],
 state=[("bundle as variable store", "address -> values", "osc_bundle_s.c")],
 observe=["bundle decoded after every expression", "returned values"])

prop("L16", "Parsed expressions are repeatable",
 "Evaluating a parsed expression leaves the expression itself unchanged: evaluating it again on an equal bundle gives the same result and the same bundle, a copy of it evaluates and formats identically, and freeing the copy leaves the original usable. Formatting writes every function, argument and literal of the program as it was parsed, in order. The bundle stays well-formed whatever the expression, also when it fails. Neither earlier evaluations, nor rejected inputs, nor other expressions parsed or freed in between alter what an expression means.",
 ["programs", "histories"],
 "every expression x every history of other parses, failures and evaluations in between",
 "The tests evaluate each expression once.",
 ["osc_expr.c", "osc_expr_parser.y", "osc_expr_scanner.l"],
 [("lambda application", "osc_expr_specFunc_apply"), ("copying", "osc_expr_copy / osc_expr_arg_copy"), ("parser entry", "osc_expr_parser_parseExpr / parseFunction")],
 state=[("expression tree", "function records and argument lists", "osc_expr.c")],
 observe=["results of repeated evaluations"])

prop("L17", "Text form and bundle form convert both ways",
 "Formatting any bundle never writes past the buffer size given, returns the full length needed, and produces the same text for the serialised and the editable form; the formatters of single values and the quoting of strings keep to the same rules. Parsing text that describes a bundle gives that bundle (same addresses, types and values, nested bundles included), parsing formatted text gives back the same bundle, and malformed text is rejected with an error, without leaking and without affecting later parses.",
 ["inputs", "histories"],
 "every bundle, every buffer size and every interleaving of valid and malformed parses",
 "Parser tests print results; truncation to a small buffer and round trips are not tested.",
 ["osc_parser.y", "osc_scanner.l", "osc_strfmt.c", "osc_bundle_s.c", "osc_bundle_u.c", "osc_message_s.c", "osc_message_u.c", "osc_atom_s.c", "osc_atom_u.c"],
 [("formatting", "osc_bundle_s_nformat, osc_bundle_u_nformat, osc_atom_u_nformat"), ("parsing", "osc_parser_parseString")],
 observe=["text and bundles, both directions, guarded buffers"])

prop("L18", "Explode and flatten are inverse tree transformations",
 "For bundles in which no address repeats or is the leading part of another, exploding to any depth nests messages under bundles named by their leading address parts, preserving every message's full path, arguments and relative order within its parent, and flattening the result gives back the original set of addresses and arguments (of messages that carry plain arguments). The source bundle is never changed, and editable and serialised forms give the same result.",
 ["inputs", "histories"],
 "every bundle, separator and depth limit",
 "The explode test checks two fixed bundles at full depth.",
 ["osc_bundle_s.c", "osc_bundle_u.c", "osc_message_u.c"],
 [("explode", "osc_bundle_u_explode, osc_message_u_explode"), ("flatten", "osc_bundle_u_flatten")],
 observe=["resulting bundles, decoded independently"])

prop("L19", "Numeric functions return their mathematical values",
 "Each numeric function offered by the expression language returns, for every argument list, the value of the mathematical function it is named after, to double precision.",
 ["inputs"],
 "every argument value of every numeric function",
 "The expression tests check that calls succeed, not the values returned.",
 ["osc_expr.c", "osc_expr_func.h"],
 [("function table", "osc_expr_func.h")])

prop("L20", "Functions are catalogued as they behave",
 "In any order of asking, and from the first question on: the list of categories names exactly the categories that functions belong to, each once, and never changes; asking for the functions of a category (short or full name, or the common root of several) gives every function in it exactly once, under that category and with its name, and nothing else; the documentation of a function carries its name, signature, description, numbers of required and optional arguments, names and types of each argument and categories exactly as its record holds them, and an unknown function or category is answered as such, however long its name. The answers belong to the caller: nothing done to one shows in the next, and releasing them leaves nothing behind but the kept tables. A call is accepted exactly when its number of arguments lies between the documented required and optional ones. A function record built by a caller holds copies of what it was given, and a copied record outlives its original.",
 ["histories", "inputs"],
 "every order of questions from a process that has built none of the kept tables, every function, category and number of arguments, every allocator behaviour",
 "No test asks for a category or for documentation; numbers of arguments are tried for a few functions.",
 ["osc_expr.c", "osc_expr_func.h", "osc_expr_rec.c", "osc_expr_parser.y", "osc_bundle_u.c", "osc_match.c"],
 [("tables built on first use", "osc_expr_makeFunctionBundle, osc_expr_makeCategoryBundle"), ("documentation", "osc_expr_formatFunctionDoc, osc_expr_formatTypes"), ("argument counts", "osc_expr_parser_checkArity")],
 state=[("osc_expr_functionBundle, osc_expr_categoryBundle", "the kept tables", "osc_expr.c")],
 observe=["answers decoded independently and held against the function records and the parser"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
