BE = "bounded exhaustive enumeration of programs and inputs on the real code against a reference interpreter"
NA = {}
NOTES = {
"C01": (BE, "Every pattern and input within the stated bounds is executed on the real compiler and VM; complete within the bounds, silent beyond them. Trusts the ~150-line reference interpreter."),
"C02": (BE, "Complete within the bounds; trusts the reference interpreter's capture rules (and-predicate captures kept)."),
"C03": (BE, "All 2- and 3-rule grammars up to the bound, nested grammars, contexts and threshold sizes. Trusts lexical scoping of the reference interpreter."),
"C04": ("bounded exhaustive enumeration of programs x compilation routes, differential and against a reference interpreter", "Complete within the bounds over routes (optimised, raw, recompiled, thresholds, shared values)."),
"C05": (BE, "Complete within the bounds; trusts the reference scan."),
"C06": (BE, "Complete within the bounds; error lists are compared in order with positions."),
"C07": (BE, "Complete within the bounds; checker call logs are compared call by call."),
"C08": (BE, "All byte pairs, all positions around window edges, all small patterns; oracle is regexp/syntax.EmptyOpContext."),
"C09": (BE, "Complete within the bounds; compares first parse, reparse and no table for several thresholds, and two parsers sharing a table."),
"C10": ("bounded exhaustive enumeration of edit histories on the real code, each step compared with a reference interpreter", "All histories of 1-3 edits within the bounds; patterns and documents beyond them are not covered. Longer histories only reach code paths shorter ones reach if table state does not accumulate (C13 covers the tree itself deeper)."),
"C11": ("bounded exhaustive enumeration of item counts and edit histories on the real code against a reference interpreter", "Counts to 24 (70 thorough), histories of 1-3 edits."),
"C12": (BE, "All intervals of all inputs in the bound; histories of interval parses and edits on one table. Captures inside and-predicates are excluded."),
"C13": ("explicit-state exploration of operation histories of the real interval maps, in lockstep with a list model", "All operation sequences to the stated depths over small positions and ids, for all three implementations. Intervals that merely touch the edited range may go or stay (the implementations differ, the property leaves it open)."),
"C14": ("explicit-state exploration of put/get/edit histories of the real memo table, in lockstep with a list model", "All histories to the stated depth over small positions, ids, lengths and thresholds."),
"C15": ("bounded exhaustive enumeration of capture trees on the real code against direct flattening", "All trees up to the size bound; silent beyond it."),
"C16": ("explicit-state exploration of operation sequences on the real input window, in lockstep with a byte-array model", "All sequences to the stated depth, offsets around chunk edges, three reader behaviours."),
"C17": ("exhaustive enumeration of stream delivery scripts (fault sequences) and read histories on the real reader", "All scripts of streams to the bound and all read sequences to the stated depth."),
"C18": ("explicit-state exploration of rope operation histories on the real code, in lockstep with a byte-string model", "All histories to the stated depths with tiny leaf sizes, and directed ones around the default sizes; several core counts for Rebalance."),
"C19": ("explicit-state exploration of rope operation histories on the real code, compared with a plain scan for separators", "All histories to the stated depths, separators of one to four bytes. One recorded finding: a separator split across two leaves."),
"C20": ("bounded exhaustive enumeration of programs, serialized forms and inputs on the real code, differential against the original parser and a reference interpreter", "All patterns in the bounds through binary and JSON forms, and JSON encodings of the same program written differently. One recorded finding: JSON replaces invalid UTF-8 in error messages."),
"C21": ("exhaustive enumeration of faults (every single-byte change, deletion, insertion, truncation) injected into serialized parsers", "Every fault at every position for the sampled list of programs; faults of two bytes only near the ends. A fault is accepted only when the loaded parser is the original."),
"C22": ("exhaustive enumeration of textual grammars up to a size against an independent reader of the documented syntax and a reference interpreter", "All texts from the grammar of the notation to the size bound; escapes exhaustively; trusts the harness's own reader."),
"C23": ("exhaustive enumeration of malformed texts and pattern values up to a size, each required to end in an error or a working parser", "All strings over the token alphabet to the length bound; no claim beyond it."),
"C24": ("exhaustive enumeration of regular expressions and inputs up to a size, compared with Go's regexp", "All expressions over the operators to the depth bound on all short inputs; ASCII classes. Excludes expressions that repeat an empty match."),
"C25": ("exhaustive enumeration of byte-set expressions up to a depth, each compared with a 256-entry table", "All operations on all generator sets to the depth bound, all 256 bytes each."),
"C26": ("exhaustive enumeration of operand values around each encoding limit on the real code against a reference interpreter", "Sizes around every 8-, 16- and 24-bit limit of the encoding; a refusal (panic or error) counts as visible failure."),
"C27": ("stateless model checking of the real code: enumeration of all thread schedules up to a preemption bound under a cooperative scheduler, each executed under the race detector", "All schedules of each scenario with the stated number of preemptions, at every statement of a build-time copy and at every lock operation. Hand-overs are invisible to the race detector, so it judges each schedule by the program's own synchronization. Preemption inside a statement is covered only through the race detector; more preemptions than the bound are not covered."),
"C28": ("exhaustive enumeration of operation histories on one real parser, each step compared with a freshly compiled parser", "All sequences of parses, aborted, panicking, nested and interval parses to the stated depth for the stated parsers."),
"C29": ("stateless model checking of the real code: enumeration of all thread schedules up to a preemption bound under a cooperative scheduler, each executed under the race detector", "Same machinery as C27; the core count is set by the harness."),
"C30": ("explicit-state exploration of edit histories on the real code, every evaluation compared with a model of what the memo table must know", "All patterns, texts and histories of 1-3 edits within the bounds; repetitions to 20000 items and histories of up to 2000 edits along fixed plans. Trusts the model's upper bound of examined bytes."),
}
