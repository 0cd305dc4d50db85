# id -> (what is decided and how, why this reaches what tests cannot, limits)
D = {
"C01": ("Enumerated: every pattern up to n operators over several operand alphabets, and over every operator of the library, times every short input; every byte value through every instruction form; every small pattern at the window edges and behind long jumps and spans; matches and backtrack stacks of up to 40000 entries. Oracle: the reference interpreter (match, end, captures, errors).",
 "The compiler has ~15 head-fail/peephole forms chosen by the shape and operands of neighbours; all pairs and triples of shapes are in the bound.",
 "Patterns of more operators than the bound; repetition of empty matches."),
"C02": ("Same enumeration with captures: all capturing patterns to the bound, captures of every fixed length 0..300, ids over the 16-bit range, tens of thousands of captures side by side or nested; `CapGrammar` over all small grammars. The whole capture tree is compared.", "Which of the three capture encodings is used, and which stack entry carries the captures, depends on everything around the capture.", "Nesting deeper than 5000 captures (quadratic copying in gpeg)."),
"C03": ("All two-rule grammars with bodies up to the bound, all three-rule shapes, grammars nested in rules and patterns, every operator in rule bodies, recursion to depth 40000, rule sizes around the inlining threshold; thresholds 0 and 100.", "Inlining, tail calls and rule order (map iteration) depend on the shape of every rule.", "More than three mutually recursive rules only in curated grammars."),
"C04": ("Patterns times routes: compiled once, twice from one value, without the optimiser, at thresholds 0/100; equal sub-patterns as one value within and across patterns, compiled in both orders before any runs; one value used 2–3 times in 14 shapes; shared rules and non-terminals; printing and walking before and between compilations, also of grammars that share their start rule.", "Sharing bugs need the same value at two places of a pattern with certain neighbours.", "Concurrent compilation of one value."),
"C05": ("Search(p) for all p to the bound in 10 contexts; all first-byte sets around the skip heuristic; long texts.", "The skip-ahead span is chosen from the first instruction of p.", ""),
"C06": ("All patterns with error nodes to the bound; error lists compared in order with positions; recovery lists; up to thousands of errors in one parse.", "Error recovery inside predicates, choices and captures.", "Errors inside memoized patterns."),
"C07": ("All patterns with checkers to the bound; the log of checker calls (bytes, id, flag, input position) is compared call by call; all sequences of definitions and uses of back-references, several checkers; long references; checkers that return any number from far below zero to far beyond the end; flags and ids over their range.", "A wrong slice or a dropped second call shows only for particular shapes.", "Checks inside memoized patterns."),
"C08": ("All 65536 byte pairs around a position, all patterns with assertions to the bound, all offsets around window edges with different reading histories.", "The byte before the window is kept separately; only positions at an edge after particular seeks use it.", ""),
"C09": ("All memoized patterns to the bound, three parses each (none, fresh table, same table) at several thresholds; all sequences of creations of memoized patterns with automatic and explicit ids, each pair at one place; two parsers on one table.", "Id clashes and re-use of an entry in another context within one parse.", "Results that depend on more than the input bytes."),
"C10": ("All memoized patterns to the bound times all short documents times every single edit (any range, all short insertions); all pairs of edits for smaller ones; curated grammars with all 1–2 edit histories; look-ahead of each length, nested and reused; documents with many entries so that the interval tree rebalances with pending shifts; documents that are ropes or readers edited in place; assertions.", "A stale entry needs an edit at exactly the boundary of what was examined, a shift bug needs a certain tree shape with a pending shift.", "More than three edits only on the curated list and in the long histories of `long-histories`."),
"C11": ("Every count of items to the bound and around powers of two, all items to the bound over every operator, all single edits everywhere, all double (and some triple) edits at small counts.", "The binary-counter merging of adjacent entries depends on exact counts.", ""),
"C12": ("All capturing patterns to the bound times all intervals; histories of interval parses and edits on one table.", "Captures at exactly the interval's ends, at each nesting.", "Captures inside and-predicates."),
"C13": ("Every sequence of operations to depth 4–5 from the empty map, every sequence of 2 from every small insertion order, three operations on maps of 6–16 intervals with shapes and length profiles, draining, maps of hundreds of intervals; three implementations; enumeration, lookup, size, and the position handle of every value are compared after every step.", "Rotations with pending shifts and the subtree maximum only matter for particular orders.", "Touching intervals (see false alarms)."),
"C14": ("Every history of put/get/edit/enumerate to the depth bound; nested and look-ahead entries; captures of stored results tracked through every edit; thresholds.", "No unit test of the table exists.", ""),
"C15": ("All capture trees up to 8–9 nodes with every placement of grouping nodes; wide and deep ones. Oracle: flattening.", "Empty and nested grouping nodes at the ends.", ""),
"C16": ("All operation sequences to the depth bound from offsets around chunk edges, with readers that return the end early, late, or deliver short; every position of documents of up to three windows; the furthest position is compared as a lower bound.", "The only test uses 11 bytes.", ""),
"C17": ("Every delivery script (split, empty reads, how the end or an error is signalled, errors in mid-stream) of short streams times every sequence of reads; large streams; patterns parsed from a wrapped stream with every split.", "Needs particular splits.", ""),
"C18": ("All histories of operations to the depth bound on small leaves with 8 settings and 4 constructions, other ropes over the same bytes watched for aliasing; typing histories; default leaf sizes; several core counts.", "Copy-on-write and rebalancing depend on history.", ""),
"C19": ("All texts to the bound over separators and other bytes, all histories of one operation (two for shorter texts), separators of one to four bytes including ones that overlap themselves; every offset and every line/column is converted.", "Cached extents of every node must be right after every edit.", "See known finding."),
"C20": ("All patterns to the bound through binary, binary twice, JSON, JSON then binary; every instruction kind with boundary operands; grammars; other JSON spellings of the same program (field order, spacing, escapes).", "Serialization is one round trip of one grammar in the tests.", "See known finding."),
"C21": ("Every truncation, every value of every byte, every deletion and insertion at every position, of the saved forms of parsers with each kind of content.", "No test loads damaged data.", "Two-byte faults only near the ends."),
"C22": ("All valid texts among all token sequences to the bound, all printed patterns, all escapes, classes and spacing, capturing compilation. Oracle: an independent recursive-descent reader that yields a pattern for the interpreter.", "Tests compile four fixed grammars.", ""),
"C23": ("All strings over the syntax's characters and tokens to the bound, every one-character damage of valid grammars, all grammars with missing rules in every place, all pattern values with undefined non-terminals. Each must be an error or a parser that runs like the text says; panics and hangs are violations.", "Malformed input is not tested.", ""),
"C24": ("All expressions to the bound over several atom alphabets, greedy, lazy, classes, anchors, all flag combinations, every ASCII byte, unsupported constructs. Oracle: Go's `regexp`.", "Tests convert about ten expressions.", "Non-ASCII; repetition of nullable expressions."),
"C25": ("All 256 singletons, all 65536 ranges, all pairs from a family with every boundary, expressions to depth 2–3; all 256 bytes looked up each time.", "Complete in bytes and ranges.", ""),
"C26": ("Sizes at every 8-, 16- and 24-bit limit ±1–2 of literals, counts, captures, sets, errors, checkers, jumps, programs, ids.", "Tests stay far below every limit.", ""),
"C27": ("Scenarios: 2–3 threads parsing with one parser (own stacks, error lists, checkers), sharing a memo table (fresh, filled, edited, while others ask for sizes, entries and captures), sharing a wrapped stream, compiling different patterns, PEGs and regular expressions.", "No test starts a second goroutine.", "More preemptions than the bound; preemption inside a statement only through the race detector."),
"C28": ("On one parser, all sequences of documents for every pattern to the bound; all sequences of parses, aborted, panicking, nested, interval and table-sharing parses for parsers with every kind of state; document sizes that grow and shrink buffers. Each step is compared with a fresh parser, and earlier capture trees with what they were.", "Tests use most parsers once.", ""),
"C29": ("Construction at each text length, leaf size and core count; every pair of read operations on shared ropes of different shapes.", "The race detector is never run.", "As C27."),
"C30": ("A recording checker is put at the start of every memoized sub-pattern, so each evaluation is seen. Oracle: a small interpreter that keeps the results that must be known, with an upper bound for how far each may have looked, and drops those an edit comes near; the parse may evaluate at each place at most as often as it does. A second parser without the checkers must leave every result of the successful path in its table. All patterns to the bound, all edits, all pairs of edits; repetitions to 40 items; look-ups through a counting table for up to 20000 items and histories of up to 2000 edits.", "Losing the whole table would not fail a test.", "The constant in the bound on look-ups (4 log2 n + 24) is about three times what is needed now."),
}
