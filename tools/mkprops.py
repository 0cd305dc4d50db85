#!/usr/bin/env python3
"""Generates properties.jsonl (kept in a script so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Patterns match exactly what the PEG operators say",
 "For every pattern built from literals, byte sets, any-n, empty, sequence, ordered choice, star, plus, optional, repeat, not- and and-predicates, and every input, parsing reports a match exactly when PEG semantics says so and, on a match, ends at exactly the position PEG semantics defines. Ordered choice commits to its first succeeding alternative, repetition is greedy and never backtracks into itself, predicates consume nothing, and a failed operand leaves no effect on the input position. (Repetition of a body that can match the empty string is outside the property.)",
 ["programs", "inputs"], "all patterns over the operator alphabet and all byte inputs",
 "The tests parse a dozen hand-written patterns on a handful of strings; operator interactions (head-fail optimised instructions, backtracking out of multi-byte any, nested predicates) are only reached by combining operators systematically.",
 ["pattern/pattern.go", "pattern/compile.go", "pattern/optimize.go", "vm/vm.go", "vm/stack.go"],
 [("per-node compilation schemes", "pattern/compile.go"), ("backtrack stack and instruction interpreter", "vm/vm.go:exec")],
 state=[("backtrack stack", "saved (ip, input offset) pairs", "vm/stack.go"), ("input position", "current offset in the subject", "input/input.go")],
 observe=["vm.Code.Exec (match, position)"])

prop("C02", "Capture trees record exactly the captures on the successful path",
 "On a match, the returned capture tree contains exactly one node per capture that completed on the successful parse path, with the right id, start and end, nested and ordered as the captures were nested and entered; captures made inside an alternative, repetition iteration, optional or not-predicate that was abandoned are absent, and captures made inside a succeeding and-predicate are kept. The root covers [0, match end). A grammar built with CapGrammar captures every use of every rule under the id it reports for the rule, whatever ids the map it reports them in held before, and leaves the rules it is given as they were.",
 ["programs", "inputs"], "all capturing patterns and grammars over the operator alphabet and all inputs",
 "Existing tests look at capture trees for two grammars (arithmetic, json) on one input each; propagation through choice, partial commit, back commit, calls and predicates must hold for every nesting.",
 ["pattern/compile.go", "vm/vm.go", "vm/stack.go", "memo/capture.go"],
 [("capture begin/late/full instruction selection", "pattern/compile.go:CapNode"), ("propagation of captures on pop and partial commit", "vm/stack.go")],
 state=[("per-stack-entry capture list", "captures made since the entry was pushed", "vm/stack.go")],
 observe=["capture tree returned by Exec"])

prop("C03", "Grammars mean the same however their rules are resolved",
 "For every grammar (mutually recursive rules, rules referring to rules, unused rules, grammars nested inside patterns and inside rules of other grammars) and every input, a non-terminal matches exactly what its definition in the innermost enclosing grammar that defines it matches, whether the compiler inlines it, calls it or turns the call into a jump. (Left-recursive grammars are outside the property.)",
 ["programs", "inputs"], "all grammars with up to a few rules over the operator alphabet, and all inputs",
 "Tests use four fixed grammars; the decision to inline, keep a return, or tail-call depends on the shape of each rule and on map iteration order.",
 ["pattern/compile.go", "pattern/optimize.go", "vm/vm.go"],
 [("inliner", "pattern/optimize.go:inline"), ("call resolution and tail-call optimisation", "pattern/compile.go:GrammarNode")],
 state=[("return stack", "return addresses interleaved with backtrack entries", "vm/stack.go")],
 observe=["vm.Code.Exec", "vm.Code.ExecInterval"])

prop("C04", "Compilation is repeatable and optimisation is unobservable",
 "Compiling the same pattern value again, with a different inlining threshold, with or without the optimisation pass, or as part of several patterns and grammars that share sub-pattern values, always yields a parser with the same observable behaviour (match, position, captures, errors) on every input. Neither compiling nor printing (Prettify) nor walking one pattern changes what another parser does or whether another grammar compiles.",
 ["programs", "inputs", "configurations"], "all patterns and grammars, all inputs, all inlining thresholds, all orders of compiling shared patterns",
 "Tests compile every pattern once with the default threshold and never compare optimised with unoptimised programs.",
 ["pattern/compile.go", "pattern/optimize.go", "vm/code.go"],
 [("peephole optimiser", "pattern/optimize.go:Optimize"), ("pattern simplifier", "pattern/optimize.go:Get"), ("inlined-definition cache on non-terminals", "pattern/nodes.go:NonTermNode")],
 state=[("Inlined", "definition a non-terminal was replaced by", "pattern/nodes.go")],
 observe=["pattern.Compile", "vm.Encode + Exec"])

prop("C05", "Search finds the leftmost match",
 "Search(p) succeeds exactly when p matches at some position of the input, and then ends where the match of p starting at the leftmost such position ends, with that match's captures and no others; repeating a search walks through successive non-overlapping matches. This holds for every p, including p that is anchored by predicates, assertions or non-terminals, in any context (inside grammars, repetitions, alternatives).",
 ["programs", "inputs"], "all patterns and inputs",
 "One test searches one pattern; the skip-ahead optimisation depends on the first instruction of the compiled pattern and on set sizes around a heuristic limit.",
 ["pattern/compile.go"], [("search grammar with skip-ahead set", "pattern/compile.go:SearchNode")],
 observe=["Exec on patterns containing Search"])

prop("C06", "Error nodes report in order and recover or stop as specified",
 "Every error node reached during a parse appends exactly one error with its message and the input position at which it was reached, in the order reached; if it has a recovery pattern, parsing continues exactly as if that recovery pattern stood there, and otherwise the whole parse stops at once and reports no match.",
 ["programs", "inputs"], "all patterns containing error nodes and all inputs",
 "One test exercises error recovery on one grammar.",
 ["pattern/compile.go", "vm/vm.go", "vm/code.go"], [("error instruction and failing end", "vm/vm.go:opError/opEnd")],
 state=[("errs", "errors collected so far", "vm/vm.go:exec")], observe=["error list and match flag returned by Exec"])

prop("C07", "Checkers and back-references see exactly the matched text",
 "A check node succeeds only if its pattern matches and its checker, called once per completed match with exactly the matched bytes, the node's id and flag, and the input positioned at the end of the match, returns a non-negative number no greater than the number of bytes left, and that many bytes are then consumed in addition. The word-set checker accepts exactly its words, and a back-reference use matches exactly the text most recently defined under its id during the parse.",
 ["programs", "inputs"], "all patterns containing checks and back-references, and all inputs",
 "One test checks one fixed word list and one fixed back-reference grammar.",
 ["isa/checker.go", "pattern/compile.go", "vm/vm.go"], [("check begin/end instructions", "vm/vm.go:opCheckBegin/opCheckEnd"), ("MapChecker, BackReference", "isa/checker.go")],
 state=[("Symbols", "text defined per back-reference id", "isa/checker.go")], observe=["arguments received by a user checker", "Exec"])

prop("C08", "Zero-width assertions agree with their regexp meaning",
 "At every position of every input, each zero-width assertion (begin/end of line, begin/end of text, word boundary, no word boundary) succeeds exactly when Go's regexp/syntax defines it to hold between the previous and the next byte there, consumes nothing, and does so independently of how the input is chunked or which parts of it were read before.",
 ["inputs", "programs"], "all bytes before and after, all positions including chunk edges, all histories of backtracking",
 "One test uses a word boundary on one string.",
 ["vm/vm.go", "input/input.go"], [("opEmpty", "vm/vm.go"), ("PeekBefore", "input/input.go")], observe=["Exec"])

prop("C09", "Memoization never changes the result of a parse",
 "For every pattern with memoized sub-patterns, every input and every memoization threshold, parsing with a fresh memo table gives the same match, end position and captures as parsing without memoization, and parsing the unchanged input again with the table left by an earlier parse gives them again. (Memoized sub-patterns whose result depends on anything but the input bytes they read are outside the property.)",
 ["programs", "inputs", "histories"], "all memoized patterns and grammars, all inputs, all thresholds, any number of repeated parses",
 "Tests memoize three large grammars and look only at memo-friendly inputs; re-use of an entry in a different context within one parse is hardly reached.",
 ["vm/vm.go", "vm/stack.go", "memo/tree.go", "memo/entry.go", "pattern/compile.go"],
 [("memo open/close instructions", "vm/vm.go"), ("TreeTable", "memo/tree.go")],
 state=[("memo entries", "length, examined length, captures per (id, position)", "memo/entry.go")], observe=["Exec with NoneTable vs TreeTable"])

prop("C10", "Incremental reparse equals a full reparse after any edits",
 "After any sequence of edits to a document, each applied both to the text and to the memo table (with parses in between or not, and in whatever order of positions), parsing with the table gives the same match, end position and capture tree as parsing the current text from scratch. This holds for insertions, deletions and replacements at any position including both ends, for look-ahead of any length in memoized patterns, and for every threshold.",
 ["histories", "programs", "inputs"], "all memoized grammars, documents and edit histories",
 "Tests apply a few fixed or random edits to two documents; a stale entry needs an edit at exactly the boundary of what some memoized rule examined.",
 ["memo/tree.go", "memo/capture.go", "memo/interval/lazylog/tree.go", "vm/vm.go", "input/input.go"],
 [("examined-length tracking (Furthest)", "input/input.go, vm/vm.go:memoize"), ("edit invalidation and shifting", "memo/tree.go:ApplyEdit"), ("relative capture positions", "memo/capture.go")],
 state=[("furthest", "furthest byte position examined", "input/input.go"), ("memo table", "entries keyed by (id, position)", "memo/tree.go")],
 observe=["Exec after ApplyEdit vs Exec with NoneTable"])

prop("C11", "Repetitions of memoized items parse the same at any count and edit",
 "A repetition of a memoized pattern matches the same text and yields the same captures, in order, as the repetition of the unmemoized pattern, for every number of repetitions, and continues to do so after any history of edits that add, remove or change items anywhere in the repetition.",
 ["histories", "inputs", "programs"], "all item counts, all item patterns, all edit histories",
 "Tests only reach the tree-merging code through large grammars; merge order depends on the exact counts of adjacent entries after edits.",
 ["vm/vm.go", "pattern/compile.go", "memo/capture.go", "memo/tree.go"],
 [("memo tree instructions", "vm/vm.go:opMemoTree*"), ("dummy captures", "memo/capture.go")],
 state=[("memo tree stack entries", "runs of items with counts", "vm/stack.go")], observe=["Exec with TreeTable vs NoneTable"])

prop("C12", "Interval-restricted parsing yields the captures in the interval",
 "Parsing with a capture interval gives the same match and end position as an ordinary parse, and a capture tree containing exactly those captures of the ordinary parse that overlap the interval (start before its end, end after its start), nested and ordered as in the ordinary parse; the returned root covers the interval and all those captures. With a memo table that is re-used across interval parses and edits, the captures overlapping the requested interval are still all there.",
 ["programs", "inputs", "histories"], "all capturing patterns, inputs, intervals, and histories of interval parses and edits on one memo table",
 "No test calls the interval entry point with anything but one fixed interval.",
 ["vm/vm.go", "memo/tree.go"], [("interval filter", "vm/vm.go:overlaps"), ("clearing of memo entries in the interval", "vm/vm.go:exec")], observe=["ExecInterval vs Exec"])

prop("C13", "Interval maps behave like a list of shiftable intervals",
 "For every sequence of additions, lookups, removals-with-shift and enumerations (lookups interleaved anywhere), each interval map implementation returns what a plain list of (id, low, high, value) would: the value of a largest interval at (id, position), exactly the surviving values and their number, and position handles that track every shift as long as their value is not overlapped by a removed range (a value that a removed range only touches may go, but what contains it may stay and keeps asking for its position). Every value whose interval overlaps the removed range goes, every value not touching it stays, and those at or after it move by the shift amount.",
 ["histories"], "all operation sequences over small positions and ids, from empty and from pre-filled maps",
 "Tests run one random sequence each against a partly broken reference and compare lookups only.",
 ["memo/interval/lazylog/tree.go", "memo/interval/lazylog/interval.go", "memo/interval/lazy/tree.go", "memo/interval/lazy/array.go", "memo/interval/map.go"],
 [("augmented AVL tree with lazily applied shifts", "memo/interval/lazylog/tree.go, memo/interval/lazy/tree.go")],
 state=[("pending shifts", "shifts not yet applied to a node", "memo/interval/lazylog/tree.go"), ("max", "largest interval end in the subtree", "memo/interval/lazylog/tree.go")],
 observe=["interval.Map methods", "interval.Pos"])

prop("C14", "The memo table keeps valid entries and drops edited ones",
 "A stored result is found again at its (possibly shifted) position with the length, count and captures it was stored with until an edit touches the text it examined; results below the threshold and zero-length results are not stored, the longest-reaching of several results at one place is returned, and after every edit the enumeration and size of the table agree with what can be looked up. Captures held by a stored result move with it.",
 ["histories"], "all sequences of put, get and edit over small positions, ids, lengths and thresholds",
 "No unit test of the table exists; it is only used through large parses.",
 ["memo/tree.go", "memo/entry.go", "memo/capture.go", "memo/interval/lazylog/tree.go"], [("TreeTable.Put/Get/ApplyEdit", "memo/tree.go"), ("capture re-basing", "memo/capture.go:setMEnt")],
 state=[("entries", "stored parse results", "memo/entry.go")], observe=["memo.Table methods"])

prop("C15", "Capture navigation agrees with the capture tree",
 "For every capture tree, iterating the children of a node, indexing them and counting them agree with each other: they yield, in document order, exactly the node's real children, with the internal grouping nodes that memoized repetitions introduce flattened away at any depth; indices beyond the count yield nothing.",
 ["inputs"], "all trees of real and grouping nodes up to a size, including empty grouping nodes",
 "Tests iterate over the captures of two concrete parses.",
 ["memo/capture.go"], [("ChildIterator, Child, NumChildren", "memo/capture.go")], observe=["memo.Capture methods"])

prop("C16", "The input window presents the document exactly",
 "For every document and every sequence of peeks, peeks back, advances, seeks and slices, the buffered input returns exactly the document's bytes at the requested positions and correct end-of-input answers, independent of how positions fall relative to its internal chunks and of how the underlying reader returns end-of-file. A slice keeps its bytes while reading goes on. The furthest position it reports is never less than the furthest position peeked at or advanced over (or, if that lies beyond the end, the end).",
 ["histories", "inputs"], "all operation sequences over positions around chunk edges, and all document lengths around multiples of the chunk size",
 "The only test uses an 11-byte document, so no chunk edge is ever crossed.",
 ["input/input.go"], [("chunked refill", "input/input.go:refill"), ("furthest tracking", "input/input.go:Peek/Advance")],
 state=[("base, coff, nchunk", "window start, cursor in window, window size", "input/input.go"), ("furthest", "furthest examined position", "input/input.go")], observe=["input.Input methods"])

prop("C17", "Wrapping a stream gives random access to exactly its bytes",
 "For every way a stream may deliver its bytes (any split into short reads, data together with end-of-file or an error, errors in mid-stream) and every sequence of reads at arbitrary offsets, the wrapped stream returns exactly the stream's bytes for the requested range, as many as exist, and a nil error only if the request was filled. Parsing a wrapped stream gives the same result as parsing the same bytes in memory.",
 ["fault_sequences", "histories"], "all delivery scripts of short streams, all read sequences",
 "The test reads three ranges from a well-behaved buffer.",
 ["input/reader.go"], [("growing buffer", "input/reader.go:ReadAt")], state=[("buf", "bytes received so far", "input/reader.go")], observe=["ReadAt of input.FromReader", "Exec"])

prop("C18", "Ropes hold exactly the edited text",
 "After any sequence of construction, insertion, removal, splitting, joining, rebuilding and rebalancing, a rope's value, length, byte access, random-access reads, leaf traversal and streamed output all agree with the plain byte string that the same operations produce, for every leaf size configuration and machine core count. Operating on one rope never changes the text of another rope that shares data with it or of the bytes passed in by the caller, except the two operands consumed by a split or join.",
 ["histories", "configurations"], "all operation sequences on short texts with tiny leaf sizes, and around the default leaf sizes",
 "Tests apply random inserts/removes to a 5000-byte text with fixed options; rebuild, rebalance, aliasing and option settings are untested.",
 ["input/linerope/rope.go"], [("leaf split/join thresholds", "input/linerope/rope.go:adjust"), ("copy-on-write slices", "input/linerope/rope.go:insert/remove")],
 state=[("leaf values", "slices, possibly shared with the caller", "input/linerope/rope.go")], observe=["linerope.Node methods"])

prop("C19", "Rope line/column positions agree with the text",
 "For every text, line separator and edit history, the number of lines, the end position, the line and column of each offset, the offset of each line and column, and slices between line/column positions agree with a plain scan of the text for separators. Converting an offset to line/column and back is the identity.",
 ["histories", "inputs"], "all texts over separator and ordinary bytes, separators of one to four bytes including ones that overlap themselves, all edit histories up to a depth",
 "Tests check 100 random offsets of random text with separator '\\n' only.",
 ["input/linerope/line.go", "input/linerope/rope.go", "input/linerope/util.go"], [("cached line lengths per node", "input/linerope/rope.go"), ("location arithmetic", "input/linerope/line.go")],
 state=[("llength", "line/column extent of a subtree", "input/linerope/rope.go")], observe=["LineColAt, OffsetAt, SliceLC, NumLines, LLen"])

prop("C20", "Serialized parsers behave like the original",
 "For every compiled parser, saving it in binary form and loading it back gives a parser with the same behaviour (match, position, captures, errors, checkers, back-references) on every input, and so does the JSON form for parsers without checkers; saving the loaded parser again gives an equally good copy.",
 ["programs", "inputs"], "all instruction kinds and operand values, all inputs",
 "One test round-trips one grammar through the binary form; the JSON test depends on a missing file.",
 ["vm/code.go", "isa/checker.go"], [("gob+gzip and JSON encoding", "vm/code.go")], observe=["ToBytes/FromBytes, ToJson/FromJson, Exec"])

prop("C21", "Damaged serialized parsers are rejected",
 "Loading a saved parser from data that was cut short at any point, or in which any single byte of the compressed payload or its checksum was changed, either returns an error or returns a parser equal to the one that was saved; it never silently yields a different parser and never panics. The same holds for any truncation of the JSON form.",
 ["crash_points", "fault_sequences"], "all truncation points and all single-byte corruptions of saved parsers",
 "No test loads damaged data.",
 ["vm/code.go"], [("error returns of FromBytes/FromJson", "vm/code.go")], observe=["FromBytes, FromJson"])

prop("C22", "Textual PEGs mean what the documented syntax says",
 "For every text that is valid in the documented PEG syntax, compiling it gives a pattern that matches, and captures, exactly what the text denotes: operator precedence, grouping, suffixes, predicates, literals and classes with all escapes and ranges, comments and spacing, memoizing double braces, and the first definition as start rule. Capturing compilation captures every rule with the id reported for its name.",
 ["programs", "inputs"], "all texts of the PEG syntax up to a size, all inputs",
 "Tests compile four fixed grammars; escapes, class corner cases and most spacing positions are not covered.",
 ["re/re.go", "re/grammar.go"], [("PEG grammar", "re/grammar.go"), ("AST to pattern translation", "re/re.go")], observe=["re.Compile, re.CompileCap + Exec"])

prop("C23", "Malformed patterns and grammars are reported as errors",
 "A text that is not valid PEG syntax, a grammar whose start rule uses, directly or through other rules, an undefined non-terminal (other than in an alternative that can never be tried), and a grammar whose start rule is undefined are each reported as an error value by the compile functions, and every text that is accepted compiles to a runnable parser; no input text, however short or damaged, makes the compile functions panic or hang, except that the Must variants panic exactly when the others report an error. (A repetition x+ is compiled as x x*, so n of them nested cost 2^n; that is outside.)",
 ["inputs", "programs"], "all short texts over the syntax's own characters, all single-character damages of valid texts, all grammars with missing rules",
 "Tests compile only well-formed grammars.",
 ["re/re.go", "re/grammar.go", "pattern/compile.go"], [("NotFoundError", "pattern/compile.go"), ("error returns", "re/re.go")], observe=["re.Compile, pattern.Compile"])

prop("C24", "Converted regular expressions match like Go's regexp",
 "For every supported regular expression over single-byte characters (literals, classes, any, alternation, groups, greedy and non-greedy star, plus, question, anchors, word boundaries, case folding), the converted pattern finds a match exactly where Go's regexp package does: same leftmost start and same end. Unsupported expressions are rejected with an error, never mis-converted. (Repetition of a sub-expression that can match empty is outside the property.)",
 ["programs", "inputs"], "all regular expressions up to a size, all short ASCII inputs",
 "Tests convert about ten fixed expressions.",
 ["rxconv/rxconv.go"], [("continuation-passing conversion", "rxconv/rxconv.go:pi")], observe=["rxconv.FromRegexp + Exec vs regexp.Regexp"])

prop("C25", "Byte sets obey set algebra",
 "Constructing a byte set from bytes or a range gives exactly those bytes; union, difference and complement give exactly the bytes set theory says; membership, size and smallness agree with the contents; and the printed form lists exactly the members.",
 ["inputs"], "all 256 bytes, all 65536 ranges, all pairs from a family of sets with every boundary byte",
 "There is no test of the charset package beyond a few membership checks.",
 ["charset/charset.go"], [("bit array operations", "charset/charset.go")], observe=["charset.Set methods"])

prop("C26", "Encoding is faithful up to every operand limit",
 "A pattern behaves according to its semantics at every operand value the public interface accepts: any byte value, repeat and any counts up to their limits, literals and captures longer than 255 bytes, hundreds of distinct sets, errors and checkers, programs longer than 64 KiB, and capture or memo ids over the whole supported range. Where a limit of the encoding is exceeded, compilation fails visibly instead of producing a parser that misbehaves.",
 ["programs", "configurations"], "all operand values near every encoding boundary (8-, 16-, 24-bit)",
 "Tests stay far below every operand limit.",
 ["vm/code.go", "vm/op.go", "pattern/compile.go", "vm/vm.go"], [("operand encoding and decoding", "vm/code.go, vm/vm.go:decode*")], observe=["Encode + Exec"])

prop("C27", "Concurrent parses do not interfere",
 "Any number of goroutines may run the same compiled parser at once on their own inputs, may share one memo table for full parses of the same document (also one that was filled and edited before, and while others ask for its size and entries), may share one wrapped stream, and may create and compile their own patterns at once; under every interleaving each gets the result it would get alone, including when it reads its captures while others still parse, and there is no data race, deadlock or crash.",
 ["schedules"], "all interleavings of two or three threads up to a preemption bound, with shared code, memo table and stream",
 "No test starts a second goroutine.",
 ["memo/tree.go", "memo/entry.go", "input/reader.go", "vm/vm.go", "memo/interval/lazylog/tree.go", "pattern/pattern.go", "isa/isa.go"], [("TreeTable lock", "memo/tree.go"), ("reader lock", "input/reader.go"), ("number generators", "isa/isa.go, pattern/pattern.go, rxconv/rxconv.go")],
 state=[("shared memo table", "entries put and read by all parses", "memo/tree.go"), ("shared stream buffer", "bytes read so far", "input/reader.go")],
 observe=["results of concurrent Exec calls"], hook="scheduling points are inserted into a build-time copy (overlay); no change to the repository is needed")

prop("C28", "A parser keeps no state between parses",
 "The result of a parse depends only on the parser and the input: for any sequence of parses with one compiled parser, of matching and non-matching inputs, successful or aborted by an error or by a panic in a user-supplied checker or reader, or run from within a checker during another parse, each result equals that of a freshly compiled parser on that input. Capture trees returned earlier are not altered by later parses.",
 ["histories"], "all sequences of inputs and aborted, nested and interval parses up to a depth on one parser",
 "Tests use most parsers once.",
 ["vm/vm.go", "vm/stack.go", "vm/code.go", "isa/checker.go"], [("fresh stack and input per execution", "vm/vm.go:Exec"), ("fresh checkers per execution", "vm/vm.go:freshCheckers")], observe=["Exec, previously returned captures"])

prop("C29", "Ropes are built and read correctly by concurrent goroutines",
 "Building a rope spreads the loading of its leaves over goroutines: for every text, leaf size and core count and under every interleaving of them, the rope is complete and correct when the constructor returns, without a data race. Any number of goroutines may read one rope at once (values, ranges, line/column positions, leaves, streamed output, parses that use it as input), and each gets what it would get alone.",
 ["schedules", "configurations"], "all interleavings of the loading goroutines and of two readers up to a preemption bound",
 "The race detector is never run and leaf loading depends on the machine.",
 ["input/linerope/rope.go"], [("parallel leaf loading", "input/linerope/rope.go:NewWithOpts")], state=[("nodes", "leaves written by the loading goroutines", "input/linerope/rope.go")], observe=["linerope.NewWithOpts, read methods"])

prop("C30", "Known results are used again",
 "A memo table saves work. A parse with a table evaluates a memoized sub-pattern at a position only if its result there is not known: once an evaluation failed or matched at least one byte (for an item of a repetition of a memoized pattern: once it matched), having examined at least as many bytes as the table's threshold, neither the same parse nor later parses with the table evaluate it there again, until an edit comes within a byte of the bytes from its start to the last byte the parse had examined by then (or the one after that, or after the match). Results behind an edit are found at their shifted positions, and after a match the table holds the result of every memoized sub-pattern on the successful path that matched that much. Parsing a repetition of n memoized items again, unchanged or after an edit, looks up a number of results that grows with log n, not n, however long the history of edits, and the table stays proportional to the text.",
 ["histories", "programs", "inputs"], "all memoized patterns, grammars and repetitions, all texts, all histories of edits",
 "Tests compare results only; a table that never stores or never finds anything passes them.",
 ["vm/vm.go", "memo/tree.go", "memo/interval/lazylog/tree.go", "pattern/compile.go", "input/input.go"],
 [("memo open/close instructions", "vm/vm.go:opMemoOpen"), ("memo tree instructions", "vm/vm.go:opMemoTree"), ("edit invalidation and shifting", "memo/tree.go:ApplyEdit"), ("repetition of memoized patterns", "pattern/compile.go:StarNode.Compile")],
 state=[("memo table", "entries keyed by (id, position)", "memo/tree.go")], observe=["calls of a checker placed in memoized patterns", "calls of Table.Get", "Table.Size"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
