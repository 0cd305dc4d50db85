# planted bug -> checks that report it (quick tier)
CAUGHT = {}
for x in """alt-disjoint-sets:C01 not-then-dots:C01 capture-back-256:C02 capture-late-optional:C02 partial-commit-deep:C02 not-not-and:C02 check-drop-captures:C02 and-drop-captures:C02 get-remembers:C04 literal-cache:C04 search-skip-span:C05 search-opt-first:C05 error-limit:C06 error-nil-recover-stops:C06 error-dedupe:C06 error-backtrack-drop:C06 backref-empty:C07 checker-slice-input-pos:C07 backref-dedupe:C07 peekbefore-chunk:C08 peekbefore-window:C08 peekbefore-eof:C08 memoid-shared:C09 exam-furthest-reset:C10 lazylog-remove-unshifted:C10,C13,C14 memotree-pop-captures:C11 interval-edge:C12 interval-nested-parent:C12 interval-root-full:C12 interval-full-range:C12 interval-empty-all:C12 interval-grows:C12 interval-empty-noedit:C12 lazylog-findlargest-first:C13 table-put-dup:C14 allvals-largest:C14 numchildren-dummy:C15 childiter-group:C15 child-fast-path:C15 seek-chunk-end:C16 advance-exact-window:C16 refill-err:C16 reader-short-then-more:C17 reader-reuse-caller:C17 reader-zero-read:C17 rope-insert-cap:C18 rope-remove-cow:C18 rope-eachleaf-stop:C18 rope-writeto-count:C18 rope-removed-line-cache:C19 json-sets-drop:C20 gob-reuse-encoder:C20 fromjson-empty:C21 save-flate:C21 re-octal-range:C22 re-class-caret:C22 re-eof-comment:C22 re-empty-alt:C22 re-comment-cr:C22 re-eof-trailing:C23 rx-dot-newline:C24 rx-endtext-dollar:C24 charset-range-255:C25 charset-toggle:C25 charset-issmall:C25 encode-label-u16:C26 encode-set-dedupe:C26 encode-i16-wrap:C26 any-merge-overflow:C26 reader-fast-path:C27 table-get-unlocked:C27 table-put-setpos-late:C27 re-shared-scratch:C27 pool-stack:C28 errs-reuse:C28 exec-window-reuse:C28,C10 rope-append-nodes:C29 rope-partition:C29 rope-linecache:C29 overlaps-strict:C10 peekbefore-global:C27 check-flag-unsigned:C07 capture-id-unsigned:C02 table-threshold-le:C14 rope-value-cache:C29 json-errors-drop:C20 capture-length-u16:C02 ret-addr-u16:C26 rope-remove-inc:C19 tree-merge-equal:C30 memo-fail-here:C30 edit-insert-wide:C30 repeat-memo-small:C30 inline-free-leaf:C03 frombytes-stream:C21 memo-key-packed:C09 childiter-deep:C15 reader-skip-ahead:C17 table-rlock:C27 backref-id-byte:C07 lazylog-ins-cap:C13 rotate-stale-max:C13 rope-writeto-buffer:C18 rx-class-bitmap:C24 slice-alias-chunk:C16 exec-input-cache:C28 rope-split-alias:C18 span-run16:C01 table-examined-max:C14 tobytes-shared-buffer:C20 rope-value-stack:C18 check-nested-slice:C07 error-repeat-pos:C06 read-after-error:C17 or-many-literals:C01 setment-depth:C10,C14 capgrammar-ids-byte:C02 interval-inclusive-overflow:C12 table-put-same-pos:C14 put-wide-skip:C14,C30 shifts-compact:C13 re-long-ident:C22 notfound-wrapped:C23 memotree-close-limit:C11 capgrammar-in-place:C02 capgrammar-reuse-ids:C02 empty-nonascii:C08 stack-forget:C01 any-run-merge:C01 rope-eachleaf-depth:C18 linelen-carry:C19 stack-ring:C27 reader-limit:C17 backref-long:C07 peek-furthest-window:C16""".split():
    a, b = x.split(":"); CAUGHT[a] = b.replace(",", ", ")
# what a miss led to
WHAT = {
 "stack-forget": "missed at first; space `deepest-recursion` of C01 added",
 "any-run-merge": "missed at first; space `repeats` of C01 added",
 "stack-ring": "missed at first; space `parses-within` of C27 and C28 added",
 "peek-furthest-window": "missed at first; space `huge` of C16 added",
 "put-wide-skip": "C14 reported it, C30 missed it at first; space `big-results` of C30 added",
 "shifts-compact": "missed at first; space `many-shifts` of C13 added",
 "notfound-wrapped": "missed at first; space `names` of C23 added",
 "capgrammar-in-place": "missed at first; C02 now checks that CapGrammar leaves the rules it is given alone",
 "capgrammar-reuse-ids": "missed at first; C02 now also gives CapGrammar a map that holds other ids",
 "or-many-literals": "missed at first; space `many-operands` of C01 added",
 "setment-depth": "missed at first; spaces `moved-captures` of C10 and `deep-captures` of C14 added",
 "capgrammar-ids-byte": "missed at first; space `many-capture-rules` of C02 added",
 "interval-inclusive-overflow": "missed at first; space `extreme-intervals` of C12 added",
 "table-put-same-pos": "missed at first; space `keys` of C14 added",
 "capture-id-unsigned": "missed at first; space `ids` of C02 added",
 "inline-free-leaf": "missed at first; space `rebound-names` of C03 added",
 "frombytes-stream": "missed at first; space `large` of C21 added",
 "backref-id-byte": "missed at first; space `many-references` of C07 added",
 "rx-class-bitmap": "missed at first; space `many-ranges` of C24 added",
 "slice-alias-chunk": "missed at first; C16 now keeps the slices and compares them again at the end",
 "exec-input-cache": "missed at first; space `one-reader-intervals` of C28 added",
 "memo-key-packed": "C26 (`memo-ids`) reported it, C09 missed it at first; spaces `many-ids` and `far-ids` of C09 added",
}
MUTATION = """
*Logic mutants.* Two rounds (one of all of the library before the checks were
extended, one of a random sample of 170 afterwards). Survivors of the last
round were equivalent, in dead code, or in code no property claims (`String`
methods, `CountSubPatterns`, the debug printing) except five, each of which led
to a space: the position a rope's `Each` reports (C18), the furthest position
that `Examine` keeps (C10), a panic of `MustCompile` on a good pattern (C23),
the order of the operands of a memoized repetition (C30) and the type of a
stack entry at the end of a memoized tree (C11).

*Width mutants.* 5730 mutants that cut the value of one integer expression to
8 or 16 bits; 1300 compile and pass the tests; those in code that handles
positions, lengths, ids, counts, times and addresses were run. They led to the
spaces named `far…`, `large`, `many-…` and `most-…`: memo instructions and
single-set tests beyond 64 KiB of code, edits and intervals more than 64 KiB
into a document, more than 65536 items, captures or edits, leaves and lines
longer than 65535. What survives cuts a value that is never larger (a byte,
the number of workers, the height of a tree), a value whose loss only costs
time, or `lazylog`'s copy of a time stamp in one path of `remove` that needs
more than 65536 edits with a removal of an interval with two children between.
"""
