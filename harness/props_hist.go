package main

// C28: a compiled parser keeps no state between parses. Every sequence of
// operations on one parser (parses of several documents, aborted and panicking
// parses, interval parses, nested parses, saving it) is executed, each parse is
// compared with the reference interpreter and with what a parser compiled
// freshly for it gives, and all capture trees returned so far are read again
// after every step.

import (
	"fmt"
	"io"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// hop is one operation of a history on a parser.
type hop struct {
	name string
	// do runs the operation and renders what it observed
	do func(e *henv) string
}

// henv is the environment operations run in: the parser under test, the
// capture trees it has returned, and the state of its checkers.
type henv struct {
	code  *vm.Code
	roots []*memo.Capture
	texts []string
	fuse  int // the checker panics on this call (counting down), 0: never
	nest  func() string
	depth int
}

func (e *henv) keep(x ires) string {
	if x.root != nil {
		e.roots = append(e.roots, x.root)
		e.texts = append(e.texts, fullTree(x.root, 0))
	}
	return x.String()
}

// fullTree renders a capture tree with positions of all nodes.
func fullTree(n *memo.Capture, depth int) string {
	if depth > 200 {
		// very deep trees: only the spine's position
		return fmt.Sprintf("%d[%d,%d)...", n.Id(), n.Start(), n.End())
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d[%d,%d)%d", n.Id(), n.Start(), n.End(), n.NumChildren())
	it := n.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		sb.WriteString("(" + fullTree(ch, depth+1) + ")")
	}
	return sb.String()
}

// unchanged reports the first capture tree that no longer reads as it did.
func (e *henv) unchanged() string {
	for i, r := range e.roots {
		if t := fullTree(r, 0); t != e.texts[i] {
			return fmt.Sprintf("the capture tree of parse %d was %s, is now %s", i, clip(e.texts[i]), clip(t))
		}
	}
	return ""
}

// fuseChecker accepts what it is given; it panics when the fuse of the
// environment says so, and runs a nested operation if there is one.
type fuseChecker struct{ h *holder }

// holder gives the checkers of a pattern the environment of the current history.
type holder struct{ e *henv }

type fuseBlown struct{}

func (f *fuseChecker) Check(b []byte, src *input.Input, id, flag int) int {
	e := f.h.e
	if e.fuse > 0 {
		e.fuse--
		if e.fuse == 0 {
			panic(fuseBlown{})
		}
	}
	if e.nest != nil && e.depth == 0 {
		e.depth++
		e.nest()
		e.depth--
	}
	if id == 7 && string(b) == "b" {
		return -1
	}
	return 0
}

// fuseReader panics, or returns an error, on its n-th read.
type fuseReader struct {
	r   io.ReaderAt
	n   int
	err bool
}

func (f *fuseReader) ReadAt(b []byte, off int64) (int, error) {
	f.n--
	if f.n == 0 {
		if f.err {
			return 0, fmt.Errorf("read error")
		}
		panic(fuseBlown{})
	}
	return f.r.ReadAt(b, off)
}

func catching(f func() string) (s string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(fuseBlown); !ok {
				panic(r)
			}
			s = "panicked"
		}
	}()
	return f()
}

func opParse(d string) hop {
	return hop{fmt.Sprintf("Exec(%q)", clip(d)), func(e *henv) string { return e.keep(run(e.code, d, memo.NoneTable{})) }}
}

func opTable(d string) hop {
	return hop{fmt.Sprintf("Exec(%q) twice with a new table", clip(d)), func(e *henv) string {
		t := memo.NewTreeTable(0)
		return e.keep(run(e.code, d, t)) + " / " + e.keep(run(e.code, d, t))
	}}
}

func opInterval(d string, lo, hi int) hop {
	return hop{fmt.Sprintf("ExecInterval(%q, [%d,%d))", clip(d), lo, hi), func(e *henv) string {
		ok, pos, c, errs := e.code.ExecInterval(strings.NewReader(d), memo.NoneTable{}, &vm.Interval{Low: lo, High: hi})
		return e.keep(ires{ok, pos, c, errs})
	}}
}

func opFuse(d string, n int) hop {
	return hop{fmt.Sprintf("Exec(%q) with a checker that panics on call %d", clip(d), n), func(e *henv) string {
		e.fuse = n
		s := catching(func() string { return e.keep(run(e.code, d, memo.NoneTable{})) })
		e.fuse = 0
		return s
	}}
}

func opReader(d string, n int, err bool) hop {
	how := "panics"
	if err {
		how = "fails"
	}
	return hop{fmt.Sprintf("Exec of a %d-byte document whose reader %s on call %d", len(d), how, n), func(e *henv) string {
		return catching(func() string {
			ok, pos, c, errs := e.code.Exec(&fuseReader{strings.NewReader(d), n, err}, memo.NoneTable{})
			return e.keep(ires{ok, pos, c, errs})
		})
	}}
}

func opSave() hop {
	return hop{"ToBytes, FromBytes and Exec of the copy on \"ab\"", func(e *henv) string {
		b, err := e.code.ToBytes()
		if err != nil {
			return "cannot be saved"
		}
		cp, err := vm.FromBytes(b)
		if err != nil {
			return "cannot be loaded"
		}
		return run(&cp, "ab", memo.NoneTable{}).String()
	}}
}

func opNest(outer, inner string) hop {
	return hop{fmt.Sprintf("Exec(%q) whose checker runs Exec(%q)", outer, inner), func(e *henv) string {
		e.nest = func() string {
			x := run(e.code, inner, memo.NoneTable{})
			e.keep(x)
			return x.String()
		}
		s := e.keep(run(e.code, outer, memo.NoneTable{}))
		e.nest = nil
		return s
	}}
}

// histories runs all sequences of operations of the given length on one parser
// each, and compares every observation with that of a fresh parser.
func histories(c *Ctx, name string, mk func(e *holder) pattern.Pattern, ops []hop, depth int, only func(k, o int) bool) {
	h := &holder{}
	patt := mk(h)
	compile := func() *henv {
		e := &henv{}
		h.e = e
		code := vm.Encode(pattern.MustCompile(patt))
		e.code = &code
		return e
	}
	want := make([]string, len(ops))
	for i, o := range ops {
		if !c.Guard(func() string { return name + "\n" + o.name + " on a fresh parser" }, func() { want[i] = o.do(compile()) }) {
			return
		}
	}
	var rec func(seq []int) bool
	rec = func(seq []int) bool {
		if len(seq) < depth {
			for i := range ops {
				if !only(len(seq), i) {
					continue
				}
				if !rec(append(seq, i)) {
					return false
				}
			}
			return true
		}
		hist := func(k int) string {
			var ns []string
			for _, i := range seq[:k+1] {
				ns = append(ns, ops[i].name)
			}
			return strings.Join(ns, "\n  then ")
		}
		e := compile()
		c.Traces(1)
		for k, i := range seq {
			var got string
			if !c.Guard(func() string { return name + "\n  " + hist(k) }, func() { got = ops[i].do(e) }) {
				return false
			}
			c.States(1)
			c.Trans(1)
			if got != want[i] {
				c.Violate("", "%s\n  %s\na fresh parser gives: %s\nthe used one gives: %s", name, hist(k), clip(want[i]), clip(got))
				return false
			}
			if bad := e.unchanged(); bad != "" {
				c.Violate("", "%s\n  %s\n%s", name, hist(k), bad)
				return false
			}
		}
		c.Outcome(name + want[seq[len(seq)-1]])
		return true
	}
	rec(nil)
	c.Sample(func() string {
		return fmt.Sprintf("%s: all sequences of length %d of %d operations, e.g. %s", name, depth, len(ops), ops[len(ops)-1].name)
	})
}

// docSequences runs all sequences of documents on one parser against the
// reference interpreter.
func docSequences(c *Ctx, p *P, docs []string, depth int, errs bool) {
	docSequencesOn(c, p, docs, depth, errs, 0)
}

// docSequencesOn is docSequences on readers of a kind: 0, a new one for each
// parse; 1, one whose text is replaced; 2, a rope whose text is replaced.
func docSequencesOn(c *Ctx, p *P, docs []string, depth int, errs bool, kind int) {
	refs := make([]mres, len(docs))
	var use []int
	for i, d := range docs {
		refs[i] = ref(p, d)
		if refs[i].undef != "" {
			c.Skip(1)
		} else {
			use = append(use, i)
		}
	}
	if len(use) == 0 {
		return
	}
	var code vm.Code
	var err error
	if !c.Guard(func() string { return "compiling " + p.String() }, func() { code, err = compileSpec(p) }) || err != nil {
		return // C01 and C23 report that
	}
	run := run
	if kind != 0 {
		tx := newText("", kind)
		cur := 0
		run = func(code *vm.Code, d string, tbl memo.Table) ires {
			tx.edit(edit{s: 0, e: cur, ins: d})
			cur = len(d)
			return runOn(code, tx, tbl)
		}
	}
	seq := make([]int, depth)
	roots := make([]*memo.Capture, depth)
	texts := make([]string, depth)
	var rec func(k int) bool
	rec = func(k int) bool {
		if k == depth {
			c.Traces(1)
			return true
		}
		for _, i := range use {
			seq[k] = i
			roots[k] = nil
			hist := func() string {
				var s []string
				for _, j := range seq[:k+1] {
					s = append(s, fmt.Sprintf("%q", clip(docs[j])))
				}
				return "pattern: " + p.String() + "\nparses: " + strings.Join(s, ", ")
			}
			good := c.Guard(hist, func() {
				x := run(&code, docs[i], memo.NoneTable{})
				c.States(1)
				c.Trans(1)
				if e := diff(refs[i], x, errs); e != "" {
					c.Violate("", "%s\nlast parse: %s", hist(), e)
					return
				}
				roots[k] = x.root
				if x.root != nil {
					texts[k] = fullTree(x.root, 0)
				}
				for j := 0; j < k; j++ {
					if roots[j] == nil {
						continue
					}
					if t := fullTree(roots[j], 0); t != texts[j] {
						c.Violate("", "%s\nthe captures of parse %d were %s, are now %s", hist(), j, texts[j], t)
						return
					}
				}
			})
			if !good || c.itemViol || !rec(k+1) {
				return false
			}
		}
		return true
	}
	rec(0)
	c.Outcome(refs[use[len(use)-1]].String())
}

// namedPat is a pattern given directly in terms of the library.
type namedPat struct {
	name string
	mk   func(e *holder) pattern.Pattern
}

func histPatterns() []namedPat {
	chk := func(p pattern.Pattern, e *holder, id int) pattern.Pattern {
		return pattern.CheckFlags(p, &fuseChecker{e}, id, 0)
	}
	lit, cp, star, or, cat, any := pattern.Literal, pattern.Cap, pattern.Star, pattern.Or, pattern.Concat, pattern.Any
	return []namedPat{
		{"star of checked captures", func(e *holder) pattern.Pattern { return star(cp(chk(any(1), e, 1), 3)) }},
		{"rejecting checker in alternatives", func(e *holder) pattern.Pattern {
			return cat(star(or(cp(chk(any(1), e, 7), 1), cp(cat(any(1), chk(lit("a"), e, 2)), 2))), cp(star(any(1)), 3))
		}},
		{"nested captures below a checker", func(e *holder) pattern.Pattern {
			return cp(cat(cp(star(lit("a")), 1), chk(cp(cat(cp(any(1), 2), cp(star(lit("b")), 3)), 4), e, 1), star(cp(lit("a"), 5))), 6)
		}},
		{"grammar with checker and recursion", func(e *holder) pattern.Pattern {
			return pattern.Grammar("S", map[string]pattern.Pattern{
				"S": cp(or(cat(chk(lit("a"), e, 1), pattern.NonTerm("S"), pattern.NonTerm("T")), pattern.NonTerm("T")), 1),
				"T": cp(or(chk(lit("b"), e, 2), &pattern.EmptyNode{}), 2),
			})
		}},
		{"errors with recovery around a checker", func(e *holder) pattern.Pattern {
			return star(or(cp(cat(lit("a"), or(chk(lit("b"), e, 1), pattern.Error("want b", pattern.And(any(1))))), 1), pattern.Error("skip", cp(chk(any(1), e, 2), 2))))
		}},
		{"abort after captures", func(e *holder) pattern.Pattern {
			return cat(star(cp(lit("a"), 1)), or(chk(cp(lit("b"), 2), e, 1), pattern.Error("fatal", nil)), star(cp(any(1), 3)))
		}},
		{"memoized repetition with a checker", func(e *holder) pattern.Pattern {
			return cp(cat(star(pattern.Memo(cp(chk(any(1), e, 1), 1))), pattern.Memo(cp(&pattern.EmptyNode{}, 2))), 3)
		}},
		{"back-reference with a checker", func(e *holder) pattern.Pattern {
			r := isa.NewBackRef()
			return star(cp(cat(pattern.Optional(cat(lit("a"), pattern.CheckFlags(pattern.Optional(lit("b")), r, 1, int(isa.RefDef)))), chk(any(1), e, 1), pattern.CheckFlags(&pattern.EmptyNode{}, r, 1, int(isa.RefUse))), 1))
		}},
		{"back-reference used before it is defined", func(e *holder) pattern.Pattern {
			r := isa.NewBackRef()
			return star(cp(cat(pattern.CheckFlags(&pattern.EmptyNode{}, r, 1, int(isa.RefUse)), chk(pattern.CheckFlags(any(1), r, 1, int(isa.RefDef)), e, 1)), 1))
		}},
		{"predicates around a checker", func(e *holder) pattern.Pattern {
			return star(cp(or(cat(pattern.And(chk(cp(lit("a"), 1), e, 1)), any(1)), cat(pattern.Not(cat(lit("b"), chk(lit("b"), e, 2))), any(1))), 2))
		}},
		{"search with a checker", func(e *holder) pattern.Pattern { return star(pattern.Search(cp(chk(lit("ab"), e, 1), 1))) }},
		{"word boundaries and a checker", func(e *holder) pattern.Pattern {
			return star(or(cat(pattern.EmptyOp(syntax.EmptyWordBoundary), cp(chk(pattern.Plus(lit("a")), e, 1), 1)), any(1)))
		}},
	}
}

func init() {
	register(&Property{ID: "C28",
		Assume: []string{"user-supplied checkers other than BackReference keep no state of their own that changes their answers", "a memo table is not shared between the parses (C09-C12 cover that)"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"documents-ops", fmt.Sprintf("all patterns of <=%d operators over {'a',[ab],any1,error,error with recovery} with star opt not and capture memo seq or; on one parser each, all sequences of 2 inputs over {a,b} of length <=%d", pick(th, 5, 6), pick(th, 2, 2)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), set("ab"), any(1), errp("e", nil), errp("r", lit("b"))}, unary: []func(*P) *P{star, opt, not, and, func(p *P) *P { return capt(p, 1) }, memoP}, binary: bBasic}
					docs := strs("ab", 2)
					batch(c, a, pick(th, 5, 6), 32, nil, func(p *P) { docSequences(c, p, docs, 2, true) })
				}},
				{"documents-all-operators", fmt.Sprintf("all patterns of <=%d operators over every operator of the library; on one parser each, all sequences of 2 inputs over {a,b} of length <=2", pick(th, 4, 5)), func(c *Ctx) {
					docs := strs("ab", 2)
					batch(c, everything(true, true), pick(th, 4, 5), 32, nil, func(p *P) { docSequences(c, p, docs, 2, true) })
				}},
				{"documents-grammars", fmt.Sprintf("all 2-rule grammars with bodies of <=2 operators with captures; all sequences of %d inputs over {a,b} of length <=2", pick(th, 2, 3)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{star, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					docs := strs("ab", 2)
					grammars2(c, a, pick(th, 3, 4), 2, nil, func(g *P) { docSequences(c, g, docs, pick(th, 2, 3), false) })
				}},
				{"one-reader", fmt.Sprintf("all patterns of <=%d operators over every operator of the library; on one parser each, all sequences of 2 inputs over {a,b} of length <=2 (and longer ones for some) that are the successive contents of one reader, or of one rope", pick(th, 3, 4)), func(c *Ctx) {
					docs := strs("ab", 2)
					batch(c, everything(true, true), pick(th, 3, 4), 32, nil, func(p *P) {
						docSequencesOn(c, p, docs, 2, true, 1)
						docSequencesOn(c, p, docs, 2, true, 2)
					})
					long := func(n int) string { return strings.Repeat("ab", n/2+1)[:n] }
					ds := []string{"", "ba", long(4095), long(4096) + "b", long(8192), "a" + long(8192), long(4096) + "b" + long(4096)}
					for _, p := range []*P{star(capt(lit("ab"), 1)), search(capt(lit("bb"), 1)), seq(star(any(200)), star(capt(or(lit("ab"), lit("ba")), 2)), opt(lit("a"))), star(search(lit("aa"))), seq(opt(seq(star(any(1)), lit("x"))), capt(star(lit("ab")), 3))} {
						for kind := 1; kind <= 2; kind++ {
							p, kind := p, kind
							if !c.Item(func() { docSequencesOn(c, p, ds, 2, true, kind) }) {
								return
							}
						}
					}
				}},
				{"back-references", fmt.Sprintf("parsers that define, use, redefine and use undefined back-references; all sequences of %d inputs over {a,b} of length <=3", pick(th, 2, 3)), func(c *Ctx) {
					docs := strs("ab", 3)
					var ps []*P
					use := func(id int) *P { return check(empty(), chkRef, id, int(isa.RefUse)) }
					def := func(p *P, id int) *P { return check(p, chkRef, id, int(isa.RefDef)) }
					for _, x := range []*P{any(1), plus(lit("a")), opt(lit("a")), star(any(1)), opt(seq(any(1), any(1)))} {
						for _, y := range []*P{empty(), lit("b"), opt(lit("b")), any(1)} {
							ps = append(ps,
								seq(opt(def(x, 1)), y, use(1)), seq(use(1), def(x, 1), y), seq(or(seq(def(x, 1), lit("b")), y), use(1), star(any(1))),
								seq(capt(use(1), 1), capt(def(x, 2), 2), capt(use(2), 3), def(y, 1)), star(seq(use(1), any(1), def(x, 1), y)),
								seq(not(seq(def(x, 1), lit("b"))), use(1), star(any(1))), seq(def(x, 1), opt(def(y, 1)), capt(use(1), 5)))
						}
					}
					for _, p := range ps {
						p := p
						if !c.Item(func() { docSequences(c, p, docs, pick(th, 2, 3), false) }) {
							return
						}
					}
				}},
				{"mixed", fmt.Sprintf("12 parsers with checkers, errors, memo, back-references x all sequences of %d operations out of: parses, parses with a new table, interval parses, checker panics on call 1..3, reader errors and panics, nested parses from a checker, saving and loading", pick(th, 4, 5)), func(c *Ctx) {
					ops := []hop{opParse(""), opParse("b"), opParse("aab"), opParse("abba"), opTable("aba"), opInterval("abab", 1, 2), opFuse("abab", 1), opFuse("abab", 2), opFuse("aab", 3), opReader("abab", 1, false), opReader("abab", 1, true), opNest("aba", "bb"), opNest("ab", "aab"), opSave()}
					c.heavy = true
					for _, np := range histPatterns() {
						for i := range ops {
							for j := range ops {
								np, i, j := np, i, j
								if !c.Item(func() {
									histories(c, np.name, np.mk, ops, pick(th, 4, 5), func(k, o int) bool { return k > 1 || k == 0 && o == i || k == 1 && o == j })
								}) {
									return
								}
							}
						}
					}
				}},
				{"sizes", fmt.Sprintf("5 parsers x all sequences of %d documents of sizes around the 4096-byte window and with deep nesting (so that buffers and stacks grow and shrink), including readers that fail or panic on later reads", pick(th, 3, 4)), func(c *Ctx) {
					long := func(n int) string { return strings.Repeat("ab", n/2+1)[:n] }
					ops := []hop{opParse(""), opParse("ab"), opParse(long(4095)), opParse(long(4096)), opParse(long(4097)), opParse(long(9000) + "!"), opParse(strings.Repeat("(", 900) + strings.Repeat(")", 900)), opParse(strings.Repeat("(", 40)), opParse("(())"),
						opReader(long(9000), 2, true), opReader(long(9000), 2, false), opReader(long(9000), 3, true)}
					pats := []namedPat{
						{"captured pairs", func(e *holder) pattern.Pattern {
							return pattern.Star(pattern.Cap(pattern.Or(pattern.Any(200), pattern.Literal("ab"), pattern.Any(1)), 1))
						}},
						{"search for the end", func(e *holder) pattern.Pattern {
							return pattern.Concat(pattern.Search(pattern.Cap(pattern.Literal("!"), 1)), pattern.Star(pattern.Cap(pattern.Any(1), 2)))
						}},
						{"nesting", func(e *holder) pattern.Pattern {
							return pattern.Grammar("S", map[string]pattern.Pattern{"S": pattern.Star(pattern.Or(pattern.Cap(pattern.Concat(pattern.Literal("("), pattern.NonTerm("S"), pattern.Literal(")")), 1), pattern.Any(250), pattern.Literal("ab")))})
						}},
						{"skip and look back", func(e *holder) pattern.Pattern {
							return pattern.Concat(pattern.Star(pattern.Any(255)), pattern.Star(pattern.Any(16)), pattern.Cap(pattern.Star(pattern.Or(pattern.Concat(pattern.EmptyOp(syntax.EmptyWordBoundary), pattern.Any(1)), pattern.Any(1))), 1))
						}},
						{"not at the end", func(e *holder) pattern.Pattern {
							return pattern.Or(pattern.Concat(pattern.Repeat(pattern.Any(128), 32), pattern.Cap(pattern.Any(1), 1)), pattern.Cap(pattern.Star(pattern.Any(100)), 2))
						}},
					}
					for _, np := range pats {
						for i := range ops {
							np, i := np, i
							if !c.Item(func() {
								histories(c, np.name, np.mk, ops, pick(th, 3, 4), func(k, o int) bool { return k > 0 || o == i })
							}) {
								return
							}
						}
					}
				}},
			}
		}})
}
