package main

import (
	"fmt"
	"io"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// compileShared compiles p such that equal specification values become equal
// pattern values (so that a memoized sub-pattern used twice has one memo id).
func compileShared(c *Ctx, p *P) (vm.Code, bool) {
	var code vm.Code
	var err error
	b := &builder{share: map[*P]pattern.Pattern{}}
	if !c.Guard(func() string { return "compiling " + p.String() }, func() { code, err = compileB(b, p) }) {
		return code, false
	}
	if err != nil {
		c.Violate("", "pattern: %s\ncompilation failed: %v", p, err)
		return code, false
	}
	return code, true
}

var thresholds = []int{0, 1, 2, 3, 100}

// memoOnce: parse with fresh tables of several thresholds and reparse.
func memoOnce(c *Ctx, p *P, docs []string, ths []int) bool {
	refs := make([]mres, len(docs))
	any := false
	for i, d := range docs {
		refs[i] = ref(p, d)
		any = any || refs[i].undef == ""
	}
	if !any {
		c.Skip(len(docs))
		return true
	}
	code, ok := compileShared(c, p)
	if !ok {
		return false
	}
	for i, d := range docs {
		r := refs[i]
		if r.undef != "" {
			c.Skip(1)
			continue
		}
		where := ""
		d := d
		if !c.Guard(func() string { return fmt.Sprintf("pattern: %s\ninput: %q%s", p, clip(d), where) }, func() {
			where = " without a table"
			x := run(&code, d, memo.NoneTable{})
			c.Traces(1)
			if e := diff(r, x, false); e != "" {
				c.Violate("", "pattern: %s\ninput: %q, no memo table\n%s", p, clip(d), e)
				return
			}
			for _, th := range ths {
				tbl := memo.NewTreeTable(th)
				for k := 1; k <= 3; k++ {
					where = fmt.Sprintf(" with threshold %d, parse %d", th, k)
					x := run(&code, d, tbl)
					c.States(1)
					c.Traces(1)
					c.Trans(r.steps)
					if e := diff(r, x, false); e != "" {
						c.Violate("", "pattern: %s\ninput: %q, memo table with threshold %d, parse number %d\n%s", p, clip(d), th, k, e)
						return
					}
				}
				// the earliest capture tree must not have been changed by reparsing
			}
			c.Outcome(r.String())
		}) || c.itemViol {
			return false
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s on %q", p, clip(docs[len(docs)-1])) })
	return true
}

type edit struct {
	s, e int
	ins  string
	skip bool // no parse between this edit and the next
}

func (e edit) apply(d string) string { return d[:e.s] + e.ins + d[e.e:] }

func (e edit) String() string {
	s := fmt.Sprintf("[%d,%d)->%q", e.s, e.e, e.ins)
	if e.skip {
		s += " (no parse)"
	}
	return s
}

// edits returns all edits of a document of length n with the given insertions.
func edits(n int, ins []string, maxdel int) []edit {
	var out []edit
	for s := 0; s <= n; s++ {
		for e := s; e <= n && e-s <= maxdel; e++ {
			for _, i := range ins {
				if s == e && i == "" {
					continue
				}
				out = append(out, edit{s: s, e: e, ins: i})
			}
		}
	}
	return out
}

// history parses doc, then applies the edits, parsing after each that is not
// marked skip, and compares every parse with one without a table.
func history(c *Ctx, p *P, code *vm.Code, doc string, es []edit, th int, cache *refCache) bool {
	return historyOn(c, p, code, doc, es, th, cache, 0)
}

// A text is a document that is edited in place: the parses read it through
// one and the same io.ReaderAt.
type text struct {
	b    []byte
	rope *linerope.Node
}

func newText(d string, kind int) *text {
	t := &text{b: []byte(d)}
	if kind == 2 {
		t.rope = linerope.NewWithOpts([]byte(d), linerope.Options{SplitLen: 3, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte{'b'}})
	}
	return t
}

func (t *text) ReadAt(p []byte, off int64) (int, error) {
	if off >= int64(len(t.b)) {
		return 0, io.EOF
	}
	n := copy(p, t.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

func (t *text) edit(e edit) {
	if t.rope != nil {
		t.rope.Remove(e.s, e.e)
		t.rope.Insert(e.s, []byte(e.ins))
		return
	}
	t.b = []byte(e.apply(string(t.b)))
}

func (t *text) reader() io.ReaderAt {
	if t.rope != nil {
		return t.rope
	}
	return t
}

func runOn(code *vm.Code, t *text, tbl memo.Table) ires {
	ok, pos, c, errs := code.Exec(t.reader(), tbl)
	return ires{ok, pos, c, errs}
}

// historyOn is history on a document of some kind: 0, a new reader for each
// parse; 1, a reader whose text changes; 2, a rope.
func historyOn(c *Ctx, p *P, code *vm.Code, doc string, es []edit, th int, cache *refCache, kind int) bool {
	d := doc
	var tx *text
	run := run
	if kind != 0 {
		tx = newText(d, kind)
		run = func(code *vm.Code, _ string, tbl memo.Table) ires { return runOn(code, tx, tbl) }
	}
	step := -1
	desc := func() string {
		return fmt.Sprintf("pattern: %s\nthreshold %d, document %q, edits %v, at step %d (document now %q)", p, th, clip(doc), es, step, clip(d))
	}
	good := c.Guard(desc, func() {
		tbl := memo.NewTreeTable(th)
		r := cache.get(d)
		if r.undef != "" {
			c.Skip(1)
			return
		}
		x := run(code, d, tbl)
		c.Traces(1)
		if e := diff(r, x, false); e != "" {
			c.Violate("", "%s\n%s", desc(), e)
			return
		}
		for i, ed := range es {
			step = i + 1
			d = ed.apply(d)
			if tx != nil {
				tx.edit(ed)
			}
			tbl.ApplyEdit(memo.Edit{Start: ed.s, End: ed.e, Len: len(ed.ins)})
			c.States(1)
			if ed.skip && i != len(es)-1 {
				continue
			}
			r := cache.get(d)
			if r.undef != "" {
				c.Skip(1)
				return
			}
			x := run(code, d, tbl)
			c.Traces(1)
			c.Trans(r.steps)
			if e := diff(r, x, false); e != "" {
				c.Violate("", "%s\n%s", desc(), e)
				return
			}
			if cache.n++; cache.n&15 == 0 {
				c.Outcome(r.String())
			}
		}
	})
	return good && !c.itemViol
}

// refCache memoizes reference parses of one pattern.
type refCache struct {
	p *P
	m map[string]*mres
	n int
}

func newCache(p *P) *refCache { return &refCache{p: p, m: map[string]*mres{}} }

func (r *refCache) get(d string) mres {
	if x, ok := r.m[d]; ok {
		return *x
	}
	x := ref(r.p, d)
	if len(r.m) < 20000 {
		r.m[d] = &x
	}
	return x
}

// usable reports whether the reference defines p on at least some documents.
func (r *refCache) usable(docs []string) bool {
	for _, d := range docs {
		if r.get(d).undef == "" {
			return true
		}
	}
	return false
}

// allHistories explores every history of up to depth edits.
func allHistories(c *Ctx, p *P, docs []string, ins []string, maxdel, depth int, ths []int, skips bool) bool {
	return allHistoriesOn(c, p, docs, ins, maxdel, depth, ths, skips, 0)
}

func allHistoriesOn(c *Ctx, p *P, docs []string, ins []string, maxdel, depth int, ths []int, skips bool, kind int) bool {
	cache := newCache(p)
	if !cache.usable(docs) {
		c.Skip(len(docs))
		return true
	}
	code, ok := compileShared(c, p)
	if !ok {
		return false
	}
	var rec func(doc, cur string, es []edit, th int) bool
	rec = func(doc, cur string, es []edit, th int) bool {
		if len(es) == depth {
			return historyOn(c, p, &code, doc, es, th, cache, kind)
		}
		for _, e := range edits(len(cur), ins, maxdel) {
			nx := append(es[:len(es):len(es)], e)
			if !rec(doc, e.apply(cur), nx, th) {
				return false
			}
			if skips && len(nx) < depth {
				nx[len(nx)-1].skip = true
				if !rec(doc, e.apply(cur), nx, th) {
					return false
				}
			}
		}
		return true
	}
	for _, th := range ths {
		for _, d := range docs {
			if cache.get(d).undef != "" {
				c.Skip(1)
				continue
			}
			if !rec(d, d, nil, th) {
				return false
			}
		}
	}
	c.Sample(func() string {
		return fmt.Sprintf("%s, documents %q.., edits inserting %q, depth %d", p, clip(docs[len(docs)-1]), ins, depth)
	})
	return true
}

func memoN(p *P) *P { return memoP(p) }

// Curated incremental grammars.
func arithG() *P {
	return gram("E", map[string]*P{
		"E": memoP(capt(seq(nt("T"), star(seq(set("+-"), nt("T")))), 1)),
		"T": memoP(capt(seq(nt("F"), star(seq(lit("*"), nt("F")))), 2)),
		"F": capt(or(nt("N"), seq(lit("("), nt("E"), lit(")"))), 3),
		"N": memoP(capt(plus(set("12")), 4)),
	})
}

func parensG() *P {
	return gram("S", map[string]*P{"S": memoP(capt(or(seq(lit("("), nt("S"), lit(")"), nt("S")), empty()), 1))})
}

func tokensG() *P {
	word := memoP(capt(seq(plus(set("ab")), not(set("ab"))), 1))
	com := memoP(capt(seq(lit("#"), star(seq(not(lit("\n")), any(1))), or(lit("\n"), not(any(1)))), 2))
	return star(or(word, com, set(" \n")))
}

func stmtsG() *P {
	return gram("L", map[string]*P{
		"L": star(memoP(nt("I"))),
		"I": capt(or(seq(lit("a"), and(seq(star(lit("b")), lit(";"))), star(lit("b")), lit(";")), seq(lit("{"), nt("L"), lit("}")), set("b;")), 1),
	})
}

func lookG(k int) *P {
	return star(or(memoP(capt(seq(lit("a"), and(seq(any(k), or(lit("b"), not(any(1)))))), 1)), memoP(capt(seq(lit("a"), not(any(k))), 2)), memoP(capt(any(1), 3))))
}

func hasMemoOver(p *P, pred func(*P) bool) bool {
	if p.Op == oMemo && anyNode(p, pred) {
		return true
	}
	for _, k := range p.Kids {
		if hasMemoOver(k, pred) {
			return true
		}
	}
	return false
}

func anyNode(p *P, pred func(*P) bool) bool {
	if pred(p) {
		return true
	}
	for _, k := range p.Kids {
		if anyNode(k, pred) {
			return true
		}
	}
	for _, k := range p.Defs {
		if anyNode(k, pred) {
			return true
		}
	}
	return false
}

func init() {
	cap1 := func(p *P) *P { return capt(p, 1) }
	register(&Property{ID: "C09",
		Assume: []string{"no error nodes, back-references or read-ahead checkers inside memoized patterns", "the table is used with one parser"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"ops", fmt.Sprintf("all patterns of <=%d operators with memo and capture over {'a','b',any1,any2,empty}; equal memoized sub-patterns share one id; threshold 0 (0 and 2 in thorough); three parses each; inputs over {a,b} <=3 (4 in thorough)", pick(th, 6, 6)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(2), empty()}, unary: []func(*P) *P{memoP, cap1, star, opt, not, and}, binary: bBasic}
					docs := strs("ab", 3)
					ths := []int{0}
					if th {
						docs = strs("ab", 4)
						ths = []int{0, 2}
					}
					batch(c, a, 6, 64, func(p *P) bool { return p.has(oMemo) }, func(p *P) { memoOnce(c, p, docs, ths) })
				}},
				{"all-operators", fmt.Sprintf("all patterns with memo of <=%d operators over every operator of the library except errors and checkers (also search, repeat, recursive and non-recursive grammars, assertions); threshold 0, three parses; inputs <=3", pick(th, 5, 6)), func(c *Ctx) {
					docs := strs("ab", 3)
					batch(c, pure(), pick(th, 5, 6), 64, func(p *P) bool { return p.has(oMemo) }, func(p *P) { memoOnce(c, p, docs, []int{0}) })
				}},
				{"reuse", "one memoized value m with 0..6 captures used in every pair of contexts (choice, predicate, sequence, star, nested memo, capture) with further captures after it; all thresholds", func(c *Ctx) {
					docs := append(strs("ab", 3), "aaaaaaa", "aaaaaab", "abababab", "aaabaaab", "bbbbbbb", "aabaabaab")
					tails := []*P{empty(), capt(lit("b"), 50), seq(capt(opt(lit("a")), 51), capt(opt(lit("b")), 52)), star(capt(any(1), 53)), seq(capt(opt(any(1)), 54), lit("b"))}
					for k := 0; k <= 6; k++ {
						for form := 0; form < 4; form++ {
							var parts []*P
							for i := 0; i < k; i++ {
								parts = append(parts, capt(or(lit("a"), lit("b")), 10+i))
							}
							var m *P
							switch form {
							case 0:
								m = memoP(seq(append([]*P{opt(lit("a"))}, parts...)...))
							case 1:
								m = memoP(seq(star(capt(lit("a"), 30)), seq(parts...)))
							case 2:
								m = memoP(capt(seq(seq(parts...), opt(lit("b"))), 31))
							case 3:
								m = memoP(seq(capt(opt(lit("a")), 32), memoP(seq(append([]*P{opt(lit("b"))}, parts...)...))))
							}
							for _, t1 := range tails {
								for _, t2 := range tails {
									m, t1, t2 := m, t1, t2
									if !c.Item(func() {
										for _, p := range []*P{
											or(seq(m, t1, lit("b")), seq(m, t2)), seq(and(seq(m, t1)), m, t2), seq(and(capt(seq(m, t1), 40)), capt(seq(m, t2), 41)), seq(not(seq(m, t1, any(1))), m, t2),
											star(seq(or(seq(m, t1, lit("b")), m), any(1))), or(memoP(seq(m, t1, lit("b"))), memoP(seq(m, t2))), seq(and(memoP(seq(m, t1))), and(memoP(seq(m, t2))), opt(seq(m, t1))), seq(and(seq(m, t1)), and(seq(m, t2)), opt(seq(m, capt(opt(any(1)), 60)))),
											seq(opt(seq(m, t1, lit("b"))), opt(m), t2), gram("S", map[string]*P{"S": or(seq(nt("M"), t1, lit("b")), seq(nt("M"), t2)), "M": m}),
										} {
											if !memoOnce(c, p, docs, thresholds) {
												return
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"grammars", fmt.Sprintf("all grammars S,A with A memoized, bodies <=%d and <=3 operators over {'a','b',S,A}, captures; thresholds {0,2}; inputs <=3", pick(th, 4, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{cap1, star, opt, and}, binary: bBasic}
					var as []*P
					a.upTo(3, func(p *P) bool { as = append(as, memoP(p)); return true })
					docs := strs("ab", 3)
					a.upTo(pick(th, 4, 5), func(s *P) bool {
						if !s.mentions("A") {
							return true
						}
						return c.Item(func() {
							for _, b := range as {
								if !memoOnce(c, gram("S", map[string]*P{"S": s, "A": b}), docs, []int{0, 2}) {
									return
								}
							}
						})
					})
				}},
				{"assertions", "all patterns of <=4 operators with memo over {'a',newline,6 zero-width assertions}; inputs over {a,newline} <=3", func(c *Ctx) {
					lv := []*P{lit("a"), any(1)}
					for _, o := range []syntax.EmptyOp{1, 2, 4, 8, 16, 32} {
						lv = append(lv, assertp(o))
					}
					a := &alphabet{leaves: lv, unary: []func(*P) *P{memoP, star, opt, not}, binary: bBasic}
					docs := strs("a\n", 3)
					batch(c, a, 4, 64, func(p *P) bool { return p.has(oMemo) && p.has(oAssert) }, func(p *P) { memoOnce(c, p, docs, []int{0}) })
				}},
				{"curated", "expression, parenthesis, token, statement and look-ahead grammars on all texts over their alphabets up to length 5; all thresholds", func(c *Ctx) {
					for _, g := range []struct {
						p     *P
						alpha string
						n     int
					}{{arithG(), "1+*()", pick(th, 5, 6)}, {parensG(), "()", pick(th, 8, 12)}, {tokensG(), "a #\n", 5}, {stmtsG(), "ab;{}", 5}, {lookG(1), "ab", 7}, {lookG(2), "ab", 7}, {lookG(3), "ab", 7}} {
						all := strs(g.alpha, g.n)
						for i := 0; i < len(all); i += 64 {
							ds := all[i:min(i+64, len(all))]
							g := g
							if !c.Item(func() { memoOnce(c, g.p, ds, thresholds) }) {
								return
							}
						}
					}
				}},
				{"ids", fmt.Sprintf("all sequences of <=%d creations of memoized patterns and repetitions, with automatic ids and with explicit ids 0, 1 and 5 above the last one; every pair of the patterns tried at one place with one table", pick(th, 4, 5)), func(c *Ctx) {
					kinds := 6
					n := pick(th, 4, 5)
					c.heavy = true
					total := 1
					for i := 0; i < n; i++ {
						total *= kinds
					}
					for base := 0; base < total; base += 16 {
						base := base
						if !c.Item(func() {
							for q := base; q < base+16 && q < total; q++ {
								memoIds(c, q, kinds, n)
								if c.itemViol {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"two-parsers", "two parsers with memoized patterns and memoized repetitions, compiled in either order and before or after the other's patterns were created, alternating on one table", func(c *Ctx) {
					mk := []func() pattern.Pattern{
						func() pattern.Pattern { return pattern.Star(pattern.Memo(pattern.Cap(pattern.Literal("a"), 1))) },
						func() pattern.Pattern { return pattern.Memo(pattern.Cap(pattern.Literal("b"), 2)) },
						func() pattern.Pattern {
							return pattern.Concat(pattern.Memo(pattern.Literal("a")), pattern.Star(pattern.Memo(pattern.Cap(pattern.Any(1), 3))))
						},
						func() pattern.Pattern {
							return pattern.Or(pattern.Memo(pattern.Literal("ab")), pattern.Plus(pattern.Memo(pattern.Cap(pattern.Any(2), 4))))
						},
						func() pattern.Pattern {
							return pattern.Or(pattern.Memo(pattern.Cap(pattern.Literal("abb"), 5)), pattern.Memo(pattern.Cap(pattern.Literal("a"), 6)))
						},
					}
					docs := strs("ab", 4)
					for i := range mk {
						for j := range mk {
							i, j := i, j
							if !c.Item(func() {
								for order := 0; order < 3; order++ {
									var c1, c2 vm.Code
									switch order {
									case 0:
										c1 = vm.Encode(pattern.MustCompile(mk[i]()))
										c2 = vm.Encode(pattern.MustCompile(mk[j]()))
									case 1:
										p1, p2 := mk[i](), mk[j]()
										c2 = vm.Encode(pattern.MustCompile(p2))
										c1 = vm.Encode(pattern.MustCompile(p1))
									case 2:
										p1 := mk[i]()
										c1 = vm.Encode(pattern.MustCompile(p1))
										p2 := mk[j]()
										c2 = vm.Encode(pattern.MustCompile(p2))
										c1 = vm.Encode(pattern.MustCompile(p1))
									}
									for _, d := range docs {
										tbl := memo.NewTreeTable(0)
										for k, code := range []*vm.Code{&c1, &c2, &c1, &c2} {
											want := run(code, d, memo.NoneTable{})
											got := run(code, d, tbl)
											c.States(1)
											c.Trans(1)
											c.Traces(2)
											if e := same(want, got, true); e != "" {
												c.Violate("", "parsers number %d and %d (creation order variant %d) sharing a table, input %q, parse %d: %s", i, j, order, d, k, e)
												return
											}
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C10",
		Assume: []string{"no error nodes, back-references or read-ahead checkers inside memoized patterns", "edits are applied to the text and the table in the same order"},
		Spaces: func(th bool) []Space {
			ins := []string{"", "a", "b", "ab", "ba"}
			return []Space{
				{"ops-1", fmt.Sprintf("all patterns of <=%d operators with memo over {'a','b',any1,any2} with capture star optional not and seq or; documents over {a,b} <=3; every single edit (any range replaced by a string of <=2 bytes); threshold 0", pick(th, 5, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(1), any(2)}, unary: []func(*P) *P{memoP, cap1, star, opt, not, and}, binary: bBasic}
					docs := strs("ab", 3)
					batch(c, a, pick(th, 5, 5), 4, func(p *P) bool { return p.has(oMemo) }, func(p *P) { allHistories(c, p, docs, ins, 3, 1, []int{0}, false) })
				}},
				{"all-operators", fmt.Sprintf("all patterns with memo of <=%d operators over every operator of the library except errors and checkers; documents <=3, every single edit", pick(th, 4, 5)), func(c *Ctx) {
					docs := strs("ab", 3)
					batch(c, pure(), pick(th, 4, 5), 4, func(p *P) bool { return p.has(oMemo) }, func(p *P) { allHistories(c, p, docs, ins, 3, 1, []int{0}, false) })
				}},
				{"all-items", fmt.Sprintf("repetitions of a memoized item, of a memoized captured item or any byte, and an item tried twice, for all items of <=%d operators over every operator of the library except errors and checkers; documents of 3 and 4 bytes, every single edit", pick(th, 3, 3)), func(c *Ctx) {
					docs := []string{"aba", "aab", "abab", "baab", "bbaa"}
					batch(c, pure(), 3, 2, nil, func(p *P) {
						m := memoP(capt(p, 7))
						for _, q := range []*P{star(memoP(p)), star(or(m, any(1))), star(or(seq(m, lit("b")), seq(m, any(1)), any(1))), gram("S", map[string]*P{"S": or(seq(m, any(1), nt("S")), seq(any(1), nt("S")), empty())})} {
							if !allHistories(c, q, docs[:pick(th, 3, 5)], []string{"", "a", "b"}, 2, 1, []int{0}, false) {
								return
							}
						}
					})
				}},
				{"edited-in-place", fmt.Sprintf("patterns with memo of <=%d operators over every operator of the library except errors and checkers, and the curated grammars; the document is one reader whose text changes, or a rope with leaves of <=3 bytes that is edited; documents <=3 with every single edit, curated ones with two", pick(th, 3, 4)), func(c *Ctx) {
					docs := strs("ab", 3)
					batch(c, pure(), pick(th, 3, 4), 2, func(p *P) bool { return p.has(oMemo) }, func(p *P) {
						for kind := 1; kind <= 2; kind++ {
							if !allHistoriesOn(c, p, docs, ins, 3, 1, []int{0}, false, kind) {
								return
							}
						}
					})
					for _, j := range []struct {
						p    *P
						docs []string
						ins  []string
					}{{arithG(), []string{"1+2*1", "(1+2)"}, []string{"", "1", "+", "(2)"}}, {tokensG(), []string{"ab #a\nb", "#ab#\na"}, []string{"", "a", "#", "\n"}}, {stmtsG(), []string{"abb;a;b", "{a;}b;"}, []string{"", "a;", "}", "{"}}, {lookG(2), []string{"aabab", "abaabb"}, []string{"", "a", "b"}}} {
						for _, d := range j.docs {
							j, d := j, d
							for kind := 1; kind <= 2; kind++ {
								kind := kind
								if !c.Item(func() { allHistoriesOn(c, j.p, []string{d}, j.ins, 2, 2, []int{0}, true, kind) }) {
									return
								}
							}
						}
					}
				}},
				{"ops-2", "all sequences under a star and choices of memoized patterns of <=3 operators (4 in thorough) with every history of two edits, with and without a parse between; documents <=2", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(2)}, unary: []func(*P) *P{memoP, star, opt, not}, binary: bBasic}
					docs := strs("ab", 2)
					batch(c, a, pick(th, 3, 4), 1, func(p *P) bool { return p.has(oMemo) }, func(p *P) { allHistories(c, p, docs, []string{"", "a", "b"}, 2, 2, []int{0}, true) })
				}},
				{"memo-pairs", fmt.Sprintf("star over a choice of two memoized captured patterns of <=%d operators: documents over {a,b} of length 3..4, every single edit, thresholds {0,2}", pick(th, 3, 3)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(1), any(2)}, unary: []func(*P) *P{not, and, opt}, binary: []func(a, b *P) *P{binSeq}}
					var ps []*P
					a.upTo(3, func(p *P) bool { ps = append(ps, p); return true })
					docs := []string{"aab", "aba", "bab", "abab", "aabb", "baab"}
					if th {
						docs = strs("ab", 4)
					}
					for i, x := range ps {
						x := x
						if !c.Item(func() {
							for j, y := range ps {
								if !th && (i+j)%3 != 0 {
									continue
								}
								p := star(or(memoP(capt(x, 1)), memoP(capt(y, 2)), memoP(any(1))))
								if !allHistories(c, p, docs, []string{"", "a", "b"}, 2, 1, []int{0, 2}, false) {
									return
								}
								q := seq(star(seq(memoP(seq(lit("a"), opt(memoP(x)))), opt(memoP(y)))), capt(star(any(1)), 9))
								if !allHistories(c, q, docs[:3], []string{"", "a", "b"}, 2, 1, []int{0}, false) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"nested-memo", "a memoized pattern containing a memoized pattern reached through a hit (by an earlier alternative or predicate) with look-ahead beyond its end; outer and inner shapes enumerated; documents <=4, one and two edits", func(c *Ctx) {
					inner := []*P{seq(lit("a"), and(lit("b"))), seq(lit("a"), not(lit("b"))), seq(lit("a"), and(any(2))), seq(lit("a"), not(any(2))), seq(lit("a"), opt(lit("bb"))), or(seq(lit("a"), lit("bb")), lit("a")), star(lit("a")), lit("aab"), seq(lit("a"), and(seq(any(1), lit("a")))), or(lit("abb"), any(1))}
					for _, x := range inner {
						for _, y := range inner {
							x, y := x, y
							if !c.Item(func() {
								m := memoP(x)
								n := memoP(y)
								docs := strs("ab", pick(th, 3, 4))
								for _, p := range []*P{
									or(seq(m, lit("x")), memoP(seq(m, opt(any(1)))), any(1)), seq(opt(and(m)), memoP(capt(or(m, any(1)), 1)), star(any(1))), seq(not(seq(m, lit("x"))), star(memoP(or(seq(m, n), any(1))))), or(seq(m, n, lit("x")), memoP(seq(m, n)), memoP(m), any(1)),
									star(memoP(or(seq(m, opt(n)), capt(any(1), 2)))), seq(opt(seq(memoP(seq(m, n)), lit("x"))), opt(memoP(seq(memoP(seq(m, n)), opt(any(1))))), star(any(1))),
									seq(memoP(seq(not(m), n)), opt(any(1))), or(memoP(seq(and(m), any(1), and(n))), memoP(seq(not(m), any(1)))),
								} {
									if !allHistories(c, p, docs, []string{"", "a", "b"}, 2, 1, []int{0}, false) {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"reused-lookahead", "an outer memoized pattern that is re-parsed over a surviving inner entry with long look-ahead: 4 outer shapes x 6 inner shapes; every history of two edits (insert or delete one or two bytes) with a parse between", func(c *Ctx) {
					inner := []*P{seq(lit("a"), and(seq(any(4), lit("b")))), seq(lit("a"), not(seq(any(4), lit("b")))), seq(any(1), not(any(4))), seq(lit("a"), and(any(5))), lit("aabab"), or(lit("ababb"), lit("a"))}
					for _, x := range inner {
						m := memoP(capt(x, 1))
						for _, p := range []*P{
							star(or(memoP(capt(seq(opt(lit("b")), m), 2)), any(1))), star(or(memoP(capt(seq(any(1), opt(m)), 2)), any(1))), star(or(memoP(capt(seq(star(lit("b")), not(m), any(1)), 2)), any(1))),
							seq(memoP(capt(seq(opt(set("ab")), star(m)), 2)), star(any(1))), star(memoP(or(seq(lit("b"), and(m)), any(1)))),
							gram("S", map[string]*P{"S": memoP(capt(or(seq(m, nt("S")), seq(any(1), nt("S")), empty()), 3))}),
						} {
							for _, d := range strs("ab", pick(th, 6, 8)) {
								if len(d) < pick(th, 6, 7) {
									continue
								}
								p, d := p, d
								if !c.Item(func() { allHistories(c, p, []string{d}, []string{"", "a", "b"}, 1, 2, []int{0}, false) }) {
									return
								}
							}
						}
					}
				}},
				{"curated", "expression, parenthesis, token, statement and look-ahead grammars: fixed documents of 5..12 bytes, every history of 1 edit (2 in thorough) deleting <=2 and inserting any of several texts, with and without parses between, thresholds {0,2}", func(c *Ctx) {
					type job struct {
						p    *P
						docs []string
						ins  []string
					}
					jobs := []job{
						{arithG(), []string{"1+2*1", "(1+2)*12", "((1))", "1*2*1+2"}, []string{"", "1", "+", "(", ")", "*2", "2+"}},
						{parensG(), []string{"(())()", "()()()", "((()))", "(()"}, []string{"", "(", ")", "()"}},
						{tokensG(), []string{"ab #a\nb", "a b a", "#ab#\nab a", "a#b"}, []string{"", "a", " ", "#", "\n", "b "}},
						{stmtsG(), []string{"abb;a;b", "{ab;}a;", "a;{a;{b}};", "bbb"}, []string{"", "a", "b", ";", "{", "}", "a;"}},
						{lookG(1), []string{"aabab", "abaab", "aaaa"}, []string{"", "a", "b"}},
						{lookG(2), []string{"aabab", "abaabb", "aaaa"}, []string{"", "a", "b"}},
						{lookG(3), []string{"aabab", "abaabb", "aaaaa"}, []string{"", "a", "b", "ab"}},
					}
					for _, j := range jobs {
						for _, d := range j.docs {
							for _, thr := range []int{0, 2} {
								for _, e := range edits(len(d), j.ins, 2) {
									j, d, thr, e := j, d, thr, e
									if !c.Item(func() {
										code, ok := compileShared(c, j.p)
										if !ok {
											return
										}
										cache := newCache(j.p)
										d2 := e.apply(d)
										in2 := j.ins
										if !th {
											in2 = in2[:min(4, len(in2))]
										}
										for _, e2 := range edits(len(d2), in2, 2) {
											if !history(c, j.p, &code, d, []edit{e, e2}, thr, cache) {
												return
											}
											es := []edit{e, e2}
											es[0].skip = true
											if !history(c, j.p, &code, d, es, thr, cache) {
												return
											}
											if th && (e2.e-e2.s)+len(e2.ins) <= 1 {
												d3 := e2.apply(d2)
												for _, e3 := range edits(len(d3), j.ins[:2], 1) {
													if !history(c, j.p, &code, d, []edit{e, e2, e3}, thr, cache) {
														return
													}
												}
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"many-entries", "documents of 8..20 memoized tokens: every deletion of a range, followed by every single-byte insertion and deletion (and every third edit in thorough)", func(c *Ctx) {
					word := memoP(capt(seq(plus(set("ab")), opt(lit(" "))), 1))
					tok := memoP(capt(set("ab"), 2))
					g := star(or(seq(lit("("), star(tok), lit(")")), word, set("() ")))
					g2 := star(seq(tok, opt(memoP(seq(lit(" "), and(tok))))))
					g3 := gram("L", map[string]*P{"L": or(seq(nt("W"), nt("L")), empty()), "W": memoP(capt(seq(plus(set("ab")), opt(lit(" "))), 1))})
					docs := []string{"ab a bb a b aa", "a b a b a b a b", "(ab)(ba)ab(a)b"}
					if th {
						docs = append(docs, "ab ba ab ba ab ba ab", "a a a a a a a a a a", "aabb(abab)ab(ab)(b)a")
					}
					for _, p := range []*P{g, g2, g3} {
						for _, d := range docs {
							for s := 0; s <= len(d); s++ {
								for e := s; e <= len(d); e++ {
									p, d, s, e := p, d, s, e
									if !c.Item(func() {
										code, ok := compileShared(c, p)
										if !ok {
											return
										}
										cache := newCache(p)
										for _, in1 := range []string{"", "a", "b a"} {
											e1 := edit{s: s, e: e, ins: in1}
											d2 := e1.apply(d)
											for _, e2 := range edits(len(d2), []string{"", "a", " "}, 1) {
												if !history(c, p, &code, d, []edit{e1, e2}, 0, cache) {
													return
												}
												k := e1
												k.skip = true
												if !history(c, p, &code, d, []edit{k, e2}, 0, cache) {
													return
												}
												if th && in1 == "" && e2.ins != " " {
													d3 := e2.apply(d2)
													for _, e3 := range edits(len(d3), []string{"", "b"}, 1) {
														k2 := e2
														k2.skip = true
														if !history(c, p, &code, d, []edit{k, k2, e3}, 0, cache) {
															return
														}
													}
												}
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"assertions", "memoized patterns with zero-width assertions at their edges: all of <=3 operators over {'a',any1,6 assertions}, as items of a star; documents over {a,newline,space}, every single edit", func(c *Ctx) {
					lv := []*P{lit("a"), any(1)}
					for _, o := range []syntax.EmptyOp{1, 2, 4, 8, 16, 32} {
						lv = append(lv, assertp(o))
					}
					a := &alphabet{leaves: lv, unary: []func(*P) *P{not, opt}, binary: bBasic}
					docs := []string{"", "a", "aa", "a\na", "\naa", "a a", "aa\n", " a"}
					batch(c, a, pick(th, 3, 4), 4, func(p *P) bool { return p.has(oAssert) }, func(p *P) {
						allHistories(c, star(or(seq(memoP(p), any(1)), memoP(any(1)))), docs, []string{"", "a", "\n", " "}, 2, 1, []int{0}, false)
					})
				}},
				{"on-ropes", "the curated grammars with the document held in a rope (tiny leaves) that is edited in step with the table; one edit, then a second (thorough)", func(c *Ctx) {
					type job struct {
						p   *P
						d   string
						ins []string
					}
					jobs := []job{{arithG(), "(1+2)*12", []string{"", "1", "+", "(", ")"}}, {tokensG(), "ab #a\nb", []string{"", "a", " ", "#", "\n"}}, {stmtsG(), "{ab;}a;", []string{"", "a", ";", "}"}}}
					for _, j := range jobs {
						for _, e1 := range edits(len(j.d), j.ins, 2) {
							j, e1 := j, e1
							if !c.Item(func() {
								code, ok := compileShared(c, j.p)
								if !ok {
									return
								}
								cache := newCache(j.p)
								d1 := e1.apply(j.d)
								for _, e2 := range edits(len(d1), j.ins[:3], 1) {
									c.Guard(func() string { return fmt.Sprintf("rope history %q %v %v", j.d, e1, e2) }, func() {
										rope := linerope.NewWithOpts([]byte(j.d), linerope.Options{SplitLen: 3, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte("\n")})
										tbl := memo.NewTreeTable(0)
										cur := j.d
										for k := 0; k < 3; k++ {
											ok, pos, capt, errs := code.Exec(rope, tbl)
											r := cache.get(cur)
											c.States(1)
											c.Traces(1)
											c.Trans(r.steps)
											if s := diff(r, ires{ok, pos, capt, errs}, false); s != "" {
												c.Violate("", "pattern: %s\ndocument %q in a rope, edits %v %v, at step %d: %s", j.p, j.d, e1, e2, k, s)
												return
											}
											if k == 2 {
												break
											}
											e := e1
											if k == 1 {
												e = e2
											}
											rope.Remove(e.s, e.e)
											rope.Insert(e.s, []byte(e.ins))
											tbl.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
											cur = e.apply(cur)
										}
									})
									if c.itemViol {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C11",
		Assume: []string{"items match at least one byte"},
		Spaces: func(th bool) []Space {
			items := func() []*P {
				return []*P{capt(lit("a"), 1), lit("a"), seq(capt(lit("a"), 1), opt(capt(lit("b"), 2))), capt(or(seq(lit("a"), lit("b")), lit("a")), 3), seq(lit("a"), capt(empty(), 4), not(lit("c"))), or(capt(lit("a"), 5), lit("b")),
					seq(set("ab"), and(or(any(1), empty()))), capt(seq(lit("a"), capt(opt(lit("b")), 6)), 7), seq(capt(set("ab"), 8), and(opt(lit("bb")))), or(capt(lit("aa"), 9), capt(lit("ab"), 10), capt(lit("b"), 11)),
					capt(seq(memoP(capt(lit("a"), 12)), opt(memoP(lit("b")))), 13)}
			}
			wraps := func(it *P) []*P {
				m := memoP(it)
				return []*P{star(m), plus(m), seq(star(m), capt(star(any(1)), 20)), seq(capt(star(m), 21), opt(lit("c"))), star(or(plus(memoP(it)), lit("c"))), seq(lit("c"), star(m)), gram("S", map[string]*P{"S": or(seq(lit("("), star(memoP(nt("S"))), lit(")")), it)}), seq(opt(seq(star(m), lit("c"))), star(m)), memoP(seq(star(m), opt(lit("c"))))}
			}
			return []Space{
				{"counts", "repetitions of 0..40 items (11 item patterns x 9 contexts), with a different item at every place; first parse and reparse, thresholds {0,1,2,3}", func(c *Ctx) {
					for _, it := range items() {
						for _, p := range wraps(it) {
							p := p
							if !c.Item(func() {
								var docs []string
								for n := 0; n <= pick(th, 24, 70); n++ {
									docs = append(docs, strings.Repeat("a", n), strings.Repeat("a", n)+"c", strings.Repeat("ab", n/2))
									docs = append(docs, "("+strings.Repeat("a", n)+")", "c"+strings.Repeat("a", n))
									if n > 0 {
										docs = append(docs, strings.Repeat("a", n/2)+"b"+strings.Repeat("a", n/3), strings.Repeat("a", n/3)+"c"+strings.Repeat("ab", n/3))
									}
								}
								memoOnce(c, p, docs, []int{0, 1, 2, 3})
							}) {
								return
							}
						}
					}
				}},
				{"all-items", fmt.Sprintf("Star and Plus of a memoized item, alone and before a capture, for all items of <=%d operators over every operator of the library except errors and checkers; all documents over {a,b} <=%d parsed twice; and every single edit of two documents", pick(th, 3, 4), pick(th, 5, 6)), func(c *Ctx) {
					docs := append(strs("ab", pick(th, 5, 6)), "aaaaaaaaa", "ababababab", "bbbbbbbbbbb", "aabaabaabaab")
					edited := []string{"aabab", "abaabb"}
					batch(c, pure(), pick(th, 3, 4), 4, nil, func(p *P) {
						for i, q := range []*P{star(memoP(p)), plus(memoP(p)), seq(star(memoP(p)), capt(opt(any(1)), 9))} {
							if !memoOnce(c, q, docs, []int{0}) {
								return
							}
							if i == 0 && p.count() <= 3 && !allHistories(c, q, edited, []string{"", "a", "b"}, 2, 1, []int{0}, false) {
								return
							}
						}
					})
				}},
				{"one-edit", "repetitions of 0..12 items: every single edit deleting <=3 bytes and inserting one of 6 texts; 11 items x 9 contexts", func(c *Ctx) {
					for _, it := range items() {
						for _, p := range wraps(it) {
							for n := 0; n <= pick(th, 9, 17); n++ {
								p, n := p, n
								if !c.Item(func() {
									docs := []string{strings.Repeat("a", n)}
									if n > 2 {
										docs = append(docs, strings.Repeat("ab", n/2), "("+strings.Repeat("a", n-2)+")", strings.Repeat("a", n/2)+"c"+strings.Repeat("a", n/2))
									}
									allHistories(c, p, docs, []string{"", "a", "b", "c", "aa", "ab", "aaa"}, 3, 1, []int{0}, false)
								}) {
									return
								}
							}
						}
					}
				}},
				{"two-edits", "repetitions of 1..8 items: every history of two edits deleting <=2 and inserting <=2 bytes, with and without a parse between", func(c *Ctx) {
					its := items()
					if !th {
						its = []*P{its[0], its[2], its[5], its[8]}
					}
					for _, it := range its {
						for wi, p := range wraps(it) {
							if !th && wi != 0 && wi != 1 && wi != 4 && wi != 6 {
								continue
							}
							for n := 1; n <= pick(th, 7, 9); n++ {
								p, n := p, n
								if !c.Item(func() {
									d := strings.Repeat("a", n)
									if p.Op == oGram {
										d = "(" + d + ")"
									}
									allHistories(c, p, []string{d}, []string{"", "a", "aa", "b"}, 2, 2, []int{0}, true)
								}) {
									return
								}
							}
						}
					}
				}},
				{"three-edits", "repetitions of 3..8 one-byte items: every history of three edits that insert or delete one item (or two adjacent)", func(c *Ctx) {
					its := items()
					for _, it := range []*P{its[0], its[5], its[8]} {
						for n := 3; n <= pick(th, 6, 9); n++ {
							it, n := it, n
							if !c.Item(func() {
								allHistories(c, star(memoP(it)), []string{strings.Repeat("a", n)}, []string{"", "a"}, 1, 3, []int{0}, false)
							}) {
								return
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C12",
		Assume: []string{"captures inside and-predicates are excluded", "the memo table is used with interval parses only"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"ops", fmt.Sprintf("all patterns of <=%d operators with captures (and memo) over {'a','b',any1,empty}, all intervals [l,h) with 0<=l<=h<=len+1; inputs <=3; without and with a table", pick(th, 6, 7)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(1), empty()}, unary: []func(*P) *P{cap1, func(p *P) *P { return capt(p, 2) }, memoP, star, opt, not}, binary: bBasic}
					docs := strs("ab", 3)
					batch(c, a, pick(th, 6, 7), 32, func(p *P) bool { return p.has(oCap) }, func(p *P) { intervals(c, p, docs, 1) })
				}},
				{"all-operators", fmt.Sprintf("all capturing patterns of <=%d operators over every operator of the library except and-predicates; all intervals; inputs <=3; without and with a table", pick(th, 5, 6)), func(c *Ctx) {
					docs := strs("ab", 3)
					batch(c, everything(true, true), pick(th, 5, 6), 32, func(p *P) bool {
						return p.has(oCap) && !p.has(oAnd) && !hasMemoOver(p, func(q *P) bool { return q.Op == oErr || q.Op == oCheck })
					}, func(p *P) { intervals(c, p, docs, 1) })
				}},
				{"curated", "capturing grammars on fixed documents, all sequences of 2 intervals (3 in thorough) on one table", func(c *Ctx) {
					gs := []struct {
						p    *P
						docs []string
					}{
						{arithG(), []string{"1+2*1", "(1+2)*12", "((1))"}}, {parensG(), []string{"(())()", "()()"}}, {tokensG(), []string{"ab #a\nb", "a b a"}}, {stmtsG(), []string{"abb;a;b", "{ab;}a;"}},
						{star(memoP(capt(lit("a"), 1))), []string{"aaaaaaa", "aaa"}}, {seq(star(memoP(capt(seq(capt(set("ab"), 2), opt(capt(lit("c"), 3))), 1))), capt(not(any(1)), 4)), []string{"abcaac", "acbc"}},
						{or(seq(memoP(capt(star(capt(lit("a"), 1)), 2)), lit("x")), memoP(capt(star(capt(lit("a"), 1)), 2))), []string{"aaaa"}},
						{seq(capt(star(lit("a")), 1), capt(star(capt(lit("b"), 2)), 3), search(capt(lit("c"), 4))), []string{"aabbxc", "bcc", "aac"}},
						{func() *P { m := memoP(capt(any(1), 1)); return or(seq(m, m, m, m, lit("x")), seq(m, m, star(m))) }(), []string{"abab", "aaaaa"}},
					}
					for _, g := range gs {
						for _, d := range g.docs {
							for lo := 0; lo <= len(d); lo++ {
								for hi := lo; hi <= len(d)+1; hi++ {
									g, d, lo, hi := g, d, lo, hi
									if !c.Item(func() { intervalSeq(c, g.p, d, vm.Interval{Low: lo, High: hi}, pick(th, 2, 3)) }) {
										return
									}
								}
							}
						}
					}
				}},
				{"edits", "capturing memoized grammars: interval parse, edit, interval parse, for every single edit and all pairs of intervals", func(c *Ctx) {
					gs := []struct {
						p   *P
						d   string
						ins []string
					}{{arithG(), "1+2*1", []string{"", "1", "+", "("}}, {tokensG(), "ab #a\nb", []string{"", "a", " ", "\n"}}, {star(memoP(capt(set("ab"), 1))), "aabab", []string{"", "a", "x"}}, {lookG(2), "aabab", []string{"", "a", "b"}}}
					for _, g := range gs {
						for _, e := range edits(len(g.d), g.ins, 2) {
							g, e := g, e
							if !c.Item(func() { intervalEdit(c, g.p, g.d, e) }) {
								return
							}
						}
					}
				}},
			}
		}})
}

// filterCaps keeps the captures overlapping the interval.
func filterCaps(cs []*cnode, iv vm.Interval) []*cnode {
	var out []*cnode
	for _, c := range cs {
		if c.start < iv.High && c.end > iv.Low {
			out = append(out, &cnode{c.id, c.start, c.end, filterCaps(c.kids, iv)})
		}
	}
	return out
}

func hull(cs []*cnode, iv vm.Interval) vm.Interval {
	for _, c := range cs {
		iv.Low = min(iv.Low, c.start)
		iv.High = max(iv.High, c.end)
		iv = hull(c.kids, iv)
	}
	return iv
}

// checkInterval runs one interval parse and compares it with the filtered
// reference tree.
func checkInterval(c *Ctx, p *P, code *vm.Code, d string, r mres, iv vm.Interval, tbl memo.Table, how string) bool {
	return checkIntervalOn(c, p, code, strings.NewReader(d), d, r, iv, tbl, how)
}

func checkIntervalOn(c *Ctx, p *P, code *vm.Code, rd io.ReaderAt, d string, r mres, iv vm.Interval, tbl memo.Table, how string) bool {
	ivc := iv
	ok, pos, root, errs := code.ExecInterval(rd, tbl, &ivc)
	c.States(1)
	c.Traces(1)
	c.Trans(r.steps)
	bad := ""
	exp := filterCaps(r.caps, iv)
	c.Outcomes(func() string { return fmt.Sprint(ok, pos, capsString(exp)) })
	switch {
	case ok != r.ok:
		bad = fmt.Sprintf("match is %v, expected %v", ok, r.ok)
	case ok && pos != r.pos:
		bad = fmt.Sprintf("end position is %d, expected %d", pos, r.pos)
	case ok && root == nil:
		bad = "no capture root"
	case ok:
		if got, want := rootCaps(root), capsString(exp); got != want {
			bad = fmt.Sprintf("captures are (%s), expected (%s), from the full tree (%s)", got, want, capsString(r.caps))
			break
		}
		h := hull(exp, iv)
		if root.Start() > h.Low || root.End() < h.High {
			bad = fmt.Sprintf("root covers [%d,%d), which does not include [%d,%d)", root.Start(), root.End(), h.Low, h.High)
		}
	}
	if bad == "" && ivc != iv {
		bad = fmt.Sprintf("the caller's interval was changed to %v", ivc)
	}
	if bad != "" {
		c.Violate("", "pattern: %s\ninput: %q, interval [%d,%d)%s\n%s (errors %v)", p, d, iv.Low, iv.High, how, bad, errs)
		return false
	}
	return true
}

func intervals(c *Ctx, p *P, docs []string, depth int) bool {
	cache := newCache(p)
	if !cache.usable(docs) {
		c.Skip(len(docs))
		return true
	}
	code, ok := compileShared(c, p)
	if !ok {
		return false
	}
	for _, d := range docs {
		r := cache.get(d)
		if r.undef != "" {
			c.Skip(1)
			continue
		}
		d := d
		how := ""
		if !c.Guard(func() string { return fmt.Sprintf("pattern %s on %q %s", p, d, how) }, func() {
			for lo := 0; lo <= len(d); lo++ {
				for hi := lo; hi <= len(d)+1; hi++ {
					iv := vm.Interval{Low: lo, High: hi}
					how = fmt.Sprint(iv)
					if !checkInterval(c, p, &code, d, r, iv, memo.NoneTable{}, "") {
						return
					}
					if p.has(oMemo) {
						tbl := memo.NewTreeTable(0)
						if !checkInterval(c, p, &code, d, r, iv, tbl, " with a fresh table") || !checkInterval(c, p, &code, d, r, iv, tbl, " again with the same table") {
							return
						}
					}
				}
			}
		}) || c.itemViol {
			return false
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s on %q, all intervals", p, docs[len(docs)-1]) })
	return true
}

func intervalSeq(c *Ctx, p *P, d string, first vm.Interval, depth int) {
	code, ok := compileShared(c, p)
	if !ok {
		return
	}
	r := ref(p, d)
	if r.undef != "" {
		c.Skip(1)
		return
	}
	var rec func(ivs []vm.Interval) bool
	rec = func(ivs []vm.Interval) bool {
		if len(ivs) == depth {
			tbl := memo.NewTreeTable(0)
			for i, iv := range ivs {
				if !checkInterval(c, p, &code, d, r, iv, tbl, fmt.Sprintf(" as number %d of the intervals %v on one table", i+1, ivs)) {
					return false
				}
			}
			return true
		}
		for lo := 0; lo <= len(d); lo++ {
			for hi := lo; hi <= len(d)+1; hi++ {
				if !rec(append(ivs[:len(ivs):len(ivs)], vm.Interval{Low: lo, High: hi})) {
					return false
				}
			}
		}
		return true
	}
	checkInterval(c, p, &code, d, r, first, memo.NoneTable{}, "")
	rec([]vm.Interval{first})
}

func intervalEdit(c *Ctx, p *P, d string, e edit) {
	code, ok := compileShared(c, p)
	if !ok {
		return
	}
	d2 := e.apply(d)
	r1, r2 := ref(p, d), ref(p, d2)
	if r1.undef != "" || r2.undef != "" {
		c.Skip(1)
		return
	}
	for l1 := 0; l1 <= len(d); l1++ {
		for h1 := l1; h1 <= len(d); h1++ {
			for l2 := 0; l2 <= len(d2); l2++ {
				for h2 := l2; h2 <= len(d2); h2++ {
					for kind := 1; kind <= 2; kind++ {
						// the document is edited in place
						tx := newText(d, kind)
						tbl := memo.NewTreeTable(0)
						how := fmt.Sprintf(" (interval parses [%d,%d), edit %v, [%d,%d), on one reader of kind %d)", l1, h1, e, l2, h2, kind)
						if !checkIntervalOn(c, p, &code, tx.reader(), d, r1, vm.Interval{Low: l1, High: h1}, tbl, how) {
							return
						}
						tx.edit(e)
						tbl.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
						if !checkIntervalOn(c, p, &code, tx.reader(), d2, r2, vm.Interval{Low: l2, High: h2}, tbl, how) {
							return
						}
					}
				}
			}
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s on %q, edit %v, all interval pairs", p, d, e) })
}

// memoIds creates n memoized patterns as coded by q and checks that none gets
// another's results from a shared table. Pattern i matches i+1 times 'a',
// pattern kinds 4 and 5 are memoized repetitions, which get an id of their own
// when they are compiled.
func memoIds(c *Ctx, q, kinds, n int) {
	last := pattern.Memo(pattern.Literal("q")).(*pattern.MemoNode).Id
	var ps []pattern.Pattern
	var spec []*P
	var desc []string
	for i := 0; i < n; i, q = i+1, q/kinds {
		body := capt(lit(strings.Repeat("a", i+1)), 10+i)
		sp := body
		var p pattern.Pattern
		switch k := q % kinds; k {
		case 0:
			p = pattern.Memo(body.build())
			last = p.(*pattern.MemoNode).Id
			desc = append(desc, "Memo")
		case 1, 2, 3:
			last += []int{1, 2, 6}[k-1]
			p = pattern.MemoId(body.build(), last)
			desc = append(desc, fmt.Sprintf("MemoId(%d)", last))
		case 4:
			p = pattern.Star(pattern.Memo(body.build()))
			sp = star(body)
			desc = append(desc, "Star(Memo)")
			// the ids used so far include that of the inner pattern
			last++
		case 5:
			p = pattern.Plus(pattern.Memo(body.build()))
			sp = plus(body)
			desc = append(desc, "Plus(Memo)")
			last++
		}
		if q%kinds >= 4 {
			// compiling allocates ids too
			pattern.MustCompile(p)
			m := pattern.Memo(pattern.Literal("q")).(*pattern.MemoNode)
			last = max(last, m.Id)
		}
		ps = append(ps, p)
		spec = append(spec, sp)
	}
	for i := range ps {
		for j := range ps {
			if i == j {
				continue
			}
			p := pattern.Or(pattern.Concat(ps[i], pattern.Literal("x")), pattern.Concat(ps[j], pattern.Literal("y")), pattern.Any(1))
			sp := or(seq(spec[i], lit("x")), seq(spec[j], lit("y")), any(1))
			code := vm.Encode(pattern.MustCompile(p))
			for k := 0; k <= n; k++ {
				for _, e := range []string{"x", "y"} {
					d := strings.Repeat("a", k) + e
					r := ref(sp, d)
					tbl := memo.NewTreeTable(0)
					for t := 0; t < 2; t++ {
						c.States(1)
						c.Traces(1)
						c.Trans(r.steps)
						if err := diff(r, run(&code, d, tbl), false); err != "" {
							c.Violate("", "patterns created by %v in this order; number %d then 'x', or number %d then 'y'; input %q, parse %d with a table: %s", desc, i, j, d, t+1, err)
							return
						}
					}
				}
			}
		}
	}
	c.Sample(func() string { return fmt.Sprint(desc) })
}
