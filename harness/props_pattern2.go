package main

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

func init() {
	register(&Property{ID: "C03",
		Assume: []string{"left-recursive grammars and repetitions of empty matches are excluded (detected dynamically by the reference interpreter)"},
		Spaces: func(th bool) []Space {
			docs3 := strs("ab", 3)
			docs4 := strs("ab", 4)
			return []Space{
				{"two-rules", fmt.Sprintf("all grammars S,A with bodies of <=%d and <=%d operators over {'a','b',S,A} with star optional not seq or; inputs over {a,b} <=3", pick(th, 5, 5), pick(th, 4, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{star, opt, not}, binary: bBasic}
					grammars2(c, a, pick(th, 5, 5), pick(th, 4, 5), nil, func(g *P) { checkPattern(c, g, docs3, false) })
				}},
				{"all-operators", fmt.Sprintf("all grammars S,A with bodies of <=%d and <=%d operators over every operator of the library and the rules S,A; inputs over {a,b} <=3", 3, pick(th, 2, 3)), func(c *Ctx) {
					a := everything(true, true)
					a.leaves = append(a.leaves, nt("A"), nt("S"))
					var as []*P
					a.upTo(pick(th, 2, 3), func(p *P) bool { as = append(as, p); return true })
					a.upTo(3, func(s *P) bool {
						if !s.mentions("A") && !s.mentions("S") {
							return true
						}
						if th && s.count() == 3 && len(s.Kids) != 2 {
							return true // a chain of two prefixes adds nothing to A's bodies
						}
						return c.Item(func() {
							for _, b := range as {
								checkPattern(c, gram("S", map[string]*P{"S": s, "A": b}), docs3, true)
								if c.itemViol {
									return
								}
							}
						})
					})
				}},
				{"three-rules", "all grammars S,A,B with bodies of <=3, <=3 and <=2 operators over {'a','b',S,A,B} with optional not seq or; inputs <=3", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("B"), nt("S")}, unary: []func(*P) *P{opt, not}, binary: bBasic}
					var as, bs []*P
					a.upTo(3, func(p *P) bool { as = append(as, p); return true })
					a.upTo(2, func(p *P) bool { bs = append(bs, p); return true })
					for _, s := range as {
						s := s
						if !(s.mentions("A") || s.mentions("B")) {
							continue
						}
						if !c.Item(func() {
							for _, x := range as {
								for _, b := range bs {
									checkPattern(c, gram("S", map[string]*P{"S": s, "A": x, "B": b}), docs3, false)
									if c.itemViol {
										return
									}
								}
							}
						}) {
							return
						}
					}
				}},
				{"nested", "grammars nested in rules of grammars: inner start rule of <=3 operators over {'a','b',own rule,outer rules}, with and without shadowing names, embedded in several outer rule shapes, including under search, capture and repetition", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("B"), nt("S")}, unary: []func(*P) *P{opt, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					var inner []*P
					a.upTo(pick(th, 3, 3), func(p *P) bool { inner = append(inner, p); return true })
					outerA := []*P{lit("a"), or(seq(lit("a"), nt("A")), lit("b")), seq(lit("b"), opt(nt("S"))), nt("B")}
					outerB := []*P{lit("b"), seq(lit("a"), opt(nt("B"))), or(seq(lit("b"), nt("A")), empty())}
					for _, body := range inner {
						body := body
						if !c.Item(func() {
							for _, oa := range outerA {
								for _, ob := range outerB {
									for _, name := range []string{"A", "I"} {
										ib := body
										if name == "I" {
											ib = body.rename("B", "I")
										}
										in := gram(name, map[string]*P{name: ib})
										in2 := gram("J", map[string]*P{"J": or(seq(lit("a"), nt(name)), lit("b")), name: ib})
										for _, s := range []*P{in, seq(lit("a"), in), or(seq(in, nt("A")), nt("A")), star(seq(lit("a"), in)), seq(nt("A"), in2), in2, capt(seq(in, opt(nt("S"))), 2), seq(not(in), any(1), opt(nt("S"))), search(in)} {
											checkPattern(c, gram("S", map[string]*P{"S": s, "A": oa, "B": ob}), docs3, false)
											if c.itemViol {
												return
											}
										}
									}
								}
							}
						}) {
							return
						}
					}
				}},
				{"deep-nesting", "grammars nested three deep where the innermost uses rules of every enclosing level, recursive and not", func(c *Ctx) {
					leaf := []*P{lit("a"), nt("X"), nt("Y"), nt("Z"), seq(lit("a"), opt(nt("X"))), or(seq(lit("b"), nt("Y")), nt("Z"))}
					for _, x := range leaf {
						for _, y := range leaf {
							x, y := x, y
							if !c.Item(func() {
								for _, z := range leaf {
									for _, w := range leaf {
										g3 := gram("Z", map[string]*P{"Z": or(seq(lit("b"), w), lit("a"))})
										g2 := gram("Y", map[string]*P{"Y": or(seq(lit("a"), g3), z), "W": lit("b")})
										g1 := gram("X", map[string]*P{"X": or(seq(lit("a"), g2), y), "Z": x, "Y": lit("b")})
										checkPattern(c, g1, docs4, false)
										checkPattern(c, gram("T", map[string]*P{"T": seq(opt(nt("Z")), g1), "Z": lit("b")}), docs4, false)
										if c.itemViol {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"contexts", "calls and tail calls in every operator context: rule bodies that end in a call under star, optional, choice arms, predicates, captures, checks and search, with recursive, inlined and empty callees", func(c *Ctx) {
					callees := []*P{lit("a"), empty(), or(seq(lit("a"), nt("A")), empty()), or(seq(lit("a"), nt("A"), lit("b")), lit("c")), seq(opt(lit("b")), not(lit("b"))), seq(lit("a"), nt("B"))}
					others := []*P{lit("b"), seq(opt(lit("b")), lit("a")), or(seq(lit("b"), nt("B")), lit("a")), seq(lit("b"), opt(nt("A")))}
					ctxs := []func(*P) *P{func(p *P) *P { return p }, func(p *P) *P { return seq(lit("a"), p) }, func(p *P) *P { return or(seq(lit("a"), p), lit("b")) }, func(p *P) *P { return or(lit("b"), seq(lit("a"), p)) },
						func(p *P) *P { return or(p, lit("b")) }, func(p *P) *P { return opt(p) }, func(p *P) *P { return seq(p, p) }, func(p *P) *P { return star(seq(lit("b"), p)) }, func(p *P) *P { return plus(seq(lit("b"), p)) },
						func(p *P) *P { return seq(and(p), p) }, func(p *P) *P { return seq(not(p), any(1)) }, func(p *P) *P { return capt(p, 5) }, func(p *P) *P { return seq(capt(seq(lit("a"), p), 6), p) }, func(p *P) *P { return search(p) },
						func(p *P) *P { return or(seq(p, lit("c")), seq(p, lit("b")), p) }, func(p *P) *P { return not(not(p)) }, func(p *P) *P { return seq(or(seq(lit("b"), p), seq(lit("a"), p)), p) }}
					docs := strs("abc", 4)
					for _, f := range ctxs {
						for _, g := range ctxs {
							f, g := f, g
							if !c.Item(func() {
								for _, ca := range callees {
									for _, o := range others {
										checkPattern(c, gram("S", map[string]*P{"S": f(nt("A")), "A": ca, "B": g(o)}), docs, false)
										checkPattern(c, gram("S", map[string]*P{"S": f(nt("M")), "M": g(nt("A")), "A": ca, "B": o}), docs, false)
										checkPattern(c, seq(gram("S", map[string]*P{"S": f(nt("M")), "M": g(nt("A")), "A": ca, "B": o}), lit("b")), docs, false)
										if c.itemViol {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"inline-sizes", "rules whose size is at and around the inlining threshold, with and without further rules below them", func(c *Ctx) {
					for n := 94; n <= 104; n++ {
						for form := 0; form < 4; form++ {
							n, form := n, form
							if !c.Item(func() {
								var k []*P
								for i := 0; i < n; i++ {
									k = append(k, lit("a"))
								}
								long := or(seq(append([]*P{lit("b")}, k[:n/2-1]...)...), lit("a"))
								as := strings.Repeat("a", n/2-2)
								docs := []string{"", "a", "b", "aa", "aaa", "b" + as, "b" + as + "a", "b" + as + "aa", "ab" + as + "a", "aab" + as + "aab"}
								defs := map[string]*P{"S": seq(opt(nt("A")), nt("A"), opt(nt("A"))), "A": long}
								switch form {
								case 1:
									defs["A"] = or(seq(append([]*P{lit("b")}, k[:n/2-2]...)...), nt("C"))
									defs["C"] = lit("a")
								case 2:
									defs["A"] = or(long, seq(lit("c"), nt("S")))
									docs = append(docs, "ca", "cca", "caca")
								case 3:
									defs["S"] = seq(nt("D"), opt(nt("D")))
									defs["D"] = seq(nt("A"), opt(nt("E")))
									defs["E"] = or(seq(lit("b"), nt("E")), lit("b"))
								}
								checkPattern(c, gram("S", defs), docs, false)
							}) {
								return
							}
						}
					}
				}},
				{"long-recursion", "recursion (tail, middle, mutual) on inputs of 0..40 and of 100..5000 bytes", func(c *Ctx) {
					gs := []*P{
						gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S")), empty())}),
						gram("S", map[string]*P{"S": or(seq(lit("("), nt("S"), lit(")"), nt("S")), empty())}),
						gram("S", map[string]*P{"S": or(seq(lit("a"), nt("A")), empty()), "A": or(seq(lit("b"), nt("S")), empty())}),
						gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S"), lit("b")), empty())}),
						gram("S", map[string]*P{"S": capt(or(seq(lit("("), star(nt("S")), lit(")")), lit("a")), 1)}),
						gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S"), not(lit("a"))), lit("b"), empty())}),
					}
					mk := func(n int) []string {
						a := strings.Repeat("a", n)
						return []string{a, strings.Repeat("(", n) + strings.Repeat(")", n), strings.Repeat("()", n), strings.Repeat("ab", n), a + strings.Repeat("b", n), a + strings.Repeat("b", n+1), strings.Repeat("(", n) + "a" + strings.Repeat(")", n), strings.Repeat("(", n) + strings.Repeat("a)", n), strings.Repeat("((a)a)", n)}
					}
					for gi, g := range gs {
						for n := 0; n <= 44; n++ {
							g, n, gi := g, n, gi
							if n > 40 {
								n = []int{100, 1000, 2000, 4000}[n-41]
								if !th && n > 1000 || gi == 4 && n > 1000 {
									continue
								}
							}
							if !c.Item(func() { checkPattern(c, g, mk(n), false) }) {
								return
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C05",
		Assume: []string{"as C01"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"patterns", fmt.Sprintf("Search(p) for all p of <=%d operators over {'a','b','ab',[a],[ab],[bc],any1,empty}, in 10 contexts, inputs over {a,b} <=%d and 9 with c", pick(th, 6, 7), pick(th, 5, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), lit("ab"), set("a"), set("ab"), set("bc"), any(1), empty()}, unary: append([]func(*P) *P{func(p *P) *P { return capt(p, 1) }}, uBasic...), binary: bBasic}
					docs := append(strs("ab", pick(th, 5, 5)), "c", "ac", "ca", "cab", "bcab", "caab", "abcb", "ccabc", "bacab")
					batch(c, a, pick(th, 6, 7), 16, nil, func(p *P) {
						checkPattern(c, search(p), docs, false)
						if p.count() > 5 {
							return
						}
						checkPattern(c, seq(search(p), search(p)), docs, false)
						checkPattern(c, star(search(p)), docs, false)
						if p.count() <= 3 || th && p.count() <= 4 {
							checkPattern(c, capt(search(seq(p, lit("b"))), 7), docs, false)
							checkPattern(c, seq(lit("a"), search(p), opt(lit("a"))), docs, false)
							checkPattern(c, or(seq(search(p), lit("c")), search(p)), docs, false)
							checkPattern(c, not(search(p)), docs, false)
							checkPattern(c, search(search(p)), docs, false)
							checkPattern(c, seq(and(search(p)), p), docs, false)
							checkPattern(c, plus(seq(search(p), any(1))), docs, false)
						}
					})
				}},
				{"first-sets", "Search of patterns that begin with a set of every size 0..14 and 240..256, alone and followed by each of several continuations; texts with each boundary byte", func(c *Ctx) {
					for n := 0; n <= 256; n++ {
						if n > 14 && n < 242 {
							continue
						}
						for shift := 0; shift < 4; shift++ {
							n, shift := n, shift
							if !c.Item(func() {
								var b bset
								for i := 0; i < n; i++ {
									b[(i+shift*61)%256] = true
								}
								s := &P{Op: oSet, Set: &b}
								in := string([]byte{byte(shift * 61)})
								last := string([]byte{byte(n - 1 + shift*61)})
								out := string([]byte{byte(n + shift*61)})
								before := string([]byte{byte(shift*61 - 1)})
								var docs []string
								for _, x := range []string{"", in, out, before, last} {
									for _, y := range []string{"", in, out, "k", last} {
										for _, z := range []string{"", in, "k", last + "k", out + in} {
											docs = append(docs, x+y+z)
										}
									}
								}
								for _, p := range []*P{s, seq(s, lit("k")), seq(s, s), seq(s, not(any(1))), capt(seq(s, opt(lit("k"))), 3), plus(s), seq(opt(s), lit("k")), or(seq(s, lit("k")), seq(lit("k"), s)), capt(plus(s), 2)} {
									checkPattern(c, search(p), docs, false)
									checkPattern(c, star(search(p)), docs, false)
								}
							}) {
								return
							}
						}
					}
				}},
				{"in-grammars", "Search inside grammars whose rules are named S, A, B: searched patterns refer to recursive and non-recursive rules; Search in rule bodies, tails, nested searches", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{opt, not, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					var ps, bs []*P
					a.upTo(3, func(p *P) bool { ps = append(ps, p); return true })
					a.upTo(2, func(p *P) bool { bs = append(bs, p); return true })
					bs = append(bs, or(seq(lit("a"), nt("A")), lit("b")), seq(lit("b"), opt(nt("S"))), or(seq(lit("("), nt("A"), lit(")")), lit("b")))
					docs := append(strs("ab", 4), "a(b)", "((b))", "(a(b)")
					for _, p := range ps {
						p := p
						if !c.Item(func() {
							for _, b := range bs {
								for _, s := range []*P{search(p), seq(lit("a"), search(p)), or(seq(lit("a"), search(p), lit("b")), opt(nt("A"))), star(search(seq(p, lit("b")))), search(search(p))} {
									checkPattern(c, gram("S", map[string]*P{"S": s, "A": b}), docs, false)
									if c.itemViol {
										return
									}
								}
								checkPattern(c, gram("S", map[string]*P{"S": seq(nt("A"), opt(nt("A"))), "A": search(or(p, b))}), docs, false)
								checkPattern(c, search(gram("A", map[string]*P{"A": b, "S": p})), docs, false)
								if c.itemViol {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"long-texts", "Search over texts of 0..3 and 4090..4100 bytes with the occurrence at every edge offset", func(c *Ctx) {
					for _, n := range []int{0, 1, 2, 3, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 4098, 4099, 4100, 8190, 8191, 8192, 8193} {
						n := n
						if !c.Item(func() {
							x := strings.Repeat("x", n)
							docs := []string{x, x + "k", x + "ab", x + "abk", x + "aab", x + "kab" + x}
							for _, p := range []*P{lit("k"), lit("ab"), set("ka"), seq(any(1), lit("b")), capt(lit("ab"), 1), capt(seq(set("kq"), any(2)), 1), not(any(1)), seq(lit("a"), not(lit("a")))} {
								checkPattern(c, search(p), docs, false)
							}
						}) {
							return
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C06",
		Assume: []string{"errors inside memoized patterns are excluded: a memo hit does not repeat the errors (see KNOWN_FINDINGS)"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"ops", fmt.Sprintf("all patterns of <=%d operators over {'a','b',any1,errors with and without a message that do not recover, an error recovering with 'b'} with error-wrapping, star, optional, not, and, capture; inputs <=%d", 6, pick(th, 3, 4)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(1), errp("", nil), errp("e0", nil), errp("", lit("b"))},
						unary:  []func(*P) *P{func(p *P) *P { return errp("w", p) }, star, opt, not, and, func(p *P) *P { return capt(p, 1) }},
						binary: bBasic}
					docs := strs("ab", pick(th, 3, 4))
					batch(c, a, 6, 64, func(p *P) bool { return p.has(oErr) }, func(p *P) { checkPattern(c, p, docs, true) })
				}},
				{"all-operators", fmt.Sprintf("all patterns with errors of <=%d operators over every operator of the library except memo; inputs <=4", pick(th, 5, 6)), func(c *Ctx) {
					docs := strs("ab", 4)
					batch(c, everything(true, false), pick(th, 5, 6), 64, func(p *P) bool { return p.has(oErr) }, func(p *P) { checkPattern(c, p, docs, true) })
				}},
				{"grammars", "all 2-rule grammars over {'a','b',error,S,A} with bodies of <=3 operators, and statement-list recovery grammars; inputs <=4", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), errp("x", nil), errp("y", nt("A")), nt("A"), nt("S")}, unary: []func(*P) *P{func(p *P) *P { return errp("w", p) }, star, opt}, binary: bBasic}
					docs := strs("ab", pick(th, 3, 4))
					grammars2(c, a, 3, 3, func(g *P) bool { return g.has(oErr) }, func(g *P) { checkPattern(c, g, docs, true) })
				}},
				{"recovery-lists", "lists of items separated by ';' where each malformed item is recovered by skipping to a synchronising set; all inputs over {a,b,;} of length <=6", func(c *Ctx) {
					sync := []*P{star(seq(not(lit(";")), any(1))), seq(star(set("b")), and(or(lit(";"), not(any(1))))), search(and(set(";"))), opt(any(1)), empty()}
					items := []*P{lit("a"), seq(lit("a"), opt(lit("b"))), capt(lit("a"), 1), seq(lit("a"), or(lit("b"), errp("b expected", empty())))}
					for _, sy := range sync {
						for _, it := range items {
							sy, it := sy, it
							if !c.Item(func() {
								docs := strs("ab;", pick(th, 5, 7))
								item := or(it, errp("item", sy))
								checkPattern(c, gram("L", map[string]*P{"L": seq(nt("I"), star(seq(lit(";"), nt("I")))), "I": item}), docs, true)
								checkPattern(c, gram("L", map[string]*P{"L": seq(nt("I"), star(seq(lit(";"), nt("I"))), or(not(any(1)), errp("end", nil))), "I": capt(item, 2)}), docs, true)
								checkPattern(c, seq(item, star(seq(lit(";"), item))), docs, true)
								checkPattern(c, star(seq(item, lit(";"))), docs, true)
							}) {
								return
							}
						}
					}
				}},
				{"many-errors", "programs with n distinct error nodes for n up to 300, and messages that coincide", func(c *Ctx) {
					for _, n := range []int{1, 2, 3, 10, 127, 128, 129, 255, 256, 257, 300} {
						n := n
						if !c.Item(func() {
							var k []*P
							for i := 0; i < n; i++ {
								k = append(k, or(lit("a"), errp(fmt.Sprintf("m%d", i%(n/2+1)), any(1))))
							}
							p := seq(k...)
							docs := []string{strings.Repeat("a", n), strings.Repeat("b", n), strings.Repeat("ab", n)[:n], strings.Repeat("a", n-1), strings.Repeat("b", n-1), strings.Repeat("a", n-1) + "b"}
							checkPattern(c, p, docs, true)
						}) {
							return
						}
					}
				}},
			}
		}})

	odd := func(b, rest string, id, flag int) int {
		if len(b)%2 == 1 {
			return 0
		}
		return -1
	}
	eat := func(b, rest string, id, flag int) int {
		if len(rest) > 0 && rest[0] == 'b' {
			return 1
		}
		return 0
	}
	idf := func(b, rest string, id, flag int) int {
		if (len(b)+id+flag)%3 == 0 {
			return -1
		}
		if len(rest) >= 2 && flag == 2 {
			return 2
		}
		return 0
	}
	cOdd, cEat, cIdf := &chkSpec{Kind: "odd", Fn: odd}, &chkSpec{Kind: "eat", Fn: eat}, &chkSpec{Kind: "idf", Fn: idf}
	cMap := &chkSpec{Kind: "map", Words: []string{"a", "ab", "bab", ""}}
	cRef := &chkSpec{Kind: "ref"}
	register(&Property{ID: "C07",
		Assume: []string{"checkers are not memoized"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"checkers", fmt.Sprintf("all patterns of <=%d operators over {'a','b','ab',any1,empty} with four checkers (parity, consuming, id/flag dependent, word map), star, optional, not, seq, or; the checker call log is compared too; inputs <=4", pick(th, 5, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(1), empty()},
						unary: []func(*P) *P{func(p *P) *P { return check(p, cOdd, 0, 0) }, func(p *P) *P { return check(p, cEat, 1, 0) }, func(p *P) *P { return check(p, cIdf, 3, 2) }, func(p *P) *P { return check(p, cIdf, -4, 5) }, func(p *P) *P { return check(p, cMap, 0, 0) },
							star, opt, not, func(p *P) *P { return capt(p, 1) }},
						binary: bBasic}
					docs := strs("ab", pick(th, 4, 4))
					batch(c, a, pick(th, 5, 5), 32, func(p *P) bool { return p.has(oCheck) }, func(p *P) { checkLogged(c, p, docs) })
				}},
				{"all-operators", fmt.Sprintf("all patterns with two kinds of checkers of <=%d operators over every operator of the library; the checker call log is compared too; inputs <=4", pick(th, 5, 6)), func(c *Ctx) {
					a := everything(true, true)
					a.unary = append(a.unary, func(p *P) *P { return check(p, cIdf, 3, 2) })
					docs := strs("ab", 4)
					batch(c, a, pick(th, 5, 6), 32, func(p *P) bool { return p.has(oCheck) && !hasMemoOver(p, func(q *P) bool { return q.Op == oCheck }) }, func(p *P) { checkLogged(c, p, docs) })
				}},
				{"back-references", fmt.Sprintf("all sequences of <=%d steps from {define i, use i, block, optional/repeated/alternative/predicated definitions and uses} over ids 0,1; inputs over {a,b} <=%d", pick(th, 4, 5), pick(th, 5, 6)), func(c *Ctx) {
					def := func(p *P, id int) *P { return check(p, cRef, id, 0) }
					use := func(id int) *P { return check(empty(), cRef, id, 1) }
					steps := []*P{def(lit("a"), 0), def(plus(lit("a")), 0), def(any(1), 1), use(0), use(1), lit("b"), opt(seq(def(any(1), 0), lit("b"))), star(seq(lit("b"), use(0))), or(seq(def(lit("b"), 0), lit("a")), def(any(1), 0)),
						not(use(0)), and(use(1)), check(lit("a"), cRef, 0, 2), capt(use(0), 1), def(use(0), 1), def(empty(), 0), check(lit("b"), cRef, 0, 1)}
					docs := strs("ab", pick(th, 4, 5))
					var rec func(k []*P, n int) bool
					rec = func(k []*P, n int) bool {
						if len(k) >= 2 {
							p := seq(append([]*P{}, k...)...)
							if !c.Item(func() { checkFresh(c, p, docs) }) {
								return false
							}
						}
						if n == 0 {
							return true
						}
						for _, s := range steps {
							if !rec(append(k[:len(k):len(k)], s), n-1) {
								return false
							}
						}
						return true
					}
					rec(nil, pick(th, 3, 4))
				}},
				{"several-references", fmt.Sprintf("all sequences of <=%d definitions and uses through two back-reference checkers with ids 0 and 1 in each, and two word maps with the same or different words; inputs over {a,b} <=%d", pick(th, 4, 5), pick(th, 4, 5)), func(c *Ctx) {
					r1, r2 := &chkSpec{Kind: "ref", Words: []string{"first"}}, &chkSpec{Kind: "ref", Words: []string{"second"}}
					m1, m2, m3 := &chkSpec{Kind: "map", Words: []string{"a", "b"}}, &chkSpec{Kind: "map", Words: []string{"b", "a"}}, &chkSpec{Kind: "map", Words: []string{"a"}}
					var steps []*P
					for _, r := range []*chkSpec{r1, r2} {
						steps = append(steps, check(any(1), r, 0, 0), check(empty(), r, 0, 1))
					}
					steps = append(steps, check(empty(), r1, 1, 1), check(plus(lit("b")), r2, 1, 0), opt(seq(check(lit("a"), r2, 0, 0), lit("b"))), check(any(1), m1, 0, 0), check(any(1), m2, 1, 1), check(any(1), m3, 0, 0), not(check(empty(), r2, 0, 1)))
					docs := strs("ab", pick(th, 4, 5))
					groups(c, &alphabet{leaves: steps}, 1, 1, func(first []*P) {
						var rec func(k []*P, n int) bool
						rec = func(k []*P, n int) bool {
							if len(k) >= 2 && !checkFresh(c, seq(append([]*P{}, k...)...), docs) {
								return false
							}
							if n == 0 {
								return true
							}
							for _, s := range steps {
								if !rec(append(k[:len(k):len(k)], s), n-1) {
									return false
								}
							}
							return true
						}
						rec(first, pick(th, 3, 4))
					})
				}},
				{"long-references", "back-references and checked matches of length 0..600 and around the 4096-byte window edge", func(c *Ctx) {
					lens := []int{}
					for i := 0; i <= 40; i++ {
						lens = append(lens, i)
					}
					lens = append(lens, 126, 127, 128, 129, 254, 255, 256, 257, 300, 512, 600, 2046, 2047, 2048, 2049, 4093, 4094, 4095, 4096, 4097, 4100)
					for _, n := range lens {
						n := n
						if !c.Item(func() {
							s := strings.Repeat("ab", n/2+1)[:n]
							docs := []string{s + "=" + s, s + "=" + s + "a", s + "=a" + s, s + "=" + strings.Repeat("ab", n), s + "="}
							if n > 0 {
								docs = append(docs, s+"="+s[:n-1], s+"="+s[:n-1]+"x")
							}
							w := &chkSpec{Kind: "map", Words: []string{s}}
							checkFresh(c, seq(check(star(set("ab")), cRef, 7, 0), lit("="), check(empty(), cRef, 7, 1), capt(star(any(1)), 1)), docs)
							checkFresh(c, seq(check(star(set("ab")), w, 0, 0), lit("="), check(star(set("ab")), w, 0, 0)), docs)
							checkLogged(c, seq(star(set("ab")), any(1), check(star(set("ab")), cEat, 1, 1)), docs)
						}) {
							return
						}
					}
				}},
				{"operands", "every checker id and flag in {-300..300, +-32767, -32768}", func(c *Ctx) {
					var vals []int
					for i := -300; i <= 300; i += 1 {
						if th || i%37 == 0 || (i >= -3 && i <= 3) || (i > 120 && i < 132) || (i > 250 && i < 260) || (i < -120 && i > -132) || (i < -250 && i > -260) {
							vals = append(vals, i)
						}
					}
					vals = append(vals, 32767, -32767, -32768, 4095, 4096)
					acc := &chkSpec{Kind: "acc", Fn: func(b, rest string, id, flag int) int { return 0 }}
					for _, id := range vals {
						id := id
						if !c.Item(func() {
							for _, fl := range vals {
								checkLogged(c, seq(check(lit("a"), acc, id, fl), check(opt(lit("b")), acc, fl, id)), []string{"a", "ab", "b"})
								if c.itemViol {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"many-checkers", "programs with n distinct checkers, n up to 300", func(c *Ctx) {
					for _, n := range []int{1, 2, 3, 127, 128, 129, 255, 256, 257, 300} {
						n := n
						if !c.Item(func() {
							var k []*P
							doc := ""
							for i := 0; i < n; i++ {
								w := fmt.Sprintf("%03d", i)
								k = append(k, check(any(3), &chkSpec{Kind: "map", Words: []string{w}}, 0, 0))
								doc += w
							}
							checkPattern(c, seq(k...), []string{doc, doc[3:] + "000", doc[:len(doc)-3] + "zzz"}, false)
						}) {
							return
						}
					}
				}},
			}
		}})

	ops := []syntax.EmptyOp{syntax.EmptyBeginLine, syntax.EmptyEndLine, syntax.EmptyBeginText, syntax.EmptyEndText, syntax.EmptyWordBoundary, syntax.EmptyNoWordBoundary}
	register(&Property{ID: "C08",
		Assume: []string{"each assertion names a single condition", "bytes are treated as single-byte characters"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"byte-pairs", "every assertion between every pair of bytes (and at both ends of the text)", func(c *Ctx) {
					for b1 := 0; b1 < 256; b1++ {
						b1 := b1
						if !c.Item(func() {
							var docs []string
							docs = append(docs, "", string([]byte{byte(b1)}))
							for b2 := 0; b2 < 256; b2++ {
								docs = append(docs, string([]byte{byte(b1), byte(b2)}))
							}
							for _, o := range ops {
								checkPattern(c, seq(any(1), assertp(o)), docs, false)
								checkPattern(c, seq(assertp(o), any(1)), docs, false)
								checkPattern(c, seq(any(2), assertp(o)), docs, false)
								checkPattern(c, assertp(o), docs, false)
							}
						}) {
							return
						}
					}
				}},
				{"ops", fmt.Sprintf("all patterns of <=%d operators over {'a',any1,newline,6 assertions} on inputs over {a,newline,space} of length <=3", pick(th, 6, 7)), func(c *Ctx) {
					lv := []*P{lit("a"), any(1), lit("\n")}
					for _, o := range ops {
						lv = append(lv, assertp(o))
					}
					a := &alphabet{leaves: lv, unary: []func(*P) *P{star, opt, not, and, search, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					docs := strs("a\n ", 3)
					batch(c, a, pick(th, 6, 7), 32, func(p *P) bool { return p.has(oAssert) }, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"all-operators", fmt.Sprintf("all patterns of <=%d operators over every operator of the library and the 6 assertions on inputs over {a,newline,space} of length <=3", pick(th, 5, 6)), func(c *Ctx) {
					a := everything(true, true)
					a.leaves = []*P{lit("a"), any(1), lit("\n"), set("a "), empty()}
					for _, o := range ops {
						a.leaves = append(a.leaves, assertp(o))
					}
					docs := strs("a\n ", 3)
					batch(c, a, pick(th, 5, 6), 32, func(p *P) bool { return p.has(oAssert) }, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"chunk-edges", "every assertion and its negation at every position 4090..4102 and 8188..8196, for every pair of character classes there, after forward scanning, any-n jumps, look-ahead beyond the edge and backtracking over the edge; documents ending there or going on", func(c *Ctx) {
					for _, base := range []int{4096, 8192} {
						for d := -3; d <= 3; d++ {
							for _, o := range ops {
								n := base + d
								o := o
								if !c.Item(func() {
									var docs []string
									for _, p1 := range []string{"a", "\n", " "} {
										for _, p2 := range []string{"", "a", "\n", " "} {
											pre := strings.Repeat("x", n-1) + p1 + p2
											docs = append(docs, pre)
											if p2 != "" {
												docs = append(docs, pre+"zz", pre+strings.Repeat("z", 4100))
											}
										}
									}
									skip := jump(n)
									for _, p := range []*P{seq(skip, assertp(o)), seq(skip, not(assertp(o))), seq(and(seq(jump(n+1))), skip, assertp(o)), seq(opt(seq(jump(n+2), lit("q"))), skip, assertp(o)), seq(jump(n-1), any(1), assertp(o), star(any(1))), seq(jump(n-1), or(seq(any(1), assertp(o), lit("zz")), seq(any(1), assertp(o)))),
										seq(jump(n), and(star(any(1))), assertp(o)), seq(star(set("x")), opt(set("a\n ")), assertp(o)), search(seq(set("a\n "), assertp(o)))} {
										checkPattern(c, p, docs, false)
										if c.itemViol {
											return
										}
									}
								}) {
									return
								}
							}
						}
					}
				}},
			}
		}})
}

// jump matches exactly n bytes.
func jump(n int) *P {
	var k []*P
	for n > 255 {
		k = append(k, any(255))
		n -= 255
	}
	k = append(k, any(n))
	return seq(k...)
}

func (p *P) mentions(name string) bool {
	if p.Op == oNT && p.S == name {
		return true
	}
	for _, k := range p.Kids {
		if k.mentions(name) {
			return true
		}
	}
	return false
}

// rename returns p with non-terminal references a replaced by b.
func (p *P) rename(a, b string) *P {
	q := *p
	if p.Op == oNT && p.S == a {
		q.S = b
	}
	q.Kids = nil
	for _, k := range p.Kids {
		q.Kids = append(q.Kids, k.rename(a, b))
	}
	return &q
}

// checkLogged is checkPattern with comparison of the checker call log.
func checkLogged(c *Ctx, p *P, docs []string) bool {
	var log []chkCall
	b := &builder{log: &log}
	var code vm.Code
	var err error
	if !c.Guard(func() string { return "compiling " + p.String() }, func() { code, err = compileB(b, p) }) {
		return false
	}
	if err != nil {
		c.Violate("", "pattern: %s\ncompilation failed: %v", p, err)
		return false
	}
	for _, d := range docs {
		r := ref(p, d)
		if r.undef != "" {
			c.Skip(1)
			continue
		}
		d := d
		good := c.Guard(func() string { return fmt.Sprintf("pattern: %s\ninput: %q", p, clip(d)) }, func() {
			log = nil
			x := run(&code, d, memo.NoneTable{})
			c.States(1)
			c.Traces(1)
			c.Trans(r.steps)
			c.Outcome(r.String())
			if e := diff(r, x, false); e != "" {
				c.Violate("", "pattern: %s\ninput: %q\n%s", p, clip(d), e)
				return
			}
			if fmt.Sprint(log) != fmt.Sprint(r.calls) {
				c.Violate("", "pattern: %s\ninput: %q\nchecker calls {matched text, position, id, flag}: expected %v, got %v", p, clip(d), r.calls, log)
			}
		})
		if !good || c.itemViol {
			return false
		}
	}
	c.Sample(func() string { return fmt.Sprintf("%s on %q", p, clip(docs[len(docs)-1])) })
	return true
}

// checkFresh compiles the pattern anew for every input.
func checkFresh(c *Ctx, p *P, docs []string) bool {
	for _, d := range docs {
		if !checkPattern(c, p, []string{d}, true) {
			return false
		}
	}
	return true
}
