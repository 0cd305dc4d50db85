package main

import (
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

func pick(th bool, q, t int) int {
	if th {
		return t
	}
	return q
}

// batch runs fn on every pattern of the alphabet up to n, grouping patterns
// into items of a fixed size.
func batch(c *Ctx, a *alphabet, n int, size int, filter func(*P) bool, fn func(*P)) {
	buf := make([]*P, 0, size)
	cont := true
	flush := func() {
		ps := buf
		buf = make([]*P, 0, size)
		cont = c.Item(func() {
			for _, p := range ps {
				fn(p)
				if c.itemViol {
					return
				}
			}
		})
	}
	a.upTo(n, func(p *P) bool {
		if filter != nil && !filter(p) {
			return true
		}
		buf = append(buf, p)
		if len(buf) == size {
			flush()
		}
		return cont
	})
	if cont && len(buf) > 0 {
		flush()
	}
}

var uBasic = []func(*P) *P{star, plus, opt, not, and}
var bBasic = []func(a, b *P) *P{binSeq, binOr}

func init() {
	register(&Property{ID: "C01",
		Assume: []string{"repetition bodies that match empty are excluded (detected by the reference interpreter at run time)"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"ops-small", fmt.Sprintf("all patterns of <=%d operators over {'a','b',[ab],any1,any2,empty} with star plus optional not and seq or, on all inputs over {a,b} of length <=4", pick(th, 6, 7)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), set("ab"), any(1), any(2), empty()}, unary: uBasic, binary: bBasic}
					docs := strs("ab", 4)
					batch(c, a, pick(th, 6, 7), 64, nil, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"all-operators", fmt.Sprintf("all patterns of <=%d operators over every operator of the library (all of the above, and-predicates, repeat, captures, search, memo, check nodes, errors with and without recovery, assertions, recursive and non-recursive grammars), on all inputs over {a,b} of length <=4", pick(th, 5, 6)), func(c *Ctx) {
					docs := strs("ab", 4)
					batch(c, everything(true, true), pick(th, 5, 6), 64, nil, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"ops-long-literals", fmt.Sprintf("all patterns of <=%d operators over {'ab','abc','',[ac],[^a],any3,any0,repeat} on all inputs over {a,b,c} of length <=4", pick(th, 5, 6)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("ab"), lit("abc"), lit(""), set("ac"), nset("a"), any(3), any(0), set("")},
						unary:  append([]func(*P) *P{func(p *P) *P { return repeat(p, 2) }, func(p *P) *P { return repeat(p, 0) }}, uBasic...),
						binary: bBasic}
					docs := strs("abc", 4)
					batch(c, a, pick(th, 5, 6), 32, nil, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"three-way", fmt.Sprintf("n-ary sequences and choices: all 3- and 4-element Concat/Or of patterns of <=%d operators", pick(th, 2, 2)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("ab"), set("b"), any(2)}, unary: uBasic, binary: bBasic}
					var el []*P
					a.upTo(2, func(p *P) bool { el = append(el, p); return true })
					docs := strs("ab", 4)
					for _, x := range el {
						for _, y := range el {
							x, y := x, y
							if !c.Item(func() {
								for _, z := range el {
									checkPattern(c, seq(x, y, z), docs, false)
									checkPattern(c, or(x, y, z), docs, false)
									checkPattern(c, or(seq(x, y), z, y), docs, false)
									checkPattern(c, seq(or(x, y, z), lit("b")), docs, false)
									if th {
										checkPattern(c, seq(or(x, y), or(y, z)), docs, false)
										checkPattern(c, or(seq(x, z), seq(x, y), seq(z, x)), docs, false)
										checkPattern(c, seq(not(seq(x, y)), or(z, seq(and(x), y))), docs, false)
									}
									if c.itemViol {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"bytes", "every byte value as operand and as input byte, through each instruction form (literal, set, complement, optional, star, not, choice, any)", func(c *Ctx) {
					var docs []string
					docs = append(docs, "")
					for b := 0; b < 256; b++ {
						docs = append(docs, string([]byte{byte(b)}))
					}
					for b := 0; b < 256; b++ {
						s := string([]byte{byte(b)})
						s2 := string([]byte{byte(b + 1)})
						if !c.Item(func() {
							for _, p := range []*P{lit(s), set(s), nset(s), opt(lit(s)), opt(set(s + s2)), star(lit(s)), star(set(s + s2)), plus(set(s)), not(lit(s)),
								not(set(s + s2)), seq(not(lit(s)), any(1)), seq(not(set(s)), set(s2+"z")), seq(not(lit(s)), lit(s)), or(lit(s), lit(s2)), or(lit(s), lit("zz"), lit(s2+"z"), empty()),
								or(set(s), seq(lit(s2), lit("y"))), or(seq(lit(s), lit("q")), set(s+s2)), and(lit(s)), search(lit(s)), search(set(s + s2)), search(nset(s)), or(seq(set(s+s2), lit("x")), lit(s))} {
								checkPattern(c, p, docs, false)
							}
						}) {
							return
						}
					}
				}},
				{"chunk-edges", "all patterns of <=3 operators placed after a prefix that puts their match at every offset -4..+2 around the 4096-byte window edge, with every 3-byte tail", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("ab"), set("b"), any(1), any(2), any(3)}, unary: uBasic, binary: bBasic}
					tails := strs("ab", 3)
					batch(c, a, 3, 8, nil, func(p *P) {
						for _, off := range []int{4092, 4093, 4094, 4095, 4096, 4097} {
							var docs []string
							for _, t := range tails {
								if th || len(t) >= 2 || off%4 == 0 {
									docs = append(docs, strings.Repeat("x", off)+t)
								}
							}
							checkPattern(c, seq(star(set("x")), p), docs, false)
							if c.itemViol {
								return
							}
						}
					})
				}},
			}
		}})

	register(&Property{ID: "C02",
		Assume: []string{"captures inside succeeding and-predicates are kept (as in LPeg, which gpeg follows)"},
		Spaces: func(th bool) []Space {
			caps := []func(*P) *P{func(p *P) *P { return capt(p, 1) }, func(p *P) *P { return capt(p, 2) }}
			return []Space{
				{"ops", fmt.Sprintf("all patterns of <=%d operators with captures over {'a','b','ab',any1,empty}, all inputs over {a,b} of length <=4", pick(th, 7, 8)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(1), empty()}, unary: append(caps[:1:1], uBasic...), binary: bBasic}
					docs := strs("ab", 4)
					batch(c, a, pick(th, 7, 8), 64, func(p *P) bool { return p.has(oCap) }, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"all-operators", fmt.Sprintf("all capturing patterns of <=%d operators over every operator of the library (captures around and inside repeat, search, memo, check nodes, error recovery, predicates, recursive and non-recursive grammars), on all inputs over {a,b} of length <=4", pick(th, 5, 6)), func(c *Ctx) {
					docs := strs("ab", 4)
					batch(c, everything(true, true), pick(th, 5, 6), 64, func(p *P) bool { return p.has(oCap) }, func(p *P) { checkPattern(c, p, docs, false) })
				}},
				{"multi-capture", "all sequences and choices of up to 4 captured or plain items, each possibly repeated, optional or predicated, nested in a capture; all inputs <=5", func(c *Ctx) {
					items := []*P{capt(lit("a"), 1), capt(lit("b"), 2), lit("a"), star(capt(lit("a"), 3)), opt(capt(lit("b"), 4)), and(capt(any(1), 5)), not(capt(lit("b"), 6)),
						capt(star(capt(any(1), 7)), 8), capt(and(lit("a")), 9), capt(empty(), 10), plus(or(capt(lit("a"), 11), capt(lit("b"), 12))), star(seq(capt(lit("a"), 13), capt(lit("b"), 14)))}
					docs := strs("ab", pick(th, 6, 7))
					for _, x := range items {
						for _, y := range items {
							x, y := x, y
							if !c.Item(func() {
								for _, z := range items {
									for _, p := range []*P{seq(x, y, z), or(seq(x, y), seq(x, z)), capt(seq(x, y, z), 20), or(capt(seq(x, y, lit("b")), 21), capt(seq(x, z), 22)),
										star(seq(any(1), or(seq(x, y, any(1)), z))), seq(capt(seq(x, y), 23), z), seq(opt(seq(x, y)), capt(z, 24)), seq(not(seq(x, y)), z), seq(and(seq(x, y)), z)} {
										checkPattern(c, p, docs, false)
										if c.itemViol {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"grammars", fmt.Sprintf("all 2-rule grammars with captures, rule bodies of <=%d operators; all inputs <=4", pick(th, 4, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{func(p *P) *P { return capt(p, 1) }, star, opt, and}, binary: bBasic}
					docs := strs("ab", 4)
					grammars2(c, a, pick(th, 4, 5), 3, func(g *P) bool { return g.has(oCap) }, func(g *P) { checkPattern(c, g, docs, false) })
				}},
				{"full-captures", "captures of every fixed length 0..300 (optimised single-instruction, late and begin/end forms), with fixed prefix before a variable part", func(c *Ctx) {
					for n := 0; n <= 300; n++ {
						n := n
						if !c.Item(func() {
							s := strings.Repeat("ab", 150)[:n]
							docs := []string{s, s + "a", "x" + s, s + "cc", s[:len(s)/2]}
							for _, p := range []*P{capt(lit(s), 1), capt(seq(lit(s), star(lit("c"))), 2), capt(seq(repeatAny(n), opt(lit("a"))), 3), seq(any(1), capt(lit(s), 4)),
								capt(repeatAny(n), 5), capt(repeat(set("abx"), n), 6), seq(lit(s), capt(star(any(1)), 7))} {
								checkPattern(c, p, docs, false)
							}
						}) {
							return
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C04",
		Assume: []string{"left-recursive grammars and repetitions of empty matches are excluded"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"routes", fmt.Sprintf("all patterns of <=%d operators x {optimised, unoptimised, compiled twice from one value, inlining thresholds 0/100}", pick(th, 5, 6)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), lit("ab"), set("ab"), any(1), any(2), empty()}, unary: append([]func(*P) *P{func(p *P) *P { return capt(p, 1) }}, uBasic...), binary: bBasic}
					docs := strs("ab", 4)
					batch(c, a, pick(th, 5, 6), 32, nil, func(p *P) { routes(c, p, docs) })
				}},
				{"all-operators", fmt.Sprintf("all patterns of <=%d operators over every operator of the library x routes", pick(th, 4, 5)), func(c *Ctx) {
					docs := strs("ab", 4)
					batch(c, everything(true, true), pick(th, 4, 5), 32, nil, func(p *P) { routes(c, p, docs) })
				}},
				{"one-value-per-shape", fmt.Sprintf("all patterns of <=%d operators over {'a','b','abc',[ab],any1,empty} in groups of 64 in which equal sub-patterns are one and the same value, within and across patterns, compiled in order and again in reverse order before any is run; likewise every operator, <=%d operators", pick(th, 5, 6), pick(th, 3, 4)), func(c *Ctx) {
					docs := append(strs("ab", 3), "abc", "abca", "abcb", "abcabc", "aabc")
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), lit("abc"), set("ab"), any(1), empty()}, unary: []func(*P) *P{func(p *P) *P { return capt(p, 1) }, star, opt, not, and}, binary: bBasic}
					groups(c, a, pick(th, 5, 6), 64, func(ps []*P) { checkShared(c, ps, docs) })
					groups(c, everything(true, false), pick(th, 3, 4), 64, func(ps []*P) { checkShared(c, ps, docs) })
				}},
				{"reused-values", "one pattern value (literals of 0..9 bytes, sets, dots, choices, repetitions, predicates, captures, errors, searches, recursive and non-recursive grammars, non-terminals) used two or three times in a pattern, with every pair of continuations before or after it, in 14 shapes", func(c *Ctx) {
					var shared []*P
					for n := 0; n <= 9; n++ {
						shared = append(shared, lit("abababababab"[:n]))
					}
					shared = append(shared, set("ab"), any(1), any(2), or(lit("ab"), lit("a")), seq(lit("a"), set("ab")), star(lit("a")), star(lit("ab")), plus(lit("ab")), opt(lit("ab")), opt(lit("a")), not(lit("ab")), and(lit("ab")),
						capt(lit("ab"), 1), capt(star(lit("a")), 1), repeat(lit("ab"), 2), errp("e", lit("a")), search(lit("b")), search(lit("ab")), gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S")), lit("b"))}), gram("S", map[string]*P{"S": seq(nt("A"), opt(nt("A"))), "A": lit("ab")}), nt("A"), nt("R"))
					rest := []*P{lit("a"), lit("b"), lit("ab"), set("ab"), any(1), star(lit("b")), opt(lit("a")), not(lit("a")), capt(lit("a"), 2), capt(any(1), 3), or(lit("ba"), lit("a")), nt("A"), nt("R"), seq(lit("b"), nt("R"))}
					docs := append(strs("ab", pick(th, 5, 6)), "abababa", "abababab", "ababababa", "abababababa", "ababababababab", "abababbababab")
					for _, l := range shared {
						for _, x := range rest {
							l, x := l, x
							if !c.Item(func() {
								var ps []*P
								for _, y := range rest {
									for _, p := range []*P{or(seq(l, x), seq(l, y)), or(seq(x, l), seq(y, l)), seq(opt(seq(l, x)), l, y), seq(not(seq(l, x)), l, y), or(seq(capt(l, 7), x), seq(l, y)), or(seq(capt(l, 7), x), seq(capt(l, 7), y)), or(seq(l, x), seq(l, y), l),
										seq(l, or(seq(l, x), seq(l, y))), seq(or(x, seq(l, y)), l), or(seq(l, l, x), seq(l, l, y)), seq(and(seq(l, x)), opt(seq(l, y)), l), or(search(seq(l, x)), seq(l, y)), seq(or(l, x), or(l, y)), star(or(seq(l, x, lit("a")), seq(lit("b"), y)))} {
										ps = append(ps, gram("Top", map[string]*P{"Top": p, "A": lit("ab"), "R": or(seq(lit("a"), nt("R"), lit("b")), lit("ab"), seq(x, lit("a")))}))
										if !p.mentions("A") && !p.mentions("R") {
											ps = append(ps, p)
										}
									}
								}
								checkShared(c, ps, docs)
							}) {
								return
							}
						}
					}
				}},
				{"one-value-per-shape-grammars", fmt.Sprintf("all 2-rule grammars with rule bodies of <=%d and <=%d operators over {'a','b','abc',S,A}, in groups with the same start rule and equal sub-patterns as one value", pick(th, 4, 5), pick(th, 2, 2)), func(c *Ctx) {
					docs := append(strs("ab", 3), "abc", "abca", "abcabc")
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), lit("abc"), nt("A"), nt("S")}, unary: []func(*P) *P{star, not, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					var as []*P
					a.upTo(2, func(p *P) bool { as = append(as, p); return true })
					a.upTo(pick(th, 4, 5), func(s *P) bool {
						if !s.mentions("A") && !s.mentions("S") {
							return true
						}
						return c.Item(func() {
							var gs []*P
							for _, b := range as {
								gs = append(gs, gram("S", map[string]*P{"S": s, "A": b}))
							}
							checkShared(c, gs, docs)
						})
					})
				}},
				{"simplifier", "the shapes the simplifier rewrites (choice/sequence with empty, not-class-then-one, optional star, class unions) over all class-like operands, nested in every unary operator", func(c *Ctx) {
					atoms := []*P{lit("a"), lit("b"), set("a"), set("ab"), set("bc"), nset("a"), set(""), any(1), any(2), lit("ab"), lit(""), empty(), not(lit("a")), not(set("ab")), not(lit("ab")), not(not(lit("a"))), star(lit("a")), opt(lit("b")),
						capt(lit("a"), 1), capt(set("b"), 2), errp("e", lit("a")), errp("f", nil), and(set("ab"))}
					wrap := []func(*P) *P{func(p *P) *P { return p }, star, plus, opt, not, and, func(p *P) *P { return capt(p, 9) }, func(p *P) *P { return seq(p, lit("b")) }, func(p *P) *P { return or(seq(p, lit("c")), lit("a")) }, func(p *P) *P { return search(p) }}
					docs := strs("abc", 3)
					for _, x := range atoms {
						for _, y := range atoms {
							x, y := x, y
							if !c.Item(func() {
								for _, w := range wrap {
									routes(c, w(seq(x, y)), docs)
									routes(c, w(or(x, y)), docs)
									for _, z := range atoms {
										if th || z.Op == oSet || z.Op == oEmpty || z.Op == oNot {
											checkPattern(c, w(seq(x, y, z)), docs, true)
											checkPattern(c, w(or(x, y, z)), docs, true)
											checkPattern(c, w(seq(x, seq(y, z))), docs, true)
											checkPattern(c, w(or(x, seq(y, z))), docs, true)
											checkPattern(c, w(seq(or(x, y), z)), docs, true)
										}
										if c.itemViol {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"grammar-routes", fmt.Sprintf("all 2-rule grammars with rule bodies of <=%d and <=%d operators x routes", pick(th, 3, 4), pick(th, 3, 3)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{star, opt, not, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					docs := strs("ab", 3)
					grammars2(c, a, pick(th, 3, 4), 3, nil, func(g *P) { routes(c, g, docs) })
				}},
				{"sharing", "pairs of grammars that share rule, non-terminal or sub-pattern values, compiled in every order, each compared with a grammar built from private values", func(c *Ctx) {
					sharing(c, th)
				}},
			}
		}})
}

// groups runs fn on all patterns of the alphabet up to n in groups.
func groups(c *Ctx, a *alphabet, n int, size int, fn func([]*P)) {
	var buf []*P
	cont := true
	flush := func() {
		ps := buf
		buf = nil
		cont = c.Item(func() { fn(ps) })
	}
	a.upTo(n, func(p *P) bool {
		if buf = append(buf, p); len(buf) == size {
			flush()
		}
		return cont
	})
	if cont && len(buf) > 0 {
		flush()
	}
}

// checkShared compiles patterns built from shared values in order and again in
// reverse order, then compares all of them with the reference.
func checkShared(c *Ctx, ps []*P, docs []string) {
	refs := make([][]mres, len(ps))
	var runs []int
	for i, p := range ps {
		refs[i] = make([]mres, len(docs))
		any := false
		for j, d := range docs {
			refs[i][j] = ref(p, d)
			any = any || refs[i][j].undef == ""
		}
		if any {
			runs = append(runs, i)
		} else {
			c.Skip(len(docs))
		}
	}
	b := &builder{cons: map[string]pattern.Pattern{}}
	vals := make([]pattern.Pattern, len(ps))
	first, second := make([]vm.Code, len(ps)), make([]vm.Code, len(ps))
	for _, i := range runs {
		vals[i] = b.build(ps[i])
	}
	compile := func(i int, to []vm.Code) bool {
		return c.Guard(func() string {
			return fmt.Sprintf("compiling %s, which shares values with the patterns from %s", ps[i], ps[0])
		}, func() {
			prog, err := pattern.Compile(vals[i])
			if err != nil {
				c.Violate("", "compiling %s, which shares values with the patterns from %s: %v", ps[i], ps[0], err)
				return
			}
			to[i] = vm.Encode(prog)
		}) && !c.itemViol
	}
	for _, i := range runs {
		if !compile(i, first) {
			return
		}
	}
	for k := range runs {
		if !compile(runs[len(runs)-1-k], second) {
			return
		}
	}
	for _, i := range runs {
		if !checkCode(c, ps[i], &first[i], docs, refs[i], true, fmt.Sprintf(" [equal sub-patterns are one value, also in the patterns from %s, compiled in order]", ps[0])) ||
			!checkCode(c, ps[i], &second[i], docs, refs[i], true, fmt.Sprintf(" [equal sub-patterns are one value, also in the patterns from %s, compiled again in reverse order]", ps[0])) {
			return
		}
	}
}

// repeatAny matches exactly n bytes using any-instructions of at most 255.
func repeatAny(n int) *P {
	if n <= 255 {
		return any(n)
	}
	var ks []*P
	for ; n > 255; n -= 255 {
		ks = append(ks, any(255))
	}
	return seq(append(ks, any(n))...)
}

// grammars2 enumerates two-rule grammars S, A with bodies of at most n (S) and
// m (A) operators.
func grammars2(c *Ctx, a *alphabet, n, m int, filter func(*P) bool, fn func(*P)) {
	var as []*P
	a.upTo(m, func(p *P) bool { as = append(as, p); return true })
	a.upTo(n, func(s *P) bool {
		return c.Item(func() {
			for _, b := range as {
				g := gram("S", map[string]*P{"S": s, "A": b})
				if filter != nil && !filter(g) {
					continue
				}
				fn(g)
				if c.itemViol {
					return
				}
			}
		})
	})
}

// routes compares all ways of compiling one pattern value.
func routes(c *Ctx, p *P, docs []string) {
	refs := make([]mres, len(docs))
	any := false
	for i, d := range docs {
		refs[i] = ref(p, d)
		any = any || refs[i].undef == ""
	}
	if !any {
		c.Skip(len(docs))
		return
	}
	type route struct {
		name string
		code vm.Code
	}
	var rs []route
	ok := c.Guard(func() string { return "compiling " + p.String() }, func() {
		add := func(name string, th int, opt bool, patt pattern.Pattern) {
			old := pattern.InlineThreshold
			pattern.InlineThreshold = th
			defer func() { pattern.InlineThreshold = old }()
			var code vm.Code
			if opt {
				prog, err := pattern.Compile(patt)
				if err != nil {
					c.Violate("", "pattern: %s (%s)\ncompilation failed: %v", p, name, err)
					return
				}
				code = vm.Encode(prog)
			} else {
				prog, err := patt.Compile()
				if err != nil {
					c.Violate("", "pattern: %s (%s)\ncompilation failed: %v", p, name, err)
					return
				}
				code = vm.Encode(prog)
			}
			rs = append(rs, route{name, code})
		}
		q := p.build()
		add(" [optimised]", 100, true, q)
		add(" [optimised, second compilation of the same value]", 100, true, q)
		add(" [unoptimised]", 100, false, p.build())
		if p.has(oGram) {
			add(" [inline threshold 0]", 0, true, p.build())
			add(" [inline threshold 3]", 3, true, p.build())
			q2 := p.build()
			add(" [inline threshold 0, same value later recompiled with 100]", 0, true, q2)
			add(" [inline threshold 100 after 0]", 100, true, q2)
			add(" [unoptimised, inline threshold 0]", 0, false, p.build())
		}
	})
	if !ok || c.itemViol {
		return
	}
	for i := range rs {
		if !checkCode(c, p, &rs[i].code, docs, refs, true, rs[i].name) {
			return
		}
	}
}

// sharing explores grammars that share pattern values.
func sharing(c *Ctx, th bool) {
	docs := strs("ab", 4)
	bodiesA := []*P{lit("a"), lit("b"), seq(lit("a"), nt("B")), or(seq(lit("a"), nt("A")), lit("b")), opt(lit("b")), capt(lit("a"), 3)}
	bodiesB := []*P{lit("b"), lit("a"), opt(lit("a")), seq(lit("b"), opt(nt("A")))}
	tops := []*P{nt("A"), seq(nt("A"), nt("B")), or(seq(nt("A"), lit("a")), nt("B")), star(seq(lit("a"), nt("B"))), seq(opt(lit("a")), nt("A")), capt(seq(nt("A"), opt(nt("B"))), 1)}
	for _, top := range tops {
		for _, a1 := range bodiesA {
			top, a1 := top, a1
			if !c.Item(func() {
				for _, a2 := range bodiesA {
					for _, b1 := range bodiesB {
						for _, b2 := range bodiesB {
							// Two grammars using the same value for the start rule
							// but different definitions of A and B.
							g1 := gram("S", map[string]*P{"S": top, "A": a1, "B": b1})
							g2 := gram("S", map[string]*P{"S": top, "A": a2, "B": b2})
							for _, thr := range []int{100, 0} {
								b := &builder{share: map[*P]pattern.Pattern{}}
								q1 := b.build(g1)
								q2 := b.build(g2)
								// also a pattern using both grammars and one recompiled
								order := []struct {
									spec *P
									patt pattern.Pattern
								}{{g1, q1}, {g2, q2}, {g1, q1}, {or(seq(g1, lit("b")), g2), pattern.Or(pattern.Concat(q1, pattern.Literal("b")), q2)}}
								var codes []vm.Code
								pattern.InlineThreshold = thr
								ok := c.Guard(func() string { return fmt.Sprintf("compiling %s then %s with shared values", g1, g2) }, func() {
									for _, o := range order {
										prog, err := pattern.Compile(o.patt)
										if err != nil {
											c.Violate("", "compiling %s with shared values: %v", o.spec, err)
											return
										}
										codes = append(codes, vm.Encode(prog))
									}
								})
								pattern.InlineThreshold = 100
								if !ok || c.itemViol {
									return
								}
								for i, o := range order {
									refs := make([]mres, len(docs))
									for j, d := range docs {
										refs[j] = ref(o.spec, d)
									}
									if !checkCode(c, o.spec, &codes[i], docs, refs, true, fmt.Sprintf(" [values shared between the grammars; compiled as number %d; threshold %d; first grammar %s]", i+1, thr, g1)) {
										return
									}
								}
							}
						}
					}
				}
			}) {
				return
			}
		}
	}
}
