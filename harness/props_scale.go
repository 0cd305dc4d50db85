package main

import (
	"fmt"
	"io"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/memo"
)

// Spaces at and around sizes where counters, widths of numbers and growing
// buffers change: positions, lengths, depths, counts and long histories.

func brief(s string) string {
	if len(s) > 2400 {
		return s[:1200] + fmt.Sprintf("...(%d characters)...", len(s)-2400) + s[len(s)-1200:]
	}
	return s
}

// edges are sizes around the powers of two.
func edges(th bool) []int {
	out := []int{126, 127, 128, 129, 254, 255, 256, 257, 32766, 32767, 32768, 32769, 65534, 65535, 65536, 65537}
	if th {
		out = append(out, 510, 511, 512, 513, 1023, 1024, 1025, 8191, 8192, 8193, 16383, 16384, 131071, 131072, 262144, 1<<20-1, 1<<20+1)
	}
	return out
}

func xs(n int) string { return strings.Repeat("x", n) }

// far runs patterns of at most ops operators behind n bytes, for every edge n.
func far(c *Ctx, th bool, a *alphabet, ops int, tails []string, filter func(*P) bool, errs bool, wrap func(n int, p *P) *P) {
	for _, n := range edges(th) {
		n := n
		docs := make([]string, len(tails))
		for i, t := range tails {
			docs[i] = xs(n) + t
		}
		batch(c, a, ops, 16, filter, func(p *P) { checkPattern(c, wrap(n, p), docs, errs) })
		if c.stopped {
			return
		}
	}
}

func behind(n int, p *P) *P { return seq(repeatAny(n), p) }

func init() {
	tails := []string{"", "a", "b", "ab", "bab", "abb"}
	extend("C01", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("all patterns of <=%d operators over every operator of the library behind a jump or a span of n bytes, n around 128, 256, 32768 and 65536 (up to 2^20 in thorough)", pick(th, 2, 3)), func(c *Ctx) {
				far(c, th, everything(true, true), pick(th, 2, 3), tails, nil, false, behind)
				far(c, th, everything(true, true), 1, tails[2:], nil, false, func(n int, p *P) *P { return seq(star(set("x")), p) })
			}},
			{"long-matches", "matches of n bytes, n around the powers of two, by every kind of repetition, followed by backtracking over all of it", func(c *Ctx) {
				for _, n := range edges(th) {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							reps := []*P{star(set("x")), star(lit("x")), plus(set("x")), star(seq(any(1), not(lit("b")))), star(or(lit("xxx"), lit("x"))), search(lit("a")), star(seq(not(lit("a")), any(1))), repeatAny(n), lit(xs(n))}
							for _, r := range reps {
								for _, p := range []*P{seq(r, lit("a")), or(seq(r, lit("b")), seq(lit("x"), r)), seq(and(r), any(1)), seq(not(seq(r, lit("b"))), r), star(or(seq(r, lit("b")), any(1))), opt(seq(r, any(3)))} {
									if n > 40000 && p.Op == oStar {
										continue // quadratic
									}
									if n > 300 && p.Op == oStar && !th {
										continue
									}
									if !checkPattern(c, p, []string{xs(n) + "a", xs(n), xs(n) + "ab", xs(n-1) + "a"}, false) {
										return
									}
								}
							}
						})
					}) {
						return
					}
				}
			}},
			{"deep-backtracking", "n pending alternatives, optional parts or predicates, n up to 40000, that succeed or fail at the end", func(c *Ctx) {
				for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 1000, 1023, 1024, 1025, 4095, 4096, 4097, pick(th, 10000, 40000)} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							for _, body := range []*P{or(seq(lit("a"), nt("S"), lit("b")), lit("a"), empty()), or(seq(set("ab"), nt("S")), lit("c")), seq(opt(seq(any(1), nt("S"))), opt(lit("b"))), or(seq(and(lit("a")), any(1), nt("S")), seq(not(lit("a")), any(1))),
								capt(or(seq(lit("a"), nt("S"), capt(lit("b"), 2)), capt(lit("a"), 3)), 1)} {
								p := gram("S", map[string]*P{"S": body})
								a := strings.Repeat("a", n)
								if !checkPattern(c, p, []string{a, a + strings.Repeat("b", n), a + strings.Repeat("b", n-1), a + "c", a + "b"}, false) {
									return
								}
							}
							// n levels of pending choices in the pattern itself
							if n <= 300 {
								for _, w := range []func(p *P) *P{func(p *P) *P { return or(seq(lit("a"), p), lit("a")) }, func(p *P) *P { return opt(seq(lit("a"), p)) }, func(p *P) *P { return seq(and(any(1)), lit("a"), p) }, func(p *P) *P { return not(not(seq(lit("a"), p))) }, func(p *P) *P { return capt(seq(lit("a"), p), 4) }, func(p *P) *P { return star(seq(lit("a"), p)) }} {
									p := lit("b")
									for i := 0; i < min(n, 129); i++ {
										p = w(p)
									}
									a := strings.Repeat("a", min(n, 129))
									if !checkPattern(c, p, []string{a, a + "b", a[1:] + "b", a + "a"}, false) {
										return
									}
								}
							}
						})
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C02", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("all capturing patterns of <=%d operators over every operator of the library, captured once more with everything before them, behind n bytes, n around 128, 256, 32768 and 65536", pick(th, 2, 3)), func(c *Ctx) {
				far(c, th, everything(true, true), pick(th, 2, 3), tails, func(p *P) bool { return p.has(oCap) }, false, func(n int, p *P) *P { return capt(seq(repeatAny(n), capt(empty(), 5), p), 4) })
			}},
			{"ids", fmt.Sprintf("every pattern of <=%d operators whose captures have ids around the ends of the 16-bit range and around 0, 128 and 256", pick(th, 4, 5)), func(c *Ctx) {
				docs := strs("ab", pick(th, 3, 4))
				for _, ids := range [][2]int{{-1, 0}, {-32768, 32767}, {255, 256}, {-128, 127}, {-129, 128}, {-255, -256}, {32767, -32768}, {0, -1}} {
					a := &alphabet{leaves: []*P{lit("a"), any(1), set("ab"), lit("ba"), empty()},
						unary: []func(*P) *P{func(p *P) *P { return capt(p, ids[0]) }, func(p *P) *P { return capt(p, ids[1]) }, opt, plus, and, memoP}, binary: bBasic}
					for n := 1; n <= pick(th, 4, 5); n++ {
						batch(c, a, n, 256, func(p *P) bool { return p.has(oCap) }, func(p *P) { checkPattern(c, p, docs, false) })
					}
				}
			}},
			{"many-captures", "n captures side by side, in pairs, and inside one another, n up to 70000", func(c *Ctx) {
				for _, n := range []int{1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, pick(th, 20000, 70000)} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							d := strings.Repeat("ab", n/2+1)[:n]
							for _, p := range []*P{star(capt(any(1), 1)), capt(star(or(capt(lit("a"), 1), capt(lit("b"), 2))), 3), star(capt(seq(capt(lit("a"), 1), opt(capt(lit("b"), 2))), 3)),
								capt(plus(seq(and(capt(any(1), 1)), capt(plus(lit("a")), 2), opt(lit("b")))), 9),
								gram("S", map[string]*P{"S": capt(or(seq(any(1), nt("S")), empty()), 1)}),
								gram("S", map[string]*P{"S": or(seq(capt(any(1), 1), nt("S")), capt(empty(), 2))}),
								gram("S", map[string]*P{"S": opt(seq(capt(lit("a"), 1), opt(capt(lit("b"), 2)), nt("S")))}),
							} {
								if n > 5000 && p.Op == oGram {
									continue // captures are copied at every level
								}
								if !checkPattern(c, p, []string{d, d + "c", d + "a"}, false) {
									return
								}
							}
						})
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C03", func(th bool) []Space {
		return []Space{
			{"deeper-recursion", "recursion (tail, middle, mutual, in predicates and captures) to depths around 256, 4096, 32768 and 65536", func(c *Ctx) {
				for _, n := range []int{255, 256, 257, 1023, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							for _, g := range []*P{
								gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S")), lit("b"))}),
								gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S"), lit("b")), empty())}),
								gram("S", map[string]*P{"S": or(seq(lit("a"), nt("A")), lit("b")), "A": or(seq(lit("a"), nt("S"), lit("b")), nt("S"))}),
								gram("S", map[string]*P{"S": seq(nt("A"), opt(nt("S"))), "A": set("ab")}),
								gram("S", map[string]*P{"S": or(seq(lit("a"), and(nt("A")), nt("S"), set("b")), lit("b")), "A": set("ab")}),
								gram("S", map[string]*P{"S": capt(or(seq(lit("a"), nt("S"), lit("b")), lit("b")), 1)}),
							} {
								a, b := strings.Repeat("a", n), strings.Repeat("b", n)
								if !checkPattern(c, g, []string{a + "b", a + b, a, a + b + "b", a + b[1:]}, false) {
									return
								}
							}
						})
					}) {
						return
					}
				}
			}},
			{"many-rules", "grammars of n rules, n up to 600, that call each other in a chain, in a tree, or backwards, and all from the start rule", func(c *Ctx) {
				for _, n := range []int{1, 2, 3, 5, 9, 17, 33, 64, 65, 127, 128, 129, 255, 256, 257, 300, pick(th, 301, 600)} {
					for kind := 0; kind < 5; kind++ {
						n, kind := n, kind
						if !c.Item(func() {
							name := func(i int) string {
								if i == 0 {
									return "S"
								}
								return fmt.Sprintf("R%d", i)
							}
							defs := map[string]*P{}
							for i := 0; i < n; i++ {
								item := lit(string([]byte{"ab"[i%2]}))
								if i%5 == 0 {
									item = opt(set("ab"))
								}
								var b *P
								switch kind {
								case 0:
									b = item
									if i+1 < n {
										b = seq(item, nt(name(i+1)))
									}
								case 1:
									b = item
									if 2*i+2 < n {
										b = seq(nt(name(2*i+1)), opt(nt(name(2*i+2))))
									}
								case 2:
									b = or(seq(item, set("ab"), nt(name((i+n-1)%n))), item)
								case 3:
									b = item
									if i == 0 {
										var k []*P
										for j := 1; j < n; j++ {
											k = append(k, nt(name(j)))
										}
										b = seq(append(k, lit("b"))...)
									}
								case 4:
									b = seq(item, not(lit("c")))
									if i == 0 {
										var k []*P
										for j := 1; j < n; j++ {
											k = append(k, seq(nt(name(j)), nt(name((j*7)%(n-1)+1))))
										}
										b = star(or(append(k, any(1))...))
									}
								}
								defs[name(i)] = b
							}
							ab := strings.Repeat("ab", n)
							withSteps(1<<22, func() {
								checkPattern(c, gram("S", defs), []string{ab, ab[1:], ab[:n], ab[1 : n+1], ab + "b", "", "b", strings.Repeat("b", n)}, false)
							})
						}) {
							return
						}
					}
				}
			}},
		}
	})

	extend("C05", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("Search for all patterns of <=%d operators over every operator of the library, whose first occurrence is behind n bytes, n around 128, 256, 32768 and 65536; captured, and searched again after it", pick(th, 2, 3)), func(c *Ctx) {
				withSteps(1<<24, func() {
					far(c, th, everything(false, true), pick(th, 2, 3), []string{"", "a", "bab", "aab"}, nil, false, func(n int, p *P) *P { return search(capt(p, 7)) })
					far(c, false, everything(false, true), 1, []string{"b", "ab", "ba" + xs(260) + "ab"}, nil, false, func(n int, p *P) *P { return seq(search(p), capt(search(p), 7)) })
				})
			}},
		}
	})

	extend("C06", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("all patterns with errors of <=%d operators over every operator of the library except memo, behind n bytes, n around 128, 256, 32768 and 65536", pick(th, 2, 3)), func(c *Ctx) {
				far(c, th, everything(true, false), pick(th, 2, 3), tails, func(p *P) bool { return p.has(oErr) }, true, behind)
			}},
			{"long-lists", "n errors reported by one parse, n up to 70000, all at one place, each at its own, and with backtracking", func(c *Ctx) {
				for _, n := range []int{1, 2, 3, 4, 5, 8, 9, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 999, 1000, 1001, 1023, 1024, 1025, 4096, 10001, pick(th, 20000, 70000)} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							b := strings.Repeat("b", n)
							for _, p := range []*P{star(or(lit("a"), errp("m", lit("b")))), star(seq(and(errp("m", empty())), any(1))), gram("S", map[string]*P{"S": or(seq(errp("in", lit("b")), nt("S"), lit("c")), empty())}),
								star(or(seq(errp("x", lit("b")), lit("c")), errp("y", any(1)))), seq(star(errp("m", lit("b"))), errp("end", nil))} {
								if !checkPattern(c, p, []string{b, b + "c", b + "a" + b}, true) {
									return
								}
							}
						})
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C07", func(th bool) []Space {
		return []Space{
			{"far", "all patterns of <=2 operators with checkers behind n bytes, checked together with what is before them, n around 128, 256, 32768 and 65536; the calls are compared, too", func(c *Ctx) {
				for _, n := range edges(th) {
					n := n
					batch(c, everything(false, false), 2, 16, func(p *P) bool { return p.has(oCheck) }, func(p *P) {
						checkLogged(c, seq(repeatAny(n), p), []string{xs(n) + "ab", xs(n) + "bb", xs(n) + "aab", xs(n)})
						if !c.itemViol {
							checkLogged(c, check(seq(repeatAny(n), p), even, n%30000, 4), []string{xs(n) + "ab", xs(n) + "bbb"})
						}
					})
					if c.stopped {
						return
					}
				}
			}},
			{"longer-references", "back-references to texts of n bytes, n around 32768 and 65536, and n references in one parse", func(c *Ctx) {
				for _, n := range edges(th) {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							s := strings.Repeat("abbab", n/5+1)[:n]
							r := &chkSpec{Kind: "ref"}
							docs := []string{s + "=" + s, s + "=" + s + "a", s + "=" + s[:n-1], s + "=" + s[:n-1] + "c", s + "=c" + s[1:]}
							if checkFresh(c, seq(check(star(set("ab")), r, 7, 0), lit("="), check(empty(), r, 7, 1), capt(star(any(1)), 1)), docs) {
								m := min(n, 5000)
								d := strings.Repeat("ab=ab;", m)
								checkFresh(c, star(seq(check(plus(set("ab")), r, 1, 0), lit("="), capt(check(empty(), r, 1, 1), 2), lit(";"))), []string{d, d + "a=b;", d + "b=b;"})
							}
						})
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C08", func(th bool) []Space {
		asserts := []*P{assertp(syntax.EmptyBeginLine), assertp(syntax.EmptyEndLine), assertp(syntax.EmptyBeginText), assertp(syntax.EmptyEndText), assertp(syntax.EmptyWordBoundary), assertp(syntax.EmptyNoWordBoundary)}
		return []Space{
			{"far", "all patterns of <=2 operators with the 6 assertions behind n bytes, n around 128, 256, 32768 and 65536", func(c *Ctx) {
				a := &alphabet{leaves: append([]*P{lit("a"), lit("\n"), any(1)}, asserts...), unary: uBasic, binary: bBasic}
				far(c, th, a, pick(th, 2, 3), []string{"", "a", "\n", "\na", "a\n", " a", "\n\n"}, func(p *P) bool { return p.has(oAssert) }, false, behind)
				far(c, th, a, 1, []string{"", "a", "\n", "\na", "a\n"}, func(p *P) bool { return p.has(oAssert) }, false, func(n int, p *P) *P {
					return seq(repeatAny(n-1), lit("x"), not(any(3)), p)
				})
			}},
		}
	})

	extend("C09", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("all patterns with memo of <=%d operators over every operator of the library except errors and checkers, behind n bytes and memoized together with them, n around 128, 256, 32768 and 65536; three parses", pick(th, 2, 3)), func(c *Ctx) {
				for _, n := range edges(th) {
					n := n
					batch(c, pure(), pick(th, 2, 3), 16, func(p *P) bool { return p.has(oMemo) }, func(p *P) {
						docs := []string{xs(n) + "ab", xs(n) + "bab", xs(n) + "aa", xs(n)}
						if memoOnce(c, seq(repeatAny(n), p), docs, []int{0}) {
							memoOnce(c, or(seq(memoP(seq(repeatAny(n), p)), lit("b")), capt(memoP(seq(repeatAny(n), p)), 3)), docs, []int{0, n})
						}
					})
					if c.stopped {
						return
					}
				}
			}},
			{"many-results", "n memoized results in one parse, n up to 5000, side by side, nested, and tried again by later alternatives; three parses", func(c *Ctx) {
				for _, n := range []int{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1025, pick(th, 2000, 5000)} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							m := memoP(capt(seq(lit("a"), opt(lit("b"))), 1))
							d := strings.Repeat("aba", n/3+1)[:n]
							for _, p := range []*P{star(or(seq(m, lit("c")), m, any(1))), gram("S", map[string]*P{"S": memoP(capt(or(seq(any(1), nt("S")), empty()), 1))}), star(memoP(or(capt(lit("ab"), 1), capt(lit("a"), 2)))),
								capt(plus(seq(and(m), m)), 4)} {
								if !memoOnce(c, p, []string{d, d + "c", d + "b"}, []int{0, 2}) {
									return
								}
							}
						})
					}) {
						return
					}
				}
			}},
		}
	})

	tok := func() *P { return star(memoP(capt(or(plus(set("x")), lit("ab"), any(1)), 1))) }
	extend("C10", func(th bool) []Space {
		return []Space{
			{"far", "memoizing grammars on documents of n bytes and a few tokens, n around 128, 256, 4096, 32768 and 65536: every single edit of the first 2 and the last 5 bytes, and pairs of them; insertion and removal of n bytes", func(c *Ctx) {
				for _, n := range append([]int{4093, 4094, 4095, 4096, 4097, 8191}, edges(th)...) {
					grams := []*P{tok(),
						seq(memoP(capt(seq(plus(set("x")), and(lit("a"))), 1)), star(memoP(capt(any(1), 2)))),
						or(memoP(seq(repeatAny(n), lit("aa"))), memoP(seq(repeatAny(n), capt(any(1), 1), any(1))), star(memoP(capt(or(plus(set("x")), any(1)), 2)))),
						seq(repeatAny(2), star(memoP(capt(or(lit("xxx"), seq(any(1), opt(lit("b")))), 1)))),
						star(or(memoP(seq(lit("x"), not(lit("a")), opt(lit("b")))), memoP(capt(any(1), 2)))),
					}
					for gi, g := range grams {
						if gi >= 3 && n > 5000 {
							continue
						}
						n, g := n, g
						if !c.Item(func() {
							withSteps(1<<22, func() {
								code, ok := compileShared(c, g)
								if !ok {
									return
								}
								cache := newCache(g)
								d := xs(n) + "abaab"
								ed := func(l int, deep bool) []edit {
									var out []edit
									for _, s := range []int{0, 1, l - 5, l - 4, l - 3, l - 2, l - 1, l} {
										for w := 0; w <= 2 && s+w <= l; w++ {
											for _, i := range []string{"", "a", "xb"} {
												if w > 0 || i != "" {
													out = append(out, edit{s: s, e: s + w, ins: i})
												}
											}
										}
									}
									if deep {
										out = append(out, edit{s: 0, e: n - 1}, edit{s: 1, e: 1, ins: xs(n)}, edit{s: l - 3, e: l - 3, ins: xs(n)}, edit{s: 0, e: l, ins: "ab" + d}, edit{s: 2, e: l - 2}, edit{s: l, e: l, ins: d})
									}
									return out
								}
								for i, e1 := range ed(len(d), true) {
									if !history(c, g, &code, d, []edit{e1}, 0, cache) {
										return
									}
									if !th && (n > 5000 || gi >= 3) && i%5 != 0 || n > 70000 && i%20 != 0 {
										continue
									}
									l2 := len(e1.apply(d))
									for j, e2 := range ed(l2, false) {
										if e2.s < 0 || !th && (i+j)%3 != 0 {
											continue
										}
										e1.skip = (i+j)&1 == 0
										if !history(c, g, &code, d, []edit{e1, e2}, 0, cache) {
											return
										}
									}
								}
							})
						}) {
							return
						}
					}
				}
			}},
			{"long-histories", "histories of up to 300 edits from every pair of kinds (insertions and removals at the front, in the middle, at the end, of one or several bytes, replacements), without a parse between, with one after every 7 or 64, or after each; checked at 40 lengths", func(c *Ctx) {
				type step func(i int, d string) edit
				at := func(pos func(i, n int) int, del int, ins string) step {
					return func(i int, d string) edit {
						s := min(max(pos(i, len(d)), 0), len(d))
						e := min(s+del, len(d))
						return edit{s: s, e: e, ins: ins}
					}
				}
				front := func(i, n int) int { return 0 }
				mid := func(i, n int) int { return n / 2 }
				end := func(i, n int) int { return n }
				lastb := func(i, n int) int { return n - 2 }
				walk := func(i, n int) int { return i * 3 % (n + 1) }
				steps := []step{at(front, 0, "a"), at(mid, 0, "ab"), at(end, 0, "b"), at(front, 1, ""), at(mid, 1, ""), at(lastb, 2, "xx"), at(walk, 1, "b"), at(walk, 0, "x"), at(mid, 3, "xa"), at(walk, 2, "")}
				look := star(or(memoP(capt(seq(lit("a"), and(seq(star(lit("b")), lit("x")))), 1)), memoP(capt(any(1), 2))))
				nested := star(memoP(seq(memoP(capt(any(1), 1)), opt(memoP(capt(lit("b"), 2))))))
				lens := []int{1, 2, 3, 5, 8, 15, 16, 17, 24, 31, 32, 33, 48, 49, 50, 51, 60, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300}
				for gi, g := range []*P{tok(), look, nested, tokensG()} {
					for a := range steps {
						for b := range steps {
							gi, g, a, b := gi, g, a, b
							if !th && gi == 3 && (a+b)%3 != 0 {
								continue
							}
							if !c.Item(func() {
								code, ok := compileShared(c, g)
								if !ok {
									return
								}
								cache := newCache(g)
								start := strings.Repeat("abxa", 8)
								for _, every := range []int{0, 7, 64, 1} {
									for _, n := range lens {
										if every == 1 && n != 300 || every > n {
											continue
										}
										d := start
										var es []edit
										for i := 0; i < n; i++ {
											f := steps[a]
											if i%2 == 1 {
												f = steps[b]
											}
											e := f(i, d)
											if len(d) > 200 && len(e.ins) > 0 {
												e = edit{s: 0, e: 60}
											}
											d = e.apply(d)
											e.skip = every == 0 || i%every != every-1
											es = append(es, e)
										}
										if !history(c, g, &code, start, es, 0, cache) {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})

	extend("C11", func(th bool) []Space {
		return []Space{
			{"many-items", "repetitions of n memoized items, n up to 3000: two parses, and every single insertion, removal and replacement at 12 places, followed by each of three more", func(c *Ctx) {
				for _, n := range []int{40, 41, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, pick(th, 1025, 3000)} {
					for k, p := range []*P{star(memoP(capt(any(1), 1))), plus(memoP(capt(seq(lit("a"), opt(lit("b"))), 1))), seq(capt(star(memoP(or(capt(lit("ab"), 1), capt(lit("a"), 2)))), 3), star(any(1))), star(memoP(seq(capt(lit("a"), 1), opt(capt(lit("b"), 2)), not(lit("c"))))),
						gram("S", map[string]*P{"S": or(seq(memoP(capt(lit("a"), 1)), nt("S")), star(memoP(capt(any(1), 2))))})} {
						n, k, p := n, k, p
						if !c.Item(func() {
							withSteps(1<<22, func() {
								d := strings.Repeat("aba", n/3+1)[:n]
								if k == 4 {
									d = strings.Repeat("a", n/2) + strings.Repeat("ab", n/4)
								}
								if !memoOnce(c, p, []string{d}, []int{0, 2}) {
									return
								}
								code, ok := compileShared(c, p)
								if !ok {
									return
								}
								cache := newCache(p)
								places := func(l int) []int {
									return []int{0, 1, 2, l / 4, l/2 - 1, l / 2, l/2 + 1, l - 3, l - 2, l - 1, 30, 33}
								}
								for i, s := range places(len(d)) {
									for j, e := range []edit{{s: s, e: s, ins: "a"}, {s: s, e: s + 1}, {s: s, e: s + 1, ins: "b"}, {s: s, e: min(s+9, len(d))}} {
										if !history(c, p, &code, d, []edit{e}, 0, cache) {
											return
										}
										l2 := len(e.apply(d))
										for m, s2 := range places(l2) {
											if !th && (m+i+j)%4 != 0 || s2 >= l2 {
												continue
											}
											e.skip = (i+j)%2 == 0
											for _, e2 := range []edit{{s: s2, e: s2, ins: "ab"}, {s: s2, e: s2 + 1}} {
												if !history(c, p, &code, d, []edit{e, e2}, 0, cache) {
													return
												}
											}
										}
									}
								}
							})
						}) {
							return
						}
					}
				}
			}},
		}
	})

	extend("C13", func(th bool) []Space {
		bases := []int{250, 32765, 65533, 1<<31 - 3, 1<<32 - 3, 1 << 40}
		return []Space{
			{"large-positions", "every sequence of 4 operations with positions, lengths and shifts around 2^8, 2^15, 2^16, 2^31, 2^32 and 2^40", func(c *Ctx) {
				for _, base := range bases {
					pts := []int{0, 1, base, base + 2, base + 5}
					var alpha []iop
					for _, l := range []int{0, base, base + 2} {
						for _, n := range []int{1, 4, base} {
							alpha = append(alpha, iop{kind: 'a', id: n % 2, low: l, high: l + n})
						}
					}
					for _, l := range []int{0, 1, base - 1, base + 1, 2*base + 1} {
						for _, w := range []int{1, base} {
							for _, a := range []int{-base, -1, 1, base, 1 << 33} {
								if a >= -w {
									alpha = append(alpha, iop{kind: 'r', low: l, high: l + w, amt: a})
								}
							}
						}
					}
					alpha = append(alpha, iop{kind: 'f', id: 0, low: base}, iop{kind: 'p'})
					for k := range imapKinds {
						for _, o := range alpha[:9] {
							for _, o2 := range alpha {
								k, o, o2 := k, o, o2
								if !c.Item(func() {
									n := 0
									for _, o3 := range alpha {
										for _, o4 := range alpha {
											if !th && (o4.kind == 'r') == (o3.kind == 'r') && (n&1) == 0 {
												n++
												continue
											}
											n++
											if !runOpsAt(c, k, []iop{o, o2, o3, o4}, n&3, 1, 0, pts) {
												return
											}
										}
									}
								}) {
									return
								}
							}
						}
					}
				}
			}},
			{"sparse", fmt.Sprintf("maps of 3..%d values with gaps between them (4 spacings and length profiles, 2 ids, 7 insertion orders): every pair of a removal of any range, shifting what follows onto its start, and a narrow shift at any position, without a lookup in between", pick(th, 12, 15)), func(c *Ctx) {
				type prof struct{ gap, mod, ids int }
				for _, n := range []int{3, 5, 7, pick(th, 10, 9), 12, pick(th, 12, 15)} {
					for pi, pf := range []prof{{3, 1, 1}, {4, 3, 1}, {4, 2, 2}, {5, 4, 2}} {
						for oi, ord := range orders(n) {
							if !th && n > 7 && (pi+oi)%3 != 0 {
								continue
							}
							for k := range imapKinds {
								var pre []iop
								for _, i := range ord {
									pre = append(pre, iop{kind: 'a', id: i % pf.ids, low: pf.gap * i, high: pf.gap*i + 1 + i%pf.mod})
								}
								k, n, pre, pf := k, n, pre[:len(pre):len(pre)], pf
								end := pf.gap * n
								step := 1
								if n > 7 {
									step = pick(th, 3, 2)
								}
								for l1 := 0; l1 <= end; l1++ {
									l1 := l1
									if !c.Item(func() {
										cnt := 0
										for h1 := l1 + 1; h1 <= end+2; h1 += step {
											for l2 := 0; l2 <= end; l2 += step {
												for _, a := range []int{-1, 2} {
													cnt++
													ops := append(pre, iop{kind: 'r', low: l1, high: h1, amt: l1 - h1}, iop{kind: 'r', low: l2, high: l2 + 1, amt: a})
													if !runOps(c, k, ops, cnt&3, pf.ids-1, end+3) {
														return
													}
												}
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}
			}},
			{"long-histories", "histories of n operations, n up to 300, from every pair of kinds (additions at the front, in the middle, growing and shrinking, removals and shifts in front, behind and in the middle, lookups, handle positions), checked at 36 lengths", func(c *Ctx) {
				type gen func(i int) iop
				gens := []gen{
					func(i int) iop { return iop{kind: 'a', id: 0, low: 2 * i, high: 2*i + 1} },
					func(i int) iop { return iop{kind: 'a', id: i & 1, low: 0, high: 1 + i%9} },
					func(i int) iop { return iop{kind: 'a', id: 0, low: (i * 7) % 61, high: (i*7)%61 + 1 + i%4*5} },
					func(i int) iop { return iop{kind: 'r', low: 0, high: 1, amt: 1} },
					func(i int) iop { return iop{kind: 'r', low: 0, high: 1, amt: -1} },
					func(i int) iop { return iop{kind: 'r', low: 30 + i%3, high: 31 + i%3, amt: 2} },
					func(i int) iop { return iop{kind: 'r', low: (i * 5) % 47, high: (i*5)%47 + 2, amt: -1 - i%2} },
					func(i int) iop { return iop{kind: 'r', low: 1000, high: 1001, amt: 1} },
					func(i int) iop { return iop{kind: 'r', low: i % 90, high: i%90 + 1, amt: 0} },
					func(i int) iop { return iop{kind: 'f', id: 0, low: (i * 3) % 80} },
					func(i int) iop { return iop{kind: 'p'} },
				}
				lens := []int{5, 8, 15, 16, 17, 24, 31, 32, 33, 48, 49, 50, 51, 60, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300}
				for k := range imapKinds {
					for a := range gens {
						for b := range gens {
							for pre := 0; pre < 3; pre++ {
								k, a, b, pre := k, a, b, pre
								if !c.Item(func() {
									for _, n := range lens {
										var ops []iop
										for i := 0; i < pre*9; i++ {
											ops = append(ops, iop{kind: 'a', id: i & 1, low: (i * 11) % 70, high: (i*11)%70 + 1 + i%3})
										}
										for i := 0; i < n; i++ {
											if i%3 == 1 {
												ops = append(ops, gens[b](i))
											} else {
												ops = append(ops, gens[a](i))
											}
										}
										if !runOps(c, k, ops, n&3, 1, 120) {
											return
										}
									}
								}) {
									return
								}
							}
						}
					}
				}
			}},
		}
	})

	extend("C14", func(th bool) []Space {
		ed := func(s, e, n int) top { return top{kind: 'e', ed: memo.Edit{Start: s, End: e, Len: n}} }
		return []Space{
			{"large-positions", "every sequence of 3 operations on tables whose results have positions, lengths and examined lengths around 2^8, 2^15, 2^16, 2^31 and 2^40", func(c *Ctx) {
				for _, base := range []int{250, 32765, 65533, 1<<31 - 3, 1 << 40} {
					var puts, edits []top
					for _, s := range []int{0, 1, base, base + 3} {
						for _, l := range []int{-1, 1, 2, base} {
							for _, x := range []int{1, base, base + 2} {
								puts = append(puts, top{kind: 'p', id: (s + l) & 1, start: s, length: l, exam: x, caps: (l + 3) % 4 % 3})
							}
						}
					}
					for _, s := range []int{0, 1, base - 1, base, base + 2, 2*base + 1} {
						edits = append(edits, ed(s, s, 1), ed(s, s+1, 0), ed(s, s+base, 1), ed(s, s, base), ed(s, s+1, 1<<33))
					}
					for _, thr := range []int{0, base} {
						for i, p1 := range puts {
							thr, i, p1 := thr, i, p1
							if !c.Item(func() {
								n := 0
								for j, p2 := range puts {
									if !th && (i+j)%3 != 0 {
										continue
									}
									for _, e1 := range edits {
										n++
										if !runTableAt(c, thr, []top{p1, p2, e1}, n&3, 0, []int{0, 1, base, base + 1, base + 4}) {
											return
										}
										if th || n%5 == 0 {
											for _, e2 := range edits {
												if !runTableAt(c, thr, []top{p1, e1, p2, e2}, n&3, 0, []int{0, 1, base, base + 1, base + 4}) {
													return
												}
											}
										}
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
			{"long-histories", "tables of 0, 12 and 40 results: histories of n operations, n up to 300, from every pair of kinds (puts and edits of several sorts, lookups), checked at 33 lengths", func(c *Ctx) {
				type gen func(i int) top
				gens := []gen{
					func(i int) top { return top{kind: 'p', id: 0, start: 2 * i, length: 1, exam: 2, caps: 1} },
					func(i int) top {
						return top{kind: 'p', id: i & 1, start: (i * 7) % 61, length: 1 + i%4, exam: 1 + i%9, caps: 2}
					},
					func(i int) top { return top{kind: 'p', id: 0, start: 3, length: 1 + i%5, exam: 1 + i%7, caps: 1} },
					func(i int) top { return ed(0, 0, 1) },
					func(i int) top { return ed(0, 1, 0) },
					func(i int) top { return ed(30+i%3, 31+i%3, 3) },
					func(i int) top { return ed((i*5)%47, (i*5)%47+2, i%3) },
					func(i int) top { return ed(1000, 1000, 1) },
					func(i int) top { return ed(i%90, i%90+1, 1) },
					func(i int) top { return top{kind: 'g', id: 0, start: (i * 3) % 80} },
				}
				lens := []int{5, 8, 15, 16, 17, 24, 31, 32, 33, 48, 49, 50, 51, 60, 63, 64, 65, 66, 99, 100, 101, 126, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300}
				for a := range gens {
					for b := range gens {
						for _, pre := range []int{0, 12, 40} {
							a, b, pre := a, b, pre
							if !c.Item(func() {
								for _, n := range lens {
									var ops []top
									for i := 0; i < pre; i++ {
										ops = append(ops, top{kind: 'p', id: i & 1, start: (i * 11) % 70, length: 1 + i%3, exam: 1 + i%5, caps: 1 + i%2})
									}
									for i := 0; i < n; i++ {
										if i%3 == 1 {
											ops = append(ops, gens[b](i))
										} else {
											ops = append(ops, gens[a](i))
										}
									}
									if !runTable(c, n%2*2, ops, n&3, 120) {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})

	extend("C15", func(th bool) []Space {
		return []Space{
			{"large", "nodes with up to 70000 children, real, grouping or alternating, grouping nodes nested to depth 3000, ids from -32768 to 32767 and starts up to 2^40", func(c *Ctx) {
				for _, n := range []int{127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 32768, 65535, 65536, 65537, 70000} {
					for kind := 0; kind < 4; kind++ {
						n, kind := n, kind
						if !c.Item(func() {
							var kids, want []*memo.Capture
							for i := 0; i < n; i++ {
								k := memo.NewCaptureNode(i%65536-32768, i<<24, i%7, nil)
								want = append(want, k)
								switch {
								case kind == 0 || kind == 2 && i%2 == 0:
									kids = append(kids, k)
								case kind == 3 && i%3 != 0:
									d := kids[len(kids)-1]
									kids[len(kids)-1] = memo.NewCaptureDummy(d.Start(), d.Len(), []*memo.Capture{d, k})
								default:
									kids = append(kids, memo.NewCaptureDummy(i, 1, []*memo.Capture{k}))
								}
							}
							if !navNode(c, memo.NewCaptureNode(1, 0, n, kids), want, fmt.Sprintf("%d children, kind %d", n, kind)) {
								return
							}
							for i, k := range want {
								if k.Id() != i%65536-32768 || k.Start() != i<<24 || k.Len() != i%7 || k.End() != i<<24+i%7 {
									c.Violate("", "node made with id %d, start %d, length %d says id %d, start %d, length %d, end %d", i%65536-32768, i<<24, i%7, k.Id(), k.Start(), k.Len(), k.End())
									return
								}
							}
							if n > 3000 {
								return
							}
							node := memo.NewCaptureDummy(0, n, want)
							for i := 0; i < n; i++ {
								node = memo.NewCaptureDummy(0, n, []*memo.Capture{node})
							}
							navNode(c, node, want, fmt.Sprintf("%d children below %d grouping nodes", n, n))
						}) {
							return
						}
					}
				}
			}},
		}
	})

	extend("C16", func(th bool) []Space {
		return []Space{
			{"large", "documents of 65535..65537, 131072 and 1000000 bytes: every pair of operations out of seeks, advances of up to 65537 bytes, peeks, look-backs and slices at the edges of 4096, 32768, 65536 and the end, 5 kinds of reader", func(c *Ctx) {
				for _, n := range []int{65535, 65536, 65537, 131072, 1000000} {
					var pos []int
					for _, e := range []int{4096, 32768, 65536, 131072, n} {
						for d := -1; d <= 1; d++ {
							if e+d >= 0 && e+d <= n+1 {
								pos = append(pos, e+d)
							}
						}
					}
					adv := []int{1, 255, 256, 4095, 4096, 4097, 32767, 32768, 65535, 65536, 65537}
					for k := range readerKinds {
						if k == 4 && n > 200000 {
							continue
						}
						for _, p := range pos {
							n, k, p := n, k, p
							if !c.Item(func() {
								b := docBytes(n)
								r := readerKinds[k].mk(b)
								for _, q := range pos {
									for _, a := range adv {
										ops := []inop{{kind: 's', n: p}, {kind: 'p'}, {kind: 'a', n: a}, {kind: 's', n: q}, {kind: 'b'}, {kind: 'p'}, {kind: 'a', n: a}, {kind: 's', n: p}, {kind: 'l', n: min(p, q), m: max(p, q)}, {kind: 'b'}, {kind: 'p'}}
										_, bad := runInput(c, r, b, ops)
										c.States(1)
										c.Trans(len(ops))
										c.Traces(1)
										if bad != "" {
											c.Violate("", "document of %d bytes, reader %q, operations %v: %s", n, readerKinds[k].name, ops, bad)
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})

	extend("C17", func(th bool) []Space {
		return []Space{
			{"larger", "streams of 32768, 65536 and 1000000 bytes and one more or less, delivered in steps of 100, 4096, 4097, 32768, 65537 bytes and at once; every pair of reads at the edges", func(c *Ctx) {
				for _, n := range []int{32767, 32768, 32769, 65535, 65536, 65537, 999999, 1000000} {
					for _, st := range []int{100, 4096, 4097, 32768, 65537, n} {
						n, st := n, st
						if !c.Item(func() {
							b := docBytes(n)
							var steps []sstep
							for l := n; l > 0; l -= st {
								steps = append(steps, sstep{min(l, st), nil})
							}
							var reads [][2]int
							for _, o := range []int{0, 1, 4095, 4096, 32767, 32768, 65535, 65536, n - 1, n, n + 1} {
								for _, l := range []int{1, 4096, 65537, n} {
									reads = append(reads, [2]int{o, l})
								}
							}
							for i, x := range reads {
								for j, y := range reads {
									if !th && n > 100000 && (i+j)%5 != 0 {
										continue
									}
									if !checkReads(c, b, steps, io.EOF, [][2]int{x, y}) {
										return
									}
								}
							}
						}) {
							return
						}
					}
				}
			}},
		}
	})

	big := strings.Repeat("Zy\nXw", 30000)
	extend("C18", func(th bool) []Space {
		return []Space{
			{"large", "ropes of 65536..200000 bytes with leaves of 1000, 4096, 65536, 100000 and 200000 bytes: every pair of insertions, removals, splits and joins at the edges; and ropes of 3000 and 66000 small leaves", func(c *Ctx) {
				type cfg struct{ n, split, join int }
				for _, g := range []cfg{{65535, 4096, 2048}, {65537, 4096, 2048}, {131072, 65536, 1}, {200000, 100000, 40000}, {140000, 200000, 100000}, {70000, 1000, 500}, {3000, 1, 0}, {9000, 3, 2}, {66000, 1, 0}} {
					text := strings.Repeat(string(docBytes(1000)), g.n/1000+1)[:g.n]
					var ops []ropeOp
					for _, p := range []int{0, 1, 4096, 32768, g.n / 3, g.n / 2, 65535, 65536, g.n - 1, g.n} {
						if p > g.n || g.n == 66000 && p != 1 && p != 65536 {
							continue
						}
						ops = append(ops, ropeOp{kind: 'i', a: p, val: "q"}, ropeOp{kind: 'i', a: p, val: big[:66000]}, ropeOp{kind: 's', a: p})
						for _, w := range []int{1, 5000, 65537, g.n - p} {
							if w > 0 && p+w <= g.n {
								ops = append(ops, ropeOp{kind: 'd', a: p, b: p + w})
							}
						}
					}
					for _, o := range ops {
						g, o := g, o
						if !c.Item(func() {
							st := ropeStart{ropeOpts(g.split, g.join, "\n"), text, 0}
							ts := applyModel([]string{text}, o)
							l := len(ts[0])
							seqs := [][]ropeOp{{o}, {o, {kind: 'b'}}, {o, {kind: 'l'}}}
							for _, p := range []int{0, l / 2, l} {
								seqs = append(seqs, []ropeOp{o, {kind: 'i', a: p, val: "rs"}}, []ropeOp{o, {kind: 's', a: p}})
								if p < l {
									seqs = append(seqs, []ropeOp{o, {kind: 'd', a: p, b: p + 1}}, []ropeOp{o, {kind: 'd', a: p, b: l}})
								}
							}
							if o.kind == 's' {
								seqs = append(seqs, []ropeOp{o, {kind: 'j', r: 0, a: 1}})
							}
							for _, s := range seqs {
								if !runRope(c, st, s, true, false) {
									return
								}
							}
						}) {
							return
						}
					}
				}
			}},
			{"long-histories", "histories of n operations, n up to 300, from every pair of kinds (insertions and removals at the front, middle, end and walking positions, split-and-join, rebuild, rebalance), 4 leaf-size settings, checked at 20 lengths", func(c *Ctx) {
				ropeHistories(c, th, "\n", "abcdefgh", "XY", true, false)
			}},
		}
	})

	extend("C19", func(th bool) []Space {
		return []Space{
			{"large", "texts of 66000 and 140000 bytes with lines of 0, 1, 100, 32768, 65536 bytes and none, or with a single separator at one of 9 places, leaves of up to 1000, 4096, 65536 and 200000 bytes: every insertion, removal, split and join of lines at the edges", func(c *Ctx) {
				for _, n := range []int{66000, 140000} {
					for _, ll := range []int{1, 2, 101, 32768, 65536, 65537, 1000000, -1, -101, -1001, -4096, -4097, -65536, -70001, -130000, -140000} {
						for _, g := range []oset{{4096, 2048}, {65536, 1}, {1000, 100}, {200000, 1000}} {
							if n > 66000 && ll > 0 && ll < 30000 && !th || -ll > n {
								continue
							}
							n, ll, g := n, ll, g
							if !c.Item(func() {
								b := []byte(strings.Repeat("abc", n/3+1))[:n]
								if ll < 0 {
									b[-ll-1] = '\n'
								}
								for i := ll - 1; ll > 0 && i < n; i += ll {
									b[i] = '\n'
								}
								st := ropeStart{ropeOpts(g.s, g.j, "\n"), string(b), 0}
								if !runRope(c, st, nil, false, true) {
									return
								}
								for _, p := range []int{0, 32767, 65535, 65536, n - 1} {
									for _, o := range []ropeOp{{kind: 'i', a: p, val: "\n"}, {kind: 'i', a: p, val: big[:66000]}, {kind: 'd', a: p, b: p + 1}, {kind: 'd', a: p, b: min(n, p+40000)}, {kind: 's', a: p}} {
										if !runRope(c, st, []ropeOp{o}, false, true) {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
			{"long-histories", "histories of n operations, n up to 300, from every pair of kinds (insertions of lines and parts of lines, removals, split-and-join, rebuild, rebalance), 4 leaf-size settings, checked at 20 lengths", func(c *Ctx) {
				ropeHistories(c, th, "\n", "a\nb\n\nc", "x\n", false, true)
			}},
		}
	})

	extend("C28", func(th bool) []Space {
		return []Space{
			{"many-parses", "parsers with captures, errors, back-references, memo and searches used for n parses in a row, n up to 70000, of documents in turn; the first and last results stay as they were", func(c *Ctx) {
				r := &chkSpec{Kind: "ref"}
				ps := []*P{star(capt(any(1), 1)), seq(capt(star(set("ab")), 1), or(lit("c"), errp("e", star(any(1))))), seq(check(plus(lit("a")), r, 1, 0), lit("b"), check(empty(), r, 1, 1)), star(memoP(capt(or(lit("ab"), any(1)), 1))), search(capt(lit("ba"), 2)),
					gram("S", map[string]*P{"S": capt(or(seq(lit("a"), nt("S"), lit("b")), empty()), 1)}), star(check(any(2), even, 3, 4))}
				docs := []string{"aabaa", "ab", "", "aaaaaabbbbbb", "c", "aba", "b"}
				for pi, p := range ps {
					for phase := range docs {
						pi, p, phase := pi, p, phase
						if !c.Item(func() {
							refs := make([]mres, len(docs))
							for i, d := range docs {
								refs[i] = ref(p, d)
							}
							code, err := compileSpec(p)
							if err != nil {
								c.Violate("", "pattern: %s: %v", p, err)
								return
							}
							n := pick(th, 3000, 20000)
							if pi < 3 && phase == 0 {
								n = 70000
							}
							var first []ires
							var texts []string
							tbl := memo.NewTreeTable(0)
							for i := 0; i < n; i++ {
								k := (i + phase) % len(docs)
								if i%100 >= 50 {
									k = (i/100 + phase) % len(docs)
								}
								if refs[k].undef != "" {
									continue
								}
								var t memo.Table = memo.NoneTable{}
								if i%3 == 2 {
									t = tbl
									tbl.ApplyEdit(memo.Edit{Start: 0, End: 100, Len: 100})
								}
								good := c.Guard(func() string { return fmt.Sprintf("pattern: %s\nparse number %d, of %q", p, i+1, docs[k]) }, func() {
									x := run(&code, docs[k], t)
									c.States(1)
									c.Trans(1)
									if e := diff(refs[k], x, true); e != "" {
										c.Violate("", "pattern: %s\nparse number %d, of %q: %s", p, i+1, docs[k], e)
									}
									if i < 50 && x.root != nil && i%3 != 2 {
										first = append(first, x)
										texts = append(texts, fullTree(x.root, 0))
									}
								})
								if !good || c.itemViol {
									return
								}
							}
							c.Traces(1)
							for i, x := range first {
								if t := fullTree(x.root, 0); t != texts[i] {
									c.Violate("", "pattern: %s\nthe captures of an early parse were %s, are %s after %d parses", p, texts[i], t, n)
									return
								}
							}
						}) {
							return
						}
					}
				}
			}},
		}
	})
	_ = input.NewInput
}

type oset struct{ s, j int }

// ropeHistories runs long regular histories on ropes.
func ropeHistories(c *Ctx, th bool, sep, start, val string, text, lines bool) {
	type gen func(i, n int) []ropeOp
	cl := func(p, n int) int { return min(max(p, 0), n) }
	ins := func(f func(i, n int) int, v string) gen {
		return func(i, n int) []ropeOp { return []ropeOp{{kind: 'i', a: cl(f(i, n), n), val: v}} }
	}
	del := func(f func(i, n int) int, w int) gen {
		return func(i, n int) []ropeOp {
			p := cl(f(i, n), n)
			return []ropeOp{{kind: 'd', a: p, b: min(p+w, n)}}
		}
	}
	front := func(i, n int) int { return 0 }
	mid := func(i, n int) int { return n / 2 }
	end := func(i, n int) int { return n }
	last := func(i, n int) int { return n - 1 }
	walk := func(i, n int) int { return i * 3 % (n + 1) }
	gens := []gen{ins(front, val), ins(mid, val+val), ins(end, val[:1]), ins(walk, val), del(front, 1), del(mid, 3), del(last, 1), del(walk, 2),
		func(i, n int) []ropeOp { return []ropeOp{{kind: 's', a: cl(i*5%(n+1), n)}, {kind: 'j', r: 0, a: 1}} },
		func(i, n int) []ropeOp { return []ropeOp{{kind: 'b'}} },
		func(i, n int) []ropeOp { return []ropeOp{{kind: 'l'}} },
	}
	lens := []int{3, 8, 16, 17, 31, 32, 33, 50, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300}
	for _, o := range []oset{{3, 2}, {1, 0}, {4, 8}, {16, 8}} {
		for a := range gens {
			for b := range gens {
				o, a, b := o, a, b
				if !c.Item(func() {
					for _, n := range lens {
						if !th && n > 130 && n != 257 {
							continue
						}
						var ops []ropeOp
						t := []string{start}
						for i := 0; i < n; i++ {
							g := gens[a]
							if i%3 == 1 {
								g = gens[b]
							}
							for _, op := range g(i, len(t[0])) {
								ops = append(ops, op)
								t = applyModel(t, op)
							}
						}
						if !runRope(c, ropeStart{ropeOpts(o.s, o.j, sep), start, 0}, ops, text, lines) {
							return
						}
					}
				}) {
					return
				}
			}
		}
	}
}

func init() {
	extend("C22", func(th bool) []Space {
		return []Space{{"sizes", "literals, classes, comments, blanks, names, sequences, choices, suffix and prefix chains, groups and rules, n characters or items long or deep, n around the powers of two (deep ones to 2049; 65537 in thorough)", func(c *Ctx) {
			rep := strings.Repeat
			long := []func(n int) (string, []string){
				func(n int) (string, []string) {
					l := lits(n)
					return "A <- '" + l + "' 'z'?", []string{l, l[:n-1], l + "z", "b" + l}
				},
				func(n int) (string, []string) {
					l := lits(n)
					return "A <- \"" + l + "\" / 'a'", []string{l, l[:n-1], l + "z"}
				},
				func(n int) (string, []string) {
					return "A <- [" + rep("abc", n/3) + "x-z]* 'd'", []string{"d", "abczd", "abce"}
				},
				func(n int) (string, []string) {
					return "A <- " + rep(" ", n) + "'a' #" + rep("c", n) + "\n / 'b'", []string{"a", "b", "c"}
				},
				func(n int) (string, []string) {
					return "A <- 'a'\nB" + rep("b", n) + " <- 'b' #", []string{"a", "b", "c"}
				},
				func(n int) (string, []string) {
					id := "A" + rep("_", n)
					return id + " <- 'a' " + id + "B / 'b'\n" + id + "B <- 'c'? " + id, []string{"aab", "acab", "acc"}
				},
				func(n int) (string, []string) {
					return "A <- 'x' " + rep("'a' ", n-1) + "/ 'x'", []string{"x" + rep("a", n-1), "x" + rep("a", n-2), "x"}
				},
				func(n int) (string, []string) {
					return "A <- 'x' " + rep("[ab] ", n-1), []string{"x" + rep("ab", n/2), "x" + rep("a", n-2)}
				},
				func(n int) (string, []string) {
					return "A <- " + rep("'a' 'b' / ", n-1) + "'a' 'c'", []string{"ab", "ac", "ad"}
				},
			}
			deep := []func(n int) (string, []string){
				func(n int) (string, []string) {
					return "A <- " + rep("(", n) + "'a'" + rep(")", n) + " 'b'", []string{"ab", "a", "b"}
				},
				func(n int) (string, []string) {
					return "A <- " + rep("('a' ", n) + "'b'" + rep(")?", n), []string{rep("a", n) + "b", rep("a", n-1) + "b", rep("a", n+1), ""}
				},
				func(n int) (string, []string) {
					return "A <- " + rep("!(", n) + "'a'" + rep(")", n), []string{"a", "b", ""}
				},
				func(n int) (string, []string) {
					return "A <- " + rep("{ 'a' ", n) + "'b'" + rep("}", n), []string{rep("a", n) + "b", rep("a", n-1) + "b"}
				},
				func(n int) (string, []string) {
					var b strings.Builder
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "R%d <- 'a' R%d / 'b' R%d\n", i, i+1, i+1)
					}
					fmt.Fprintf(&b, "R%d <- 'c'", n)
					return b.String(), []string{rep("ab", n/2) + rep("a", n%2) + "c", rep("a", n), rep("a", n-1) + "c"}
				},
				func(n int) (string, []string) {
					var b strings.Builder
					b.WriteString("S <- ")
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "R%d / ", i)
					}
					b.WriteString("'c'\n")
					for i := 0; i < n; i++ {
						fmt.Fprintf(&b, "R%d <- 'a' {'%d'} 'b'\n", i, i)
					}
					return b.String(), []string{fmt.Sprintf("a%db", n-1), "a0b", fmt.Sprintf("a%db", n), "c"}
				},
			}
			for _, n := range edges(th) {
				n := n
				for k, f := range long {
					f := f
					if n > 66000 || k > 4 && n > pick(th, 600, 8200) {
						continue
					}
					if !c.Item(func() {
						c.heavy = true
						t, docs := f(n)
						checkPEG(c, t, docs, true)
					}) {
						return
					}
				}
				if n > pick(th, 600, 2100) {
					continue
				}
				for _, f := range deep {
					f := f
					if !c.Item(func() {
						t, docs := f(n)
						checkPEG(c, t, docs, true)
					}) {
						return
					}
				}
			}
		}}}
	})

	extend("C23", func(th bool) []Space {
		return []Space{{"nested-operators", fmt.Sprintf("every cycle of %d out of 21 operators nested 42 deep (x+, which is compiled as x x*, at most 9 times): compiling and running must end", pick(th, 2, 3)), func(c *Ctx) {
			shapes := [][2]string{{"('a' ", ")"}, {"('a' / ", ")"}, {"(", " / 'b')"}, {"(", " / )"}, {"( / ", ")"}, {"('a' ", " / )"}, {"!(", ")"}, {"&(", ")"}, {"{ ", "}"}, {"{{ ", "}}"}, {"('a' ", ")?"}, {"(", ")?"}, {"('a' ", ")*"},
				{"('a' ", " 'b')"}, {"([a] / (", "))"}, {"(!", " .)"}, {"('a' ", " / 'c' / )"}, {"(", " '')"}, {"('' ", ")"}, {"(&. ", " / .)"}, {"('a' ", ")+"}}
			text := func(k ...int) string {
				var a, b string
				plus := 0
				for i := 0; i < 42; i++ {
					sh := shapes[k[i%len(k)]]
					if sh[1] == ")+" {
						if plus++; plus > 9 {
							break
						}
					}
					a += sh[0]
					b = sh[1] + b
				}
				return "A <- " + a + "'b'" + b
			}
			docs := []string{"", "b", strings.Repeat("a", 42) + "b" + strings.Repeat("b", 42), strings.Repeat("ab", 21)}
			for i := range shapes {
				for j := range shapes {
					i, j := i, j
					if !c.Item(func() {
						if !th {
							checkPEG(c, text(i, j), docs, false)
							return
						}
						for k := range shapes {
							if !checkPEG(c, text(i, j, k), docs, false) {
								return
							}
						}
					}) {
						return
					}
				}
			}
		}}}
	})

	extend("C24", func(th bool) []Space {
		return []Space{{"sizes", "literals, classes, alternatives, groups, optional parts and repetitions n characters or items long or deep, n around the powers of two, on inputs around their length and behind long texts", func(c *Ctx) {
			rep := strings.Repeat
			fs := []func(n int) (string, []string){
				func(n int) (string, []string) { l := lits(n); return l + "z?", []string{l, l[:n-1], l + "z", "b" + l} },
				func(n int) (string, []string) {
					l := lits(n)
					return "(?i)" + l, []string{l, strings.ToUpper(l), l[:n-1]}
				},
				func(n int) (string, []string) {
					return "x[ab]*b", []string{"x" + rep("ab", n/2), "x" + rep("a", n), rep("x", n) + "ab", rep("c", n) + "xb" + rep("c", n)}
				},
				func(n int) (string, []string) {
					return "x[ab]*?b", []string{"x" + rep("a", n) + "b", "x" + rep("a", n), rep("c", n) + "xabab"}
				},
				func(n int) (string, []string) {
					return "(?s).*z", []string{rep("a", n), rep("a", n) + "z" + rep("\n", n), "z"}
				},
				func(n int) (string, []string) {
					return "(?m)^b$", []string{rep("a\n", n) + "b", rep("a", n) + "\nb\n", rep("a", n) + "b"}
				},
				func(n int) (string, []string) {
					return "\\bab\\b", []string{rep("a", n) + " ab " + rep("b", n), rep("a", n) + "ab"}
				},
			}
			deep := []func(n int) (string, []string){
				func(n int) (string, []string) {
					return rep("(a", n) + "b" + rep(")?", n), []string{rep("a", n) + "b", rep("a", n), ""}
				},
				func(n int) (string, []string) { return rep("ab|", n) + "ac", []string{"ab", "xac", "ad"} },
				func(n int) (string, []string) {
					return rep("(?:x[ab]", n) + "c" + rep(")", n), []string{rep("xa", n) + "c", rep("xb", n-1) + "c"}
				},
			}
			for _, n := range edges(th) {
				n := n
				for k, f := range fs {
					f := f
					if (k == 1 || k == 4) && n > pick(th, 600, 2100) {
						continue
					}
					if !c.Item(func() {
						c.heavy = true
						t, docs := f(n)
						checkRx(c, t, "", syntax.Perl, docs)
					}) {
						return
					}
				}
				if n > pick(th, 300, 600) {
					continue
				}
				for _, f := range deep {
					f := f
					if !c.Item(func() {
						t, docs := f(n)
						checkRx(c, t, "", syntax.Perl, docs)
					}) {
						return
					}
				}
			}
		}}}
	})
}

// lits is a string of n lower-case letters without a short period.
func lits(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = 'a' + byte((i*i+i/7)%23)
	}
	return string(b)
}
