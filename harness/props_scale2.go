package main

import (
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// Further spaces at and around sizes where widths of numbers change: edits,
// intervals and repetitions far from the start of the document.

// intervalsAt runs interval parses with every pair of the given edges on a
// table of their own, and then all of them on one table.
func intervalsAt(c *Ctx, p *P, d string, at []int) bool {
	code, ok := compileShared(c, p)
	if !ok {
		return false
	}
	r := ref(p, d)
	if r.undef != "" {
		c.Skip(1)
		return true
	}
	how := ""
	good := true
	return c.Guard(func() string { return fmt.Sprintf("pattern %s on %s %s", p, brief(d), how) }, func() {
		all := memo.NewTreeTable(0)
		for _, lo := range at {
			for _, hi := range at {
				if lo < 0 || hi < lo || lo > len(d) || hi > len(d)+1 || !good {
					continue
				}
				iv := vm.Interval{Low: lo, High: hi}
				how = fmt.Sprint(iv)
				good = checkInterval(c, p, &code, d, r, iv, memo.NoneTable{}, "")
				if good && p.has(oMemo) {
					tbl := memo.NewTreeTable(0)
					good = checkInterval(c, p, &code, d, r, iv, tbl, " with a fresh table") && checkInterval(c, p, &code, d, r, iv, tbl, " again with the same table") &&
						checkInterval(c, p, &code, d, r, iv, all, " with a table used for other intervals before")
				}
			}
		}
	}) && good
}

func init() {
	far := func(th bool) []int {
		if th {
			return edges(false)
		}
		return []int{127, 254, 255, 256, 32766, 32768, 65533, 65535, 65536}
	}
	extend("C10", func(th bool) []Space {
		return []Space{
			{"far-patterns", fmt.Sprintf("all patterns with memo of <=%d operators over every operator of the library except errors and checkers, and star over a choice with them, behind n bytes, n around 128, 256, 32768 and 65536: every single edit at or behind the n-th byte, and removals and insertions in front of it", pick(th, 3, 4)), func(c *Ctx) {
				for _, n := range far(th) {
					n := n
					tails := []string{"ab", "baa", "abab"}
					batch(c, pure(), pick(th, 3, 4), 2, nil, func(p *P) {
						var qs []*P
						if p.has(oMemo) {
							qs = append(qs, behind(n, p))
						}
						m := memoP(capt(p, 7))
						qs = append(qs, behind(n, star(or(m, any(1)))), seq(star(memoP(lit("x"))), or(seq(m, lit("b")), seq(m, star(any(1))))))
						for i, q := range qs {
							if i == len(qs)-1 && n > 300 {
								continue // n items
							}
							cache := newCache(q)
							d := xs(n)
							if !cache.usable([]string{d + tails[0], d + tails[1]}) {
								c.Skip(1)
								continue
							}
							code, ok := compileShared(c, q)
							if !ok {
								return
							}
							for ti, t := range tails {
								if !th && (ti+i+n)%3 != 0 {
									continue
								}
								var es []edit
								for _, e := range edits(len(t), []string{"", "a", "b"}, 2) {
									es = append(es, edit{s: e.s + n, e: e.e + n, ins: e.ins})
								}
								es = append(es, edit{s: 0, e: 1}, edit{s: n - 1, e: n, ins: "xx"}, edit{s: n - 1, e: n + 1}, edit{s: 0, e: 0, ins: "a"})
								for _, e := range es {
									if !history(c, q, &code, d+t, []edit{e}, 0, cache) {
										return
									}
								}
								if len(cache.m) > 200 {
									cache.m = map[string]*mres{}
								}
							}
						}
					})
					if c.stopped {
						return
					}
				}
			}},
		}
	})

	extend("C10", func(th bool) []Space {
		return []Space{
			{"most-edits", "histories of n edits on small documents of 4 grammars, n around 65536 and 131072, from 8 cycles of 2 or 4 insertions, removals and replacements, without a parse between, or with one after every edit up to 65537", func(c *Ctx) {
				nested := star(memoP(seq(memoP(capt(any(1), 1)), opt(memoP(capt(lit("b"), 2))))))
				look := star(or(memoP(capt(seq(lit("a"), and(seq(star(lit("b")), lit("x")))), 1)), memoP(capt(any(1), 2))))
				d := "abxaabbxab"
				l := len(d)
				for _, g := range []*P{star(memoP(capt(any(1), 1))), look, nested, tokensG()} {
					for k, cyc := range [][]edit{
						{{s: 0, e: 0, ins: "a"}, {s: 0, e: 1}},
						{{s: 0, e: 1}, {s: 0, e: 0, ins: "a"}},
						{{s: l, e: l, ins: "b"}, {s: l, e: l + 1}},
						{{s: 4, e: 4, ins: "x"}, {s: 4, e: 5}},
						{{s: l - 1, e: l, ins: "a"}, {s: l - 1, e: l, ins: "b"}},
						{{s: 0, e: 0, ins: "ba"}, {s: 0, e: 1}, {s: 1, e: 1, ins: "a"}, {s: 0, e: 2}},
						{{s: 0, e: 1}, {s: l - 2, e: l - 1}, {s: 0, e: 0, ins: "a"}, {s: l - 1, e: l - 1, ins: "a"}},
						{{s: 0, e: 1}, {s: 0, e: 1}, {s: 0, e: 0, ins: "b"}, {s: 0, e: 0, ins: "a"}},
					} {
						for _, n := range []int{65534, 65535, 65536, 65537, 65538, 65539, 70001, 131071, 131072, 131073} {
							for every := 0; every < 2; every++ {
								if every == 1 && (n != 65537 || !th && k > 2) {
									continue
								}
								g, cyc, n, every := g, cyc, n, every
								if !c.Item(func() {
									code, ok := compileShared(c, g)
									if !ok {
										return
									}
									es := make([]edit, n)
									for i := range es {
										es[i] = cyc[i%len(cyc)]
										es[i].skip = every == 0
									}
									history(c, g, &code, d, es, 0, newCache(g))
								}) {
									return
								}
							}
						}
					}
				}
			}},
		}
	})

	extend("C11", func(th bool) []Space {
		return []Space{
			{"most-items", "repetitions of 65536 and 70000 memoized items of 2 kinds: two parses, and 6 edits of the last", func(c *Ctx) {
				for _, n := range []int{65536, 70000} {
					for k, p := range []*P{star(memoP(capt(any(1), 1))), plus(memoP(capt(seq(lit("a"), opt(lit("b"))), 1)))} {
						n, p := n, p
						d := strings.Repeat("a", n)
						if k == 1 {
							d = strings.Repeat("ab", n)
						}
						for _, e := range []edit{{s: 0, e: 0, ins: "a"}, {s: 0, e: 1}, {s: len(d) - 1, e: len(d), ins: "b"}, {s: 65534, e: 65536}, {s: len(d) / 2, e: len(d)/2 + 1, ins: "ab"}, {s: len(d), e: len(d), ins: "a"}} {
							e := e
							if !c.Item(func() {
								withSteps(1<<23, func() {
									code, ok := compileShared(c, p)
									if ok && e.s == 0 && e.e == 0 {
										ok = memoOnce(c, p, []string{d}, []int{0})
									}
									if ok {
										history(c, p, &code, d, []edit{e}, 0, newCache(p))
									}
								})
							}) {
								return
							}
						}
					}
				}
			}},
			{"far-items", "repetitions of 2..12 memoized items of 5 kinds behind n bytes, n around 128, 256, 32768 and 65536, and of items of n bytes: every single edit at or behind the n-th byte and one of 4 in front of it, each followed by another", func(c *Ctx) {
				for _, n := range far(th) {
					item := seq(repeatAny(n), opt(lit("b")))
					for k, p := range []*P{
						behind(n, star(memoP(capt(any(1), 1)))),
						behind(n, star(memoP(capt(seq(lit("a"), opt(lit("b"))), 1)))),
						behind(n, seq(capt(plus(memoP(or(capt(lit("ab"), 1), capt(any(1), 2)))), 3), not(any(1)))),
						behind(n, capt(star(seq(not(lit("bb")), memoP(seq(capt(any(1), 1), opt(capt(lit("b"), 2)))))), 5)),
						seq(capt(star(memoP(capt(item, 1))), 4), star(memoP(capt(any(1), 2)))),
					} {
						for _, m := range []int{2, 5, 12} {
							n, k, p, m := n, k, p, m
							if !c.Item(func() {
								withSteps(1<<22, func() {
									d := xs(n) + strings.Repeat("aba", m/3+1)[:m]
									if k == 4 {
										d = strings.Repeat(xs(n)+"b", min(m, 3)) + "ab"
										if m > 5 {
											d = "b" + d
										}
									}
									if !memoOnce(c, p, []string{d}, []int{0, 3}) {
										return
									}
									code, ok := compileShared(c, p)
									if !ok {
										return
									}
									cache := newCache(p)
									front := []edit{{s: 0, e: 0, ins: "a"}, {s: 1, e: 2}, {s: n - 1, e: n, ins: "xb"}, {s: 0, e: n}}
									back := func(l int) []edit {
										var out []edit
										for s := max(0, l-m-1); s <= l; s++ {
											out = append(out, edit{s: s, e: s, ins: "a"})
											if s < l {
												out = append(out, edit{s: s, e: s + 1}, edit{s: s, e: s + 1, ins: "b"})
											}
											if s+2 <= l {
												out = append(out, edit{s: s, e: s + 2, ins: "b"})
											}
										}
										return out
									}
									for i, e1 := range append(back(len(d)), front...) {
										if !history(c, p, &code, d, []edit{e1}, 0, cache) {
											return
										}
										e1.skip = i%2 == 0
										for j, e2 := range append(back(len(e1.apply(d))), front[:3]...) {
											if !th && (i+j)%7 != 0 || e2.e > len(e1.apply(d)) {
												continue
											}
											if !history(c, p, &code, d, []edit{e1, e2}, 0, cache) {
												return
											}
										}
										if len(cache.m) > 100 {
											cache.m = map[string]*mres{}
										}
									}
								})
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})

	extend("C12", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("all patterns with captures of <=%d operators over every operator of the library except errors and checkers, also captured and repeated, behind n bytes (captured or not), n around 128, 256, 32768 and 65536: every interval between edges near the start, the n-th byte and the end", pick(th, 3, 4)), func(c *Ctx) {
				for _, n := range far(th) {
					n := n
					tails := []string{"ab", "bab", "aa"}
					batch(c, pure(), pick(th, 3, 4), 4, nil, func(p *P) {
						var qs []*P
						if p.has(oCap) {
							qs = append(qs, behind(n, p), seq(capt(repeatAny(n), 5), p))
						}
						qs = append(qs, behind(n, star(or(capt(p, 7), any(1)))), capt(behind(n, memoP(capt(p, 7))), 6))
						for i, q := range qs {
							for ti, t := range tails {
								if !th && (ti+i+n)%3 != 0 {
									continue
								}
								d := xs(n) + t
								if !intervalsAt(c, q, d, []int{0, 1, n - 1, n, n + 1, n + 2, len(d) + 1}) {
									return
								}
							}
						}
					})
					if c.stopped {
						return
					}
				}
			}},
			{"many-captures", "n captures side by side, in pairs, or inside one another, memoized or not, n up to 20000: every interval between 10 edges", func(c *Ctx) {
				for _, n := range []int{1, 2, 3, 7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1025, pick(th, 4097, 20000)} {
					for k, p := range []*P{
						star(capt(any(1), 1)),
						capt(star(or(capt(lit("a"), 1), capt(lit("b"), 2))), 3),
						star(capt(seq(capt(lit("a"), 1), opt(capt(lit("b"), 2))), 3)),
						star(memoP(capt(any(1), 1))),
						capt(star(memoP(or(capt(seq(lit("a"), capt(lit("b"), 4)), 1), capt(any(1), 2)))), 3),
						gram("S", map[string]*P{"S": capt(or(seq(any(1), nt("S")), empty()), 1)}),
						gram("S", map[string]*P{"S": memoP(opt(seq(capt(lit("a"), 1), opt(capt(lit("b"), 2)), nt("S"))))}),
					} {
						if k >= 5 && n > 1100 {
							continue
						}
						n, p := n, p
						if !c.Item(func() {
							withSteps(1<<24, func() {
								d := strings.Repeat("ab", n/2+1)[:n]
								intervalsAt(c, p, d, []int{0, 1, 2, n / 3, n / 2, n/2 + 1, n - 2, n - 1, n, n + 1})
							})
						}) {
							return
						}
					}
				}
			}},
		}
	})

	extend("C04", func(th bool) []Space {
		return []Space{
			{"far", fmt.Sprintf("all patterns of <=%d operators over every operator of the library x routes, behind a literal or a span of n bytes, n around 128, 256 and 65536", pick(th, 3, 4)), func(c *Ctx) {
				for _, n := range []int{127, 128, 254, 255, 256, 65535, 65536} {
					n := n
					docs := []string{xs(n), xs(n) + "a", xs(n) + "bab", xs(n - 1)}
					batch(c, everything(true, true), pick(th, 3, 4), 8, nil, func(p *P) {
						if n < 1000 {
							routes(c, or(seq(lit(xs(n)), p), star(any(1))), docs)
						}
						routes(c, seq(star(set("x")), capt(p, 7)), docs)
					})
					if c.stopped {
						return
					}
				}
			}},
		}
	})
}
