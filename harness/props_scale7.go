package main

import (
	"fmt"
	"io"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// vdoc is a document of n bytes that is not stored.
type vdoc int64

func (d vdoc) at(i int64) byte { return byte(i*7 + i/251*3 + i>>16*5 + i>>24*11 + i>>32*13 + 1) }

func (d vdoc) ReadAt(b []byte, off int64) (int, error) {
	n := 0
	for n < len(b) && off+int64(n) < int64(d) {
		b[n] = d.at(off + int64(n))
		n++
	}
	if n < len(b) {
		return n, io.EOF
	}
	return n, nil
}

// hugeInput walks through a document that is not stored.
func hugeInput(c *Ctx, th bool) {
	for _, n := range []int64{1<<16 + 5, 1<<24 - 1, 1<<24 + 4097, 1<<31 + 5, 1<<32 + 5, 1<<40 + 9} {
		d := vdoc(n)
		var pos []int
		for _, e := range []int64{0, 4096, 1 << 15, 1 << 16, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 40, n} {
			for k := int64(-1); k <= 1; k++ {
				if e+k >= 0 && e+k <= n {
					pos = append(pos, int(e+k))
				}
			}
		}
		for _, p := range pos {
			d, p := d, p
			if !c.Item(func() {
				for _, q := range pos {
					for _, a := range []int{1, 4096, 65535, 1 << 24, 1 << 32} {
						c.Guard(func() string { return fmt.Sprintf("document of %d bytes, positions %d and %d", d, p, q) }, func() {
							in := input.NewInput(d)
							cur, far := 0, 0
							fail := ""
							bad := func(format string, args ...interface{}) {
								if fail == "" {
									fail = fmt.Sprintf(format, args...)
								}
							}
							look := func() {
								b, ok := in.Peek()
								far = max(far, cur)
								if ok != (cur < int(d)) || ok && b != d.at(int64(cur)) {
									bad("Peek at %d: %d %v", cur, b, ok)
								}
								if cur > 0 {
									if b, ok := in.PeekBefore(); cur < int(d) && (!ok || b != d.at(int64(cur-1))) {
										bad("PeekBefore at %d: %d %v", cur, b, ok)
									}
								}
								if in.Pos() != cur || in.Furthest() != far {
									bad("at %d: position %d, furthest %d instead of %d", cur, in.Pos(), in.Furthest(), far)
								}
							}
							seek := func(to int) {
								if ok := in.SeekTo(to); ok != (to < int(d)) {
									bad("SeekTo(%d): %v", to, ok)
								}
								cur = to
								look()
							}
							adv := func(k int) {
								if cur+k > int(d) || cur == int(d) {
									return
								}
								if !in.Advance(k) {
									bad("Advance(%d) at %d: false", k, cur)
								}
								far = max(far, cur+k-1)
								cur += k
								look()
							}
							look()
							seek(p)
							adv(a)
							seek(q)
							adv(a)
							adv(1)
							seek(p)
							adv(3)
							lo := min(p, q)
							hi := min(lo+17, int(d))
							want := make([]byte, hi-lo)
							for i := range want {
								want[i] = d.at(int64(lo + i))
							}
							if got := in.Slice(lo, hi); string(got) != string(want) {
								bad("Slice(%d, %d): %v instead of %v", lo, hi, got, want)
							}
							look()
							c.States(1)
							c.Traces(1)
							c.Trans(9)
							if fail != "" {
								c.Violate("", "document of %d bytes: seek to %d, advance %d, seek to %d, advance %d and 1, seek to %d, advance 3: %s", d, p, a, q, a, p, fail)
							}
						})
						if c.itemViol {
							return
						}
					}
				}
				c.Outcome(fmt.Sprint(d, p))
			}) {
				return
			}
		}
	}
}

func manyRepetitions(c *Ctx, th bool) {
	ns := []int{2, 3, 10, 33, 65, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 513, 600}
	if th {
		ns = append(ns, 1000, 1023, 1025, 1100)
	}
	for _, n := range ns {
		for _, u := range [][2]string{{"a*b", "aab"}, {"a+b", "ab"}, {"[ab]*c", "abc"}, {"a*?b", "b"}, {"(?:ab)*c", "ababc"}, {"(a+)c", "aac"}} {
			n, u := n, u
			if !c.Item(func() {
				x := strings.Repeat(u[0], n)
				d := strings.Repeat(u[1], n)
				docs := []string{d, d + d, d + d + d[:len(d)-1], d[:len(d)-1], d[1:], "z" + d + "c", "", d + u[1]}
				for _, s := range []string{x, "(?:" + x + ")*", "(?:" + x + ")+c", "(?:(?:" + x + ")*c)*"} {
					if n > 300 && strings.HasPrefix(s, "(?:(") && u[0] != "a*b" {
						continue
					}
					if !checkRx(c, s, "", syntax.Perl, docs) {
						return
					}
				}
			}) {
				return
			}
		}
	}
}

// parsesWithin runs parses whose checkers run other parses.
func parsesWithin(c *Ctx, th bool) {
	var active func(b string)
	mk := func(on bool) *chkSpec {
		return &chkSpec{Kind: "rec", Fn: func(b, rest string, id, flag int) int {
			if on {
				active(b)
			}
			return 0
		}}
	}
	outer := []func(k *chkSpec) *P{
		func(k *chkSpec) *P {
			return gram("S", map[string]*P{"S": or(seq(lit("a"), check(lit("b"), k, 1, 0), nt("S"), lit("c")), lit("d"))})
		},
		func(k *chkSpec) *P {
			return capt(plus(or(seq(capt(set("ab"), 1), check(empty(), k, 2, 0), lit("z")), capt(check(any(1), k, 3, 0), 2))), 3)
		},
		func(k *chkSpec) *P {
			return seq(and(seq(check(lit("ab"), k, 1, 0), any(1))), search(capt(lit("d"), 4)))
		},
		func(k *chkSpec) *P { return star(memoP(capt(or(check(set("ab"), k, 1, 1), lit("d")), 1))) },
		func(k *chkSpec) *P {
			return seq(or(seq(star(check(set("ab"), k, 1, 0)), lit("x")), plus(lit("ab"))), errp("e", capt(any(1), 1)))
		},
	}
	inner := []*P{seq(opt(lit("zz")), star(lit("x"))), star(capt(any(1), 5)), gram("S", map[string]*P{"S": or(seq(lit("x"), nt("S"), lit("y")), capt(empty(), 6))}), seq(lit("x"), errp("f", star(any(1)))), star(memoP(capt(any(1), 7)))}
	docs := []string{"ababdcc", "abd", "abababababd"}
	for oi := range outer {
		for ii, ip := range inner {
			for _, m := range []int{1, 2, 3, 7, 8, 9, 16, 17, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, pick(th, 2049, 20000)} {
				oi, ii, ip, m := oi, ii, ip, m
				if !c.Item(func() {
					c.Guard(func() string {
						return fmt.Sprintf("%s with %d parses of %s within its checks", outer[oi](mk(false)), m, ip)
					}, func() {
						icode, err := compileSpec(ip)
						if err != nil {
							c.Violate("", "%s: %v", ip, err)
							return
						}
						po := outer[oi](mk(true))
						ocode, err := compileSpec(po)
						if err != nil {
							c.Violate("", "%s: %v", po, err)
							return
						}
						idocs := []string{"xx", "xxyy", "x"}
						irefs := make([]mres, len(idocs))
						for i, d := range idocs {
							irefs[i] = ref(ip, d)
						}
						for di, d := range docs {
							r := ref(outer[oi](mk(false)), d)
							if r.undef != "" {
								c.Skip(1)
								continue
							}
							for mode := 0; mode < 3; mode++ {
								bad, depth := "", 0
								active = func(string) {
									switch {
									case mode == 0: // one after the other
										for i := 0; i < m; i++ {
											k := i % len(idocs)
											x := run(&icode, idocs[k], memo.NoneTable{})
											if i < 3 || i > m-3 {
												if e := diff(irefs[k], x, true); e != "" && bad == "" && irefs[k].undef == "" {
													bad = fmt.Sprintf("inner parse %d of %q: %s", i, idocs[k], e)
												}
											}
										}
									case mode == 1: // of the same code, each within the last
										if depth < m {
											depth++
											x := run(&ocode, d, memo.NoneTable{})
											if e := diff(r, x, true); e != "" && bad == "" {
												bad = "a parse within it: " + e
											}
										}
									case depth < m: // in turn
										depth++
										iv := vm.Interval{Low: 0, High: 1}
										icode.ExecInterval(strings.NewReader(idocs[depth%3]), memo.NewTreeTable(0), &iv)
										ocode.Exec(strings.NewReader(docs[(di+1)%3]), memo.NoneTable{})
									}
								}
								if mode == 1 && m > 300 {
									continue
								}
								x := run(&ocode, d, memo.NoneTable{})
								c.States(1)
								c.Traces(1)
								c.Trans(m + r.steps)
								if e := diff(r, x, true); e != "" && bad == "" {
									bad = e
								}
								if bad != "" {
									c.Violate("", "pattern: %s\ninput: %q\nchecks that start %d parses (%d: %s)\n%s", po, d, m, mode, []string{"of " + ip.String() + " one after the other", "of itself, each within the last", "in turn"}[mode], bad)
									return
								}
							}
						}
						c.Outcome(fmt.Sprint(oi, ii))
					})
				}) {
					return
				}
			}
		}
	}
}

func init() {
	extend("C16", func(th bool) []Space {
		return []Space{{"huge", "documents of up to 2^40 bytes that are computed, not stored: every pair of positions around 0, 2^12, 2^15, 2^16, 2^20, 2^24, 2^31, 2^32, 2^40 and the end, with advances of 1 to 2^32 bytes: bytes, look-backs, positions, furthest positions and slices", func(c *Ctx) { hugeInput(c, th) }}}
	})
	extend("C24", func(th bool) []Space {
		return []Space{{"many-repetitions", fmt.Sprintf("n repetitions of six kinds in a row, alone, repeated, and repeated twice, n up to %d, on inputs that match up to the last byte or not", pick(th, 600, 1100)), func(c *Ctx) { manyRepetitions(c, th) }}}
	})
	within := func(th bool) []Space {
		return []Space{{"parses-within", fmt.Sprintf("5 parsers with captures, memo, predicates and recursion whose checks start n other parses, n up to %d: one after the other, each within the last, and in turn; every result", pick(th, 2049, 20000)), func(c *Ctx) { parsesWithin(c, th) }}}
	}
	extend("C27", within)
	extend("C28", within)
}
