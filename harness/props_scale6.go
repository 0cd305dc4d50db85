package main

import (
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
)

// Recursion so deep that the reference interpreter cannot follow it: what each
// of these grammars matches is known from their construction.

type deepCase struct {
	name string
	p    *P
	doc  func(n int) string
	ok   bool
	pos  func(n int) int
	caps func(n int) int // number of captures in the result; nil: none
}

func deepCases() []deepCase {
	as := func(n int) string { return strings.Repeat("a", n) }
	bs := func(n int) string { return strings.Repeat("b", n) }
	rule := func(p *P) *P { return gram("S", map[string]*P{"S": p}) }
	nest := rule(or(seq(lit("a"), nt("S"), lit("b")), lit("c")))
	all := func(n int) int { return 2*n + 1 }
	zero := func(int) int { return 0 }
	return []deepCase{
		{"nested", nest, func(n int) string { return as(n) + "c" + bs(n) }, true, all, nil},
		{"nested, more behind", nest, func(n int) string { return as(n) + "c" + bs(n+1) }, true, all, nil},
		{"nested, last missing", nest, func(n int) string { return as(n) + "c" + bs(n-1) }, false, zero, nil},
		{"nested, core missing", nest, func(n int) string { return as(n) + bs(n) }, false, zero, nil},
		{"nested in a capture", capt(nest, 1), func(n int) string { return as(n) + "c" + bs(n) }, true, all, func(int) int { return 1 }},
		{"nested, then another way", seq(or(nest, plus(lit("a"))), opt(lit("c"))), func(n int) string { return as(n) + "c" + bs(n-1) }, true, func(n int) int { return n + 1 }, nil},
		{"nested in a predicate", seq(and(nest), plus(lit("a")), capt(lit("c"), 2)), func(n int) string { return as(n) + "c" + bs(n) }, true, func(n int) int { return n + 1 }, func(int) int { return 1 }},
		{"nested, must not", seq(not(nest), plus(lit("a"))), func(n int) string { return as(n) + "c" + bs(n-1) }, true, func(n int) int { return n }, nil},
		{"pending alternatives", rule(or(seq(lit("a"), nt("S")), seq(lit("a"), lit("b")), empty())), func(n int) string { return as(n) + "b" }, true, func(n int) int { return n }, nil},
		{"last alternative of the first", seq(rule(or(seq(lit("a"), nt("S"), lit("d")), empty())), capt(any(1), 3)), as, true, func(int) int { return 1 }, func(int) int { return 1 }},
		{"optional", rule(opt(seq(lit("a"), nt("S"), opt(lit("b"))))), func(n int) string { return as(n) + bs(n-1) }, true, func(n int) int { return 2*n - 1 }, nil},
		{"two rules", gram("S", map[string]*P{"S": or(seq(lit("a"), nt("T")), lit("c")), "T": seq(nt("S"), lit("b"))}), func(n int) string { return as(n) + "c" + bs(n) }, true, all, nil},
		{"predicates within", rule(or(seq(and(seq(lit("a"), any(1))), any(1), nt("S"), not(lit("a")), opt(lit("b"))), lit("c"))), func(n int) string { return as(n) + "c" + bs(n) }, true, all, nil},
	}
}

func deepest(c *Ctx, th bool) {
	ns := []int{1, 2, 3, 1000, 65535, 131071, 131072, 131073, 262143, 262144, 262145, 300000}
	if th {
		ns = append(ns, 524287, 524289, 1048575, 1048577)
	}
	for _, n := range ns {
		for _, k := range deepCases() {
			n, k := n, k
			if !c.Item(func() {
				d := k.doc(n)
				c.Guard(func() string { return fmt.Sprintf("%s: %s, depth %d", k.name, k.p, n) }, func() {
					code, err := compileSpec(k.p)
					if err != nil {
						c.Violate("", "%s: compilation failed: %v", k.p, err)
						return
					}
					x := run(&code, d, memo.NoneTable{})
					c.States(1)
					c.Traces(1)
					c.Trans(n)
					caps, want := 0, 0
					if k.ok && k.caps != nil {
						want = k.caps(n)
					}
					if x.ok {
						caps = x.root.NumChildren()
					}
					pos := x.pos
					if !x.ok && !k.ok {
						pos = k.pos(n)
					}
					if x.ok != k.ok || pos != k.pos(n) || caps != want {
						c.Violate("", "%s: %s, depth %d\ninput: %q\nmatch %v, end %d, %d captures; want match %v, end %d, %d captures", k.name, k.p, n, clip(d), x.ok, x.pos, caps, k.ok, k.pos(n), want)
					}
					c.Outcome(fmt.Sprintf("%s %v", k.name, x.ok))
				})
			}) {
				return
			}
		}
	}
}

func repeats(c *Ctx, th bool) {
	try := func(p *P, w, n int) bool {
		k := w * n
		d := strings.Repeat("ab", k/2+3)
		docs := []string{d[:k], d[:k+1], d[:k+4]}
		if k > 0 {
			docs = append(docs, d[:k-1])
		}
		if k > 1 {
			docs = append(docs, d[:k/2]+"c"+d[k/2+1:k]+"ab")
		}
		for i, q := range []*P{seq(p, capt(opt(any(1)), 1)), seq(capt(p, 2), not(lit("b"))), seq(p, opt(lit(d[k:k+1])))} {
			if n > 40 && i != n%3 {
				continue
			}
			if !checkPattern(c, q, docs, false) {
				return false
			}
		}
		return true
	}
	for w := 0; w <= 255; w++ {
		w := w
		if !c.Item(func() {
			withSteps(1<<24, func() {
				for n := 0; n <= pick(th, 520, 1100) && (n <= 5 || w*n <= pick(th, 1100, 4200)); n++ {
					// compiling many copies is slow: only around multiples of 128
					if k := w * n % 128; n > 40 && k > w+1 && k < 126-w && !(th && n < 300) {
						continue
					}
					if !try(repeat(any(w), n), w, n) {
						return
					}
				}
				if w > 0 {
					for _, k := range []int{32768, 65536} {
						if n := k / w; n > 1 && (w > 30 || w&(w-1) == 0) && w > 3 {
							for _, m := range []int{n - 1, n, n + 1} {
								if !try(repeat(any(w), m), w, m) {
									return
								}
							}
						}
					}
				}
			})
		}) {
			return
		}
	}
	ab := set("ab")
	for _, n := range append(manySizes(th), 0, 1, 253, 511, 512, 513) {
		n := n
		if !c.Item(func() {
			withSteps(1<<24, func() {
				for _, u := range []struct {
					p *P
					w int
				}{{ab, 1}, {nset("c"), 1}, {lit("ab"), 2}, {seq(lit("a"), lit("b")), 2}, {seq(any(1), any(1)), 2}, {or(lit("a"), any(1)), 1}, {seq(ab, any(2)), 3}, {capt(any(1), 3), 1}, {seq(any(1), ab), 2}, {repeat(any(1), 2), 2}, {repeat(repeat(ab, 2), 2), 4}, {seq(and(ab), any(1)), 1}, {or(lit("ab"), lit("c")), 2}, {opt(any(1)), 1}, {memoP(any(2)), 2}} {
					if !try(repeat(u.p, n), u.w, n) {
						return
					}
				}
			})
		}) {
			return
		}
	}
}

func init() {
	extend("C01", func(th bool) []Space {
		return []Space{
			{"deepest-recursion", fmt.Sprintf("thirteen recursive grammars at depths up to %d: nested, with the last byte or the core missing, in predicates, in captures, with pending alternatives", pick(th, 300000, 1048577)), func(c *Ctx) { deepest(c, th) }},
			{"repeats", fmt.Sprintf("Repeat(Any(k), n) for all k <= 255 and all n with k*n <= %d (of n > 40, those around multiples of 128; and k*n around 32768 and 65536), and Repeat of fifteen other patterns n times, on inputs of k*n-1, k*n, k*n+1 and k*n+4 bytes", pick(th, 1100, 4200)), func(c *Ctx) { repeats(c, th) }},
		}
	})
}
