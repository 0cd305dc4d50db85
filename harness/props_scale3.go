package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

func init() {
	extend("C03", func(th bool) []Space {
		return []Space{
			{"rebound-names", "grammars nested three deep where the rule R of the middle one uses names of the outer one that the innermost one defines again: R's bodies of <=3 operators over {'a','b',O,T,M}, the innermost start rule's of <=3 over {'b',R,O,N}, 3 outer and 4 inner rules O, with the innermost grammar in 3 places; inputs <=3", func(c *Ctx) {
				docs := strs("ab", 3)
				a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("O"), nt("T"), nt("M")}, unary: []func(*P) *P{opt, not, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
				var rs, ns []*P
				a.upTo(3, func(p *P) bool { rs = append(rs, p); return true })
				b := &alphabet{leaves: []*P{lit("b"), nt("R"), nt("O"), nt("N")}, unary: []func(*P) *P{opt, not}, binary: bBasic}
				b.upTo(pick(th, 2, 3), func(p *P) bool {
					if p.mentions("R") {
						ns = append(ns, p)
					}
					return true
				})
				if !th {
					// the two-operand bodies that use R
					b = &alphabet{leaves: []*P{lit("b"), nt("R"), nt("O"), nt("N")}, binary: bBasic}
					b.upTo(3, func(p *P) bool {
						if p.mentions("R") && len(p.Kids) == 2 {
							ns = append(ns, p)
						}
						return true
					})
				}
				outer := []*P{lit("a"), capt(lit("ab"), 5), seq(lit("a"), opt(nt("O")))}
				inner := []*P{lit("b"), capt(lit("b"), 6), seq(lit("b"), opt(nt("R"))), nt("N")}
				for _, r := range rs {
					r := r
					if !c.Item(func() {
						for _, n := range ns {
							for _, o := range outer {
								for _, i := range inner {
									in := gram("N", map[string]*P{"N": n, "O": i})
									for k, m := range []*P{in, or(seq(in, nt("O")), nt("R")), seq(nt("R"), in)} {
										mid := gram("M", map[string]*P{"M": m, "R": r})
										p := gram("T", map[string]*P{"T": mid, "O": o})
										if k == 1 {
											p = gram("T", map[string]*P{"T": or(seq(lit("b"), mid), seq(mid, nt("O")), nt("O")), "O": o})
										}
										checkPattern(c, p, docs, false)
										if c.itemViol {
											return
										}
									}
								}
							}
						}
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C09", func(th bool) []Space {
		return []Space{
			{"many-ids", "two memoized patterns of one parser tried at the same places, with every pair of 46 ids around the powers of two within 16 bits, given or counted: one is the other followed by more, or captures differently, alone, as repetitions and nested; inputs <=3, three parses", func(c *Ctx) {
				var ids []int
				for _, e := range []int{0, 1, 2, 4, 7, 8, 9, 10, 12, 14, 15} {
					for d := -1; d <= 1; d++ {
						for _, s := range []int{1, -1} {
							if v := s*(1<<e) + d; v >= -32768 && v <= 32767 {
								dup := false
								for _, w := range ids {
									dup = dup || v == w
								}
								if !dup {
									ids = append(ids, v)
								}
							}
						}
					}
				}
				docs := strs("ab", 3)
				for i, x := range ids {
					x := x
					rest := ids[i+1:]
					if !c.Item(func() {
						for _, y := range rest {
							for kind := 0; kind < 4; kind++ {
								idsPair(c, x, y, kind, docs)
								if c.itemViol {
									return
								}
							}
						}
					}) {
						return
					}
				}
			}},
			{"far-ids", "parsers of which the memoized patterns were created with n others in between, n around 256, 4096 and 32768: one is the other followed by more, or captures differently; inputs <=4, three parses", func(c *Ctx) {
				for _, n := range []int{1, 15, 16, 63, 64, 127, 128, 254, 255, 256, 257, 510, 511, 512, 1023, 1024, 4095, 4096, 16383, 16384, 32000} {
					n := n
					if !c.Item(func() {
						a, ab := capt(lit("a"), 1), capt(seq(lit("a"), opt(lit("b"))), 2)
						m1 := pattern.Memo(a.build())
						for i := 1; i < n; i++ {
							pattern.Memo(pattern.Literal("q"))
						}
						m2 := pattern.Memo(ab.build())
						sp := star(or(seq(a, lit("a")), seq(ab, lit("b")), ab, a, any(1)))
						real := pattern.Star(pattern.Or(pattern.Concat(m1, pattern.Literal("a")), pattern.Concat(m2, pattern.Literal("b")), m2, m1, pattern.Any(1)))
						if m1.(*pattern.MemoNode).Id+n > 32767 {
							c.Skip(1)
							return
						}
						idsRun(c, real, sp, strs("ab", 4), fmt.Sprintf("two memoized patterns, with %d others created in between", n-1))
					}) {
						return
					}
				}
			}},
		}
	})
}

// idsPair checks that two patterns with different ids do not get each other's
// results.
func idsPair(c *Ctx, x, y, kind int, docs []string) {
	a, ab := capt(lit("a"), 1), capt(seq(lit("a"), opt(lit("b"))), 2)
	switch kind {
	case 1:
		a, ab = ab, a
	case 2:
		a, ab = capt(lit("a"), 1), capt(lit("a"), 2)
	case 3:
		a, ab = seq(capt(lit("a"), 1), capt(opt(any(1)), 2)), plus(capt(set("ab"), 3))
	}
	m1 := pattern.MemoId(a.build(), x)
	m2 := pattern.MemoId(ab.build(), y)
	desc := fmt.Sprintf("memoized patterns %s with id %d and %s with id %d", a, x, ab, y)
	idsRun(c, pattern.Star(pattern.Or(pattern.Concat(m1, pattern.Literal("b"), m1), pattern.Concat(m2, pattern.Literal("a")), m1, m2, pattern.Any(1))),
		star(or(seq(a, lit("b"), a), seq(ab, lit("a")), a, ab, any(1))), docs, desc)
	idsRun(c, pattern.Concat(pattern.And(pattern.Optional(m1)), pattern.MemoId(pattern.Cap(pattern.Concat(pattern.Optional(m2), pattern.Star(pattern.Any(1))), 9), idOther(x, y))),
		seq(and(opt(a)), capt(seq(opt(ab), star(any(1))), 9)), docs, desc+", nested")
}

// idOther is an id that is neither.
func idOther(x, y int) int {
	for i := 5; ; i += 37 {
		if i != x && i != y {
			return i
		}
	}
}

func idsRun(c *Ctx, real pattern.Pattern, sp *P, docs []string, desc string) {
	where := ""
	c.Guard(func() string { return desc + where }, func() {
		prog, err := pattern.Compile(real)
		if err != nil {
			c.Violate("", "%s: rejected: %v", desc, err)
			return
		}
		code := vm.Encode(prog)
		for _, th := range []int{0, 2} {
			for _, d := range docs {
				r := ref(sp, d)
				if r.undef != "" {
					c.Skip(1)
					continue
				}
				tbl := memo.NewTreeTable(th)
				for k := 1; k <= 3; k++ {
					where = fmt.Sprintf(", input %q, threshold %d, parse %d", d, th, k)
					c.States(1)
					c.Traces(1)
					c.Trans(r.steps)
					if e := diff(r, run(&code, d, tbl), false); e != "" {
						c.Violate("", "%s%s: %s", desc, where, e)
						return
					}
				}
				c.Outcome(r.String())
			}
		}
		c.Sample(func() string { return desc })
	})
}

// largeProg is a parser whose saved form is about n bytes: choices of random
// words, which do not compress. The words depend only on n.
func largeProg(n int) *P {
	r := rand.New(rand.NewSource(int64(n)))
	var alts []*P
	for size := 0; size < n; {
		w := make([]byte, 200)
		for i := range w {
			w[i] = byte(r.Intn(256))
		}
		size += len(w)
		alts = append(alts, capt(lit(string(w)), len(alts)&0x7fff))
	}
	return star(or(balanced(alts, or), any(1)))
}

func init() {
	extend("C21", func(th bool) []Space {
		return []Space{
			{"large", "saved parsers of about n bytes that do not compress, n around 512, 4096, 32768 and 65536 (up to 1 MiB in thorough): every prefix that lacks 1..40 bytes or ends around a multiple of 512 bytes and of 1/64 of the length, and 3 changes of each of the first and last 40 bytes, of those around multiples of 4096 bytes and of every 1/256 (1/1024 in thorough) of the length; prefixes of the JSON form likewise", func(c *Ctx) {
				sizes := []int{400, 512, 1024, 3500, 4096, 5000, 8192, 16384, 32768, 40000, 65536, 70000, 140000}
				if th {
					sizes = append(sizes, 262144, 524288, 1<<20)
				}
				for _, n := range sizes {
					p := largeProg(n)
					var code vm.Code
					var js, js2, b []byte
					var docs []string
					prepare := func() bool {
						if b != nil {
							return true
						}
						return c.Guard(func() string { return fmt.Sprintf("saving a parser of %d bytes", n) }, func() {
							var err error
							code, err = compileSpec(p)
							if err == nil {
								b, err = code.ToBytes()
							}
							if err == nil {
								js, err = code.ToJson()
							}
							var cp vm.Code
							if err == nil {
								cp, err = vm.FromBytes(b)
							}
							if err == nil {
								js2, err = cp.ToJson()
							}
							if err != nil {
								b = nil
								c.Violate("", "a parser of about %d bytes cannot be saved and loaded: %v", n, err)
							}
							docs = []string{"", "ab", n200(p, 0), "x" + n200(p, 1) + "y"}
						})
					}
					judge := func(damaged []byte, load func([]byte) (vm.Code, error), how string) bool {
						return c.Guard(func() string { return fmt.Sprintf("parser of %d bytes: %s", len(b), how) }, func() {
							c.States(1)
							c.Trans(1)
							got, err := load(damaged)
							if err != nil {
								c.Outcome("error: " + err.Error())
								return
							}
							c.Traces(1)
							c.Note("loads")
							j, err := got.ToJson()
							if err != nil || !bytes.Equal(j, js) && !bytes.Equal(j, js2) {
								c.Violate("", "parser saved in %d bytes, %s: loaded without an error, but as a different parser", len(b), how)
								return
							}
							for _, d := range docs {
								if e := same(run(&code, d, memo.NoneTable{}), run(&got, d, memo.NoneTable{}), true); e != "" {
									c.Violate("", "parser saved in %d bytes, %s: loaded without an error, but on %q: %s", len(b), how, clip(d), e)
									return
								}
							}
						}) && !c.itemViol
					}
					// positions of interest in data of l bytes
					at := func(l, edge, step, parts int) []int {
						m := map[int]bool{}
						var out []int
						add := func(v int) {
							if v >= 0 && v < l && !m[v] {
								m[v] = true
								out = append(out, v)
							}
						}
						for i := 0; i < edge; i++ {
							add(i)
							add(l - 1 - i)
						}
						for k := step; k < l; k += step {
							add(k - 1)
							add(k)
							add(k + 1)
						}
						for k := 1; k < parts; k++ {
							add(l * k / parts)
						}
						return out
					}
					if !c.Item(func() {
						if !prepare() {
							return
						}
						for _, k := range at(len(b), 40, max(512, len(b)/64), 64) {
							if !judge(b[:k:k], vm.FromBytes, fmt.Sprintf("first %d of %d bytes", k, len(b))) {
								return
							}
						}
					}) {
						return
					}
					if !c.Item(func() {
						if !prepare() {
							return
						}
						for _, k := range at(len(js), 24, max(4096, len(js)/16), 16) {
							if !judge(js[:k:k], vm.FromJson, fmt.Sprintf("first %d of %d bytes of the JSON form", k, len(js))) {
								return
							}
						}
					}) {
						return
					}
					for part := 0; part < 16; part++ {
						part := part
						if !c.Item(func() {
							if !prepare() {
								return
							}
							d := append([]byte(nil), b...)
							for i, k := range at(len(b), 40, 4096, pick(th, 256, 1024)) {
								if i%16 != part {
									continue
								}
								for _, x := range []byte{1, 0x80, 0xff} {
									d[k] ^= x
									ok := judge(d, vm.FromBytes, fmt.Sprintf("byte %d of %d changed from %#x to %#x", k, len(b), b[k], d[k]))
									d[k] = b[k]
									if !ok {
										return
									}
								}
							}
						}) {
							return
						}
					}
				}
			}},
		}
	})
}

// n200 is the k'th word of a large parser.
func n200(p *P, k int) string {
	var words []string
	var walk func(p *P)
	walk = func(p *P) {
		if p.Op == oLit && len(p.S) == 200 {
			words = append(words, p.S)
		}
		for _, q := range p.Kids {
			walk(q)
		}
	}
	walk(p)
	if k < len(words) {
		return words[k]
	}
	return strings.Repeat("q", 200)
}

func init() {
	extend("C07", func(th bool) []Space {
		return []Space{
			{"results", "checkers that return a constant: -2^62, -70000, -4097..-4095, -300..-255 around powers of two, -9..9, around 256, 4096 and 65536, and 2^62, at positions 0..3 and around window edges, with 0..5 and about as many bytes left as asked for, in 14 contexts; the call log is compared too", func(c *Ctx) {
				ns := []int{-1 << 62, -70000, -65536, -4097, -4096, -4095, -300, -257, -256, -255, -128, 127, 128, 254, 255, 256, 257, 4094, 4095, 4096, 4097, 8192, 65535, 65536, 1 << 62}
				for n := -9; n <= 9; n++ {
					ns = append(ns, n)
				}
				starts := []int{0, 1, 2, 3, 254, 255, 256, 4093, 4094, 4095, 4096, 4097, 8191, 8192}
				if th {
					starts = append(starts, 5, 127, 128, 511, 512, 2047, 2048, 4090, 4091, 4092, 4098, 8190, 8193, 12287, 12288, 65535, 65536)
				}
				for _, n := range ns {
					for _, s := range starts {
						n, s := n, s
						if !c.Item(func() {
							k := &chkSpec{Kind: "const", Fn: func(b, rest string, id, flag int) int { return n }}
							var docs []string
							for _, rest := range []int{0, 1, 2, 3, 4, 5, n - 1, n, n + 1, n + 2} {
								if rest >= 0 && rest < 1<<20 {
									docs = append(docs, xs(s)+"a"+strings.Repeat("bab", rest/3+1)[:rest])
								}
							}
							x := check(lit("a"), k, 3, 4)
							e := check(empty(), k, 5, 6)
							for _, p := range []*P{x, capt(x, 1), seq(x, capt(star(any(1)), 2)), or(seq(x, lit("c")), seq(lit("a"), capt(any(1), 3)), x), opt(x), not(x), and(x),
								seq(capt(opt(x), 4), capt(opt(any(1)), 5)), seq(x, not(any(1))), or(capt(e, 6), capt(lit("a"), 7)), seq(lit("a"), opt(capt(e, 8)), capt(opt(lit("b")), 9)), star(or(seq(lit("a"), capt(e, 1)), capt(set("ab"), 2))),
								seq(and(seq(any(1), opt(e))), x), check(seq(x, opt(lit("b"))), &chkSpec{Kind: "zero", Fn: func(b, rest string, id, flag int) int { return 0 }}, 1, 1)} {
								if !checkLogged(c, seq(repeatAny(s), p), docs) {
									return
								}
							}
						}) {
							return
						}
					}
				}
			}},
		}
	})
}
