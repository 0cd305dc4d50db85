package main

import (
	"fmt"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

func init() {
	extend("C07", func(th bool) []Space {
		return []Space{
			{"many-references", "two definitions through one back-reference checker under every pair of ids from 0..300, -300..-1, around 2^9..2^15 and the smallest id; and n definitions at once with ids 0..n-1, n up to 3000: each use matches the text of its own id", func(c *Ctx) {
				var ids []int
				for i := -300; i <= 300; i++ {
					if th || (i >= -2 && i <= 9) || i%32 == 0 || i%50 == 0 || i == 255 || i == 257 || i == 127 || i == 129 || i == -129 || i == -127 || i == -255 || i == -257 {
						ids = append(ids, i)
					}
				}
				for _, i := range []int{512, 1024, 2048, 4096, 8192, 16384} {
					ids = append(ids, i-1, i, i+1, -i)
				}
				ids = append(ids, 32767, 32766, -32767, -32768)
				docs := []string{"ab=ab", "ab=ba", "ab=aa", "ab=bb", "ba=ba", "aa=aa", "aab=", "b=", "bb=bb"}
				for _, x := range ids {
					x := x
					if !c.Item(func() {
						for _, y := range ids {
							r := &chkSpec{Kind: "ref"}
							if !checkFresh(c, seq(check(set("ab"), r, x, 0), check(set("ab"), r, y, 0), lit("="), capt(check(empty(), r, x, 1), 1), capt(check(empty(), r, y, 1), 2)), docs) {
								return
							}
						}
					}) {
						return
					}
				}
				for _, n := range []int{2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1000, 3000} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							r := &chkSpec{Kind: "ref"}
							var defs, uses, back []*P
							var sb, ub, vb strings.Builder
							for i := 0; i < n; i++ {
								defs = append(defs, check(any(4), r, i, 0))
								uses = append(uses, check(empty(), r, i, 1))
								back = append(back, check(empty(), r, n-1-i, 1))
								fmt.Fprintf(&sb, "%04d", i)
								fmt.Fprintf(&vb, "%04d", n-1-i)
							}
							ub.WriteString(sb.String())
							d, u, v := sb.String(), ub.String(), vb.String()
							docs := []string{d + "=" + u, d + "=" + v, d + "=" + u[4:] + u[:4], d + "=" + u[:len(u)-1], d + "=" + u[:len(u)-1] + "x", d + "=" + "x" + u[1:]}
							checkFresh(c, seq(seq(defs...), lit("="), seq(uses...)), docs)
							checkFresh(c, seq(seq(defs...), lit("="), seq(back...)), docs)
						})
					}) {
						return
					}
				}
			}},
			{"word-sets", "every set of words of length <=2 over {a,b} plus two longer ones (512 sets, shared and repeated words too), on every input <=4; words that differ in one byte or the case of one, at every position of words up to 20 bytes; n words at once, n up to 3000", func(c *Ctx) {
				words := []string{"", "a", "b", "aa", "ab", "ba", "bb", "aba", "bbab"}
				docs := strs("ab", 4)
				for m := 0; m < 1<<len(words); m++ {
					m := m
					if !c.Item(func() {
						var ws []string
						for i, w := range words {
							if m&(1<<i) != 0 {
								ws = append(ws, w)
							}
						}
						k := &chkSpec{Kind: "map", Words: ws}
						checkFresh(c, or(seq(check(star(set("ab")), k, 0, 0), lit("")), seq(check(opt(any(1)), k, 1, 2), capt(star(any(1)), 1)), capt(any(1), 2)), docs)
						checkFresh(c, star(or(capt(check(any(2), k, 0, 0), 1), capt(check(any(1), k, 0, 0), 2))), docs)
						if len(ws) > 0 {
							k2 := &chkSpec{Kind: "map", Words: append(append([]string{}, ws...), ws[0], ws[len(ws)-1])}
							checkFresh(c, seq(not(check(any(1), k2, 0, 0)), check(star(set("ab")), k2, 0, 0)), docs)
						}
					}) {
						return
					}
				}
				for n := 1; n <= 20; n++ {
					n := n
					if !c.Item(func() {
						w := strings.Repeat("kWz_é", 5)[:n]
						k := &chkSpec{Kind: "map", Words: []string{w}}
						docs := []string{w, w + "a", w[:n-1], strings.ToUpper(w), strings.ToLower(w), " " + w, w + " ", w + "\x00"}
						for i := 0; i < n; i++ {
							for _, x := range []byte{1, 0x20, 0x80, 0xff} {
								b := []byte(w)
								b[i] ^= x
								docs = append(docs, string(b))
							}
						}
						checkFresh(c, check(star(any(1)), k, 0, 0), docs)
						checkFresh(c, check(repeatAny(n), k, 0, 0), docs)
					}) {
						return
					}
				}
				for _, n := range []int{7, 8, 9, 127, 128, 129, 255, 256, 257, 1000, 3000} {
					n := n
					if !c.Item(func() {
						withSteps(1<<24, func() {
							var ws, docs []string
							var all strings.Builder
							for i := 0; i < n; i++ {
								ws = append(ws, fmt.Sprintf("%04d", i))
								all.WriteString(ws[i])
							}
							docs = append(docs, all.String(), all.String()+fmt.Sprintf("%04d", n), "9999"+all.String(), all.String()[4:]+all.String()[:3])
							k := &chkSpec{Kind: "map", Words: ws}
							checkFresh(c, star(check(any(4), k, 0, 0)), docs)
						})
					}) {
						return
					}
				}
			}},
		}
	})
}

func init() {
	extend("C24", func(th bool) []Space {
		return []Space{
			{"many-ranges", "classes of n ranges of w bytes, n up to 40, w in {1,2,3,5}, at 3 distances and 3 starting points, plain, negated, folded and repeated, on every ASCII character (alone, and after and before others)", func(c *Ctx) {
				var docs []string
				for b := 0; b < 128; b++ {
					s := string([]byte{byte(b)})
					docs = append(docs, s, "."+s+"a", s+s+".")
				}
				for _, w := range []int{1, 2, 3, 5} {
					for _, gap := range []int{1, 2, 7} {
						for _, from := range []int{0, 33, '0'} {
							w, gap, from := w, gap, from
							if !c.Item(func() {
								cl := ""
								for n, b := 1, from; n <= 40 && b+w-1 < 128; n, b = n+1, b+w+gap {
									cl += fmt.Sprintf("\\x%02x", b)
									if w > 1 {
										cl += fmt.Sprintf("-\\x%02x", b+w-1)
									}
									for _, s := range []string{"[" + cl + "]", "[^" + cl + "]", "[" + cl + "a-c]*\\.", "\\.?[" + cl + "]+?a"} {
										if !checkRx(c, s, "", syntax.Perl, docs) {
											return
										}
									}
									if !checkRx(c, "["+cl+"]", "(?i)", syntax.Perl|syntax.FoldCase, docs) {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})

	extend("C28", func(th bool) []Space {
		return []Space{
			{"one-reader-intervals", fmt.Sprintf("all patterns of <=%d operators over every operator of the library, compiled twice; all sequences of 2 steps out of: a parse, interval parses with 2 intervals, and both with the other parser, on 4 documents that are the successive contents of one reader, or of one rope", pick(th, 3, 4)), func(c *Ctx) {
				docs := []string{"", "b", "ab", "aab"}
				ivs := []vm.Interval{{Low: 0, High: 9}, {Low: 1, High: 2}}
				batch(c, everything(true, true), pick(th, 3, 4), 32, nil, func(p *P) {
					refs := make([]mres, len(docs))
					for i, d := range docs {
						if refs[i] = ref(p, d); refs[i].undef != "" {
							c.Skip(1)
							return
						}
					}
					var codes [2]vm.Code
					for i := range codes {
						code, err := compileSpec(p)
						if err != nil {
							return // C01 and C23 report that
						}
						codes[i] = code
					}
					step := func(tx *text, i, k int, how string) bool {
						code := &codes[k/3]
						if k%3 == 0 {
							x := runOn(code, tx, memo.NoneTable{})
							c.States(1)
							c.Traces(1)
							c.Trans(refs[i].steps)
							if e := diff(refs[i], x, true); e != "" {
								c.Violate("", "pattern: %s\n%s: parse of %q: %s", p, how, docs[i], e)
								return false
							}
							return true
						}
						return checkIntervalOn(c, p, code, tx.reader(), docs[i], refs[i], ivs[k%3-1], memo.NoneTable{}, "\n"+how)
					}
					c.Guard(func() string { return "pattern: " + p.String() }, func() {
						for kind := 1; kind <= 2; kind++ {
							for i1 := range docs {
								for i2 := range docs {
									for k1 := 0; k1 < 3; k1++ {
										for k2 := 0; k2 < 6; k2++ {
											how := fmt.Sprintf("document %q, step %d, then on the same reader (kind %d) document %q, step %d", docs[i1], k1, kind, docs[i2], k2)
											tx := newText(docs[i1], kind)
											if !step(tx, i1, k1, how) {
												return
											}
											tx.edit(edit{s: 0, e: len(docs[i1]), ins: docs[i2]})
											if !step(tx, i2, k2, how) {
												return
											}
										}
									}
								}
							}
						}
					})
				})
			}},
		}
	})
}
