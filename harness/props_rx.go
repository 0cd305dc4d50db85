package main

// C24: converted regular expressions against Go's regexp package.

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

// An rx is a regular expression under construction.
type rx struct {
	s    string
	prec int // 0 alternation, 1 concatenation, 2 repetition, 3 atom
	null bool
}

func (r rx) at(prec int) string {
	if r.prec < prec {
		return "(?:" + r.s + ")"
	}
	return r.s
}

// rxOfSize returns all expressions of exactly n operators; repetitions of
// expressions that can match empty are left out.
func rxOfSize(atoms []rx, reps []string, group bool, n int) [][]rx {
	by := make([][]rx, n+1)
	by[1] = atoms
	for k := 2; k <= n; k++ {
		for _, x := range by[k-1] {
			for _, r := range reps {
				if x.null && r[0] != '?' {
					continue
				}
				by[k] = append(by[k], rx{x.at(3) + r, 2, r[0] != '+'})
			}
			if group {
				by[k] = append(by[k], rx{"(" + x.s + ")", 3, x.null})
			}
		}
		for i := 1; i < k-1; i++ {
			for _, x := range by[i] {
				for _, y := range by[k-1-i] {
					by[k] = append(by[k], rx{x.at(1) + y.at(1), 1, x.null && y.null}, rx{x.at(0) + "|" + y.at(0), 0, x.null || y.null})
				}
			}
		}
	}
	return by
}

// findRx runs a converted expression and returns the match.
func findRx(code *vm.Code, d string) (loc []int, bad string) {
	ok, end, root, errs := code.Exec(strings.NewReader(d), memo.NoneTable{})
	if len(errs) > 0 {
		return nil, fmt.Sprintf("errors %v", errs)
	}
	if !ok {
		return nil, ""
	}
	if root.NumChildren() != 1 || root.Child(0).Id() != 0 {
		return nil, fmt.Sprintf("captures %s", rootCaps(root))
	}
	m := root.Child(0)
	if m.End() != end {
		return nil, fmt.Sprintf("the match ends at %d, the captured one at %d", end, m.End())
	}
	return []int{m.Start(), m.End()}, ""
}

// checkRx compares the conversion of s with regexp on all docs.
func checkRx(c *Ctx, s, prefix string, flags syntax.Flags, docs []string) bool {
	return c.Guard(func() string { return fmt.Sprintf("regexp %q, flags %v", s, flags) }, func() {
		want, err := regexp.Compile(prefix + s)
		if err != nil {
			c.Skip(len(docs))
			return
		}
		p, err := rxconv.FromRegexp(s, flags)
		if err != nil {
			c.Violate("", "regexp %q, flags %v: rejected: %v", s, flags, err)
			return
		}
		prog, err := pattern.Compile(p)
		if err != nil {
			c.Violate("", "regexp %q, flags %v: the conversion does not compile: %v", s, flags, err)
			return
		}
		code := vm.Encode(prog)
		for i, d := range docs {
			c.States(1)
			c.Traces(1)
			c.Trans(len(d) + 1)
			exp := want.FindStringIndex(d)
			got, bad := findRx(&code, d)
			if bad != "" || fmt.Sprint(exp) != fmt.Sprint(got) {
				c.Violate("", "regexp %q, flags %v, on %q: expected match %v (Go's regexp), got %v %s", s, flags, d, exp, got, bad)
				return
			}
			if i%4 == 0 {
				c.Outcome(fmt.Sprint(exp))
			}
		}
		c.Sample(func() string {
			return fmt.Sprintf("%q on %d inputs, last %q -> %v", s, len(docs), docs[len(docs)-1], want.FindStringIndex(docs[len(docs)-1]))
		})
	}) && !c.itemViol
}

// rxBatch checks all expressions, several per item.
func rxBatch(c *Ctx, by [][]rx, per int, prefix string, flags syntax.Flags, docs []string, keep func(rx) bool) {
	for _, xs := range by {
		for i := 0; i < len(xs); i += per {
			ys := xs[i:]
			if len(ys) > per {
				ys = ys[:per]
			}
			if !c.Item(func() {
				for _, x := range ys {
					if keep != nil && !keep(x) {
						continue
					}
					if !checkRx(c, x.s, prefix, flags, docs) {
						return
					}
				}
			}) {
				return
			}
		}
	}
}

func init() {
	atoms := func(null string, ss ...string) (out []rx) {
		for _, s := range ss {
			prec := 3
			if len(s) > 1 && s[0] != '[' && s[0] != '\\' && s[0] != '(' {
				prec = 1
			}
			out = append(out, rx{s, prec, false})
		}
		for _, s := range strings.Fields(null) {
			out = append(out, rx{s, 3, true})
		}
		return
	}
	all := []string{"*", "+", "?", "*?", "+?", "??"}
	register(&Property{ID: "C24",
		Assume: []string{"inputs are ASCII; repetitions (*, +) of expressions that can match empty are excluded"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"greedy", fmt.Sprintf("all expressions of <=%d operators over {a,b} with * + ? | concatenation and groups, on all inputs over {a,b} of length <=4", pick(th, 6, 7)), func(c *Ctx) {
					rxBatch(c, rxOfSize(atoms("", "a", "b"), all[:3], true, pick(th, 6, 7)), 64, "", syntax.Perl, strs("ab", 4), nil)
				}},
				{"lazy", fmt.Sprintf("all expressions of <=%d operators over {a,ab,.} with all six repetitions, on all inputs over {a,b} of length <=5", pick(th, 5, 6)), func(c *Ctx) {
					rxBatch(c, rxOfSize(atoms("", "a", "ab", "."), all, false, pick(th, 5, 6)), 64, "", syntax.Perl, strs("ab", 5), nil)
				}},
				{"classes", fmt.Sprintf("all expressions of <=%d operators over 16 classes and escapes, on all inputs over {a,B,0,_,newline} of length <=3", pick(th, 4, 5)), func(c *Ctx) {
					rxBatch(c, rxOfSize(atoms("", "[ab]", "[^a]", "[a-zA-Z]", "[^a-z0]", ".", "\\d", "\\D", "\\w", "\\W", "\\s", "\\S", "[[:upper:]]", "[[:^digit:]]", "(?s:.)", "\\n", "B"), []string{"*", "+?", "?"}, false, pick(th, 4, 5)), 32, "", syntax.Perl, strs("aB0_\n", 3), nil)
				}},
				{"anchors", fmt.Sprintf("all expressions of <=%d operators over {a, newline, ^, $, \\A, \\z, \\b, \\B, (?m:^), (?m:$), empty}, on all inputs over {a,space,newline} of length <=4", pick(th, 4, 5)), func(c *Ctx) {
					rxBatch(c, rxOfSize(atoms("^ $ \\A \\z \\b \\B (?m:^) (?m:$) (?:)", "a", "\\n", "[ a]"), []string{"*", "+", "?", "??"}, false, pick(th, 4, 5)), 32, "", syntax.Perl, strs("a \n", 4), nil)
				}},
				{"flags", fmt.Sprintf("all expressions of <=%d operators over {a, B, [a-b], ., aB, $, ^} under every combination of FoldCase, NonGreedy, DotNL and multi-line flags, and inline (?i) (?U) groups, on all inputs over {a,B,newline} of length <=3", pick(th, 4, 5)), func(c *Ctx) {
					by := rxOfSize(atoms("$ ^", "a", "B", "[a-b]", ".", "aB", "(?i:ba)", "(?U:a*b+?)", "(?-i:A)"), []string{"*", "+", "?", "+?"}, false, pick(th, 4, 5))
					for m := 0; m < 16; m++ {
						flags, prefix := syntax.Perl, ""
						if m&1 != 0 {
							flags |= syntax.FoldCase
							prefix += "(?i)"
						}
						if m&2 != 0 {
							flags |= syntax.NonGreedy
							prefix += "(?U)"
						}
						if m&4 != 0 {
							flags |= syntax.DotNL
							prefix += "(?s)"
						}
						if m&8 != 0 {
							flags &^= syntax.OneLine
							prefix += "(?m)"
						}
						rxBatch(c, by, 64, prefix, flags, strs("aB\n", 3), nil)
					}
				}},
				{"bytes", "every ASCII character as literal, escaped, in classes, ranges and negated classes, with and without case folding, on every ASCII input character", func(c *Ctx) {
					var docs []string
					for b := 0; b < 128; b++ {
						docs = append(docs, string([]byte{byte(b)}), string([]byte{'a', byte(b)}))
					}
					for b := 0; b < 128; b++ {
						q := regexp.QuoteMeta(string([]byte{byte(b)}))
						h := fmt.Sprintf("\\x%02x", b)
						if !c.Item(func() {
							for _, s := range []string{q, h, "[" + h + "]", "[\\x20-" + h + "]", "[" + h + "-\\x7f]", q + "$", "^" + q + "*$", "a" + q + "?$"} {
								if !checkRx(c, s, "", syntax.Perl, docs) || !checkRx(c, s, "(?i)", syntax.Perl|syntax.FoldCase, docs) {
									return
								}
							}
							checkRx(c, "[^"+h+"]", "", syntax.Perl, docs)
						}) {
							return
						}
					}
				}},
				{"folded-words", "words of letters with unusual case orbits, case-insensitively, on all spellings", func(c *Ctx) {
					for _, w := range []string{"k", "s", "ks", "Kb", "sAk", "i", "if", "z9_Z", "m.s", "ss*k", "[ks]", "[^b]a"} {
						w := w
						if !c.Item(func() {
							docs := append(strs("kKsS", 3), "if", "IF", "iF", "z9_z", "Z9_Z", "m.s", "MxS", "ba", "kA", "saK", "SAk", "sssK")
							_ = checkRx(c, w, "(?i)", syntax.Perl|syntax.FoldCase, docs) && checkRx(c, "(?i)"+w, "", syntax.Perl, docs) && checkRx(c, "k(?i:"+w+")s?", "", syntax.Perl, docs)
						}) {
							return
						}
					}
				}},
				{"unsupported", "expressions with counted repetition and with classes that match nothing are rejected with an error, in every position", func(c *Ctx) {
					for _, u := range []string{"a{2}", "a{1,2}", "(?:ab){0,3}", "b{2,}", "a{2}?", "[^\\x00-\\x{10FFFF}]", ".{3}"} {
						u := u
						if !c.Item(func() {
							for _, f := range []string{"%s", "(%s)", "a%s", "%sb", "a|%s", "%s|b", "(?:%s)*", "(?:%s)+", "(?:%s)?", "((%s)|a)b", "a*(b%s)?", "^%s$"} {
								s := fmt.Sprintf(f, u)
								c.States(1)
								c.Traces(1)
								re, err := syntax.Parse(s, syntax.Perl)
								if err != nil || !hasUnsupported(re) {
									c.Skip(1)
									continue
								}
								if !c.Guard(func() string { return "regexp " + s }, func() {
									p, err := rxconv.FromRegexp(s, syntax.Perl)
									if err != nil {
										c.Outcome("rejected")
										return
									}
									// a conversion is fine if it is right
									code := vm.Encode(pattern.MustCompile(p))
									want := regexp.MustCompile(s)
									for _, d := range strs("ab", 6) {
										exp := want.FindStringIndex(d)
										got, bad := findRx(&code, d)
										if bad != "" || fmt.Sprint(exp) != fmt.Sprint(got) {
											c.Violate("", "regexp %q (not supported) was accepted, and on %q: expected match %v (Go's regexp), got %v %s", s, d, exp, got, bad)
											return
										}
									}
								}) {
									return
								}
							}
							for _, s := range []string{"(", "a)", "[", "*", "a**", "(?z)", "\\8", "[b-a]", "x{2,1}"} {
								if !c.Guard(func() string { return "regexp " + s }, func() {
									if _, err := rxconv.FromRegexp(s, syntax.Perl); err == nil {
										c.Violate("", "regexp %q is malformed, but was accepted", s)
									}
								}) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
			}
		}})
}

func hasUnsupported(e *syntax.Regexp) bool {
	if e.Op == syntax.OpRepeat || e.Op == syntax.OpNoMatch {
		return true
	}
	for _, s := range e.Sub {
		if hasUnsupported(s) {
			return true
		}
	}
	return false
}
