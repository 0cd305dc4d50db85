package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

func init() {
	extend("C02", func(th bool) []Space {
		return []Space{
			{"captured-grammars", fmt.Sprintf("CapGrammar over all pairs of rules of <=%d and <=%d operators, and over grammars of 3 rules; every rule must be captured with the id reported for it", pick(th, 4, 5), pick(th, 3, 3)), func(c *Ctx) {
				docs := strs("ab", 3)
				a := &alphabet{leaves: []*P{lit("a"), any(1), empty(), nt("S"), nt("A")}, unary: append(append([]func(*P) *P{}, uBasic...), func(p *P) *P { return capt(p, 7) }), binary: bBasic}
				grammars2(c, a, pick(th, 4, 5), pick(th, 3, 3), nil, func(g *P) { checkCapGrammar(c, g, docs) })
				small := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("S"), nt("A"), nt("B")}, unary: []func(*P) *P{opt, star}, binary: bBasic}
				var bodies []*P
				small.upTo(3, func(p *P) bool { bodies = append(bodies, p); return true })
				for _, s := range bodies {
					s := s
					if !c.Item(func() {
						for _, x := range bodies {
							for _, y := range bodies {
								if !th && len(x.Kids)+len(y.Kids)+len(s.Kids) > 3 {
									continue
								}
								checkCapGrammar(c, gram("S", map[string]*P{"S": s, "A": x, "B": y}), docs)
								if c.itemViol {
									return
								}
							}
						}
					}) {
						return
					}
				}
			}},
		}
	})
	extend("C11", func(th bool) []Space {
		return []Space{
			{"same-ids", "captures and checkers around, inside and beside repetitions of memoized items, with ids that equal the identity the repetition gets when it is compiled, or one near it; 0..6 items; parsed three times", func(c *Ctx) {
				item := capt(or(lit("a"), lit("bb")), 1)
				docs := []string{"", "a", "aa", "abb", "aaa", "abba", "aaaaaa", "abbabba"}
				for d := 0; d < 16; d++ {
					d := d
					if !c.Item(func() {
						for shape := 0; shape < 8; shape++ {
							id := memoCounter() + d
							rep := star(memoP(item))
							var p *P
							switch shape {
							case 0:
								p = capt(rep, id)
							case 1:
								p = capt(seq(rep, opt(lit("b"))), id)
							case 2:
								p = seq(capt(seq(opt(lit("a")), rep), id), opt(any(1)))
							case 3:
								p = check(rep, probeSpec, id, 0)
							case 4:
								p = star(memoP(or(seq(capt(seq(lit("a"), rep), id), lit("b")), any(1))))
							case 5:
								p = capt(capt(plus(memoP(item)), id+1), id)
							case 6:
								p = seq(and(capt(rep, id)), capt(rep, id+1))
							case 7:
								p = gram("S", map[string]*P{"S": or(seq(capt(nt("R"), id), lit("b")), capt(nt("R"), id+1)), "R": rep})
							}
							if !memoOnce(c, p, docs, []int{0, 2}) {
								return
							}
						}
					}) {
						return
					}
				}
			}},
		}
	})
	extend("C23", func(th bool) []Space {
		return []Space{
			{"must", fmt.Sprintf("MustCompile and MustCompileCap on all sequences of <=%d tokens (and pattern.MustCompile on what they yield): they panic when Compile reports an error, and return when it reports none", pick(th, 4, 5)), func(c *Ctx) {
				texts(c, tokens, pick(th, 4, 5), 2, func(s string) { checkMust(c, s) })
			}},
		}
	})
}

// checkCapGrammar checks that CapGrammar captures every rule.
func checkCapGrammar(c *Ctx, g *P, docs []string) {
	c.Guard(func() string { return "CapGrammar of the rules of " + g.String() }, func() {
		defs := map[string]pattern.Pattern{}
		for n, d := range g.Defs {
			defs[n] = d.build()
		}
		given := map[string]pattern.Pattern{}
		for n, d := range defs {
			given[n] = d
		}
		// the map of ids may hold those of another grammar
		held := map[string]int{"another": 0, g.S: 1}
		for i, n := range g.defNames() {
			if i%2 == 0 {
				held[n] = len(g.Defs) - 1 - i/2
			}
		}
		for _, pre := range []map[string]int{nil, held} {
			ids := map[string]int{}
			for k, v := range pre {
				ids[k] = v
			}
			p := pattern.CapGrammar(g.S, defs, ids)
			for n, d := range given {
				if defs[n] != d || len(defs) != len(given) {
					c.Violate("", "rules: %s\nCapGrammar changed the rules it was given: %s is %v", g, n, defs[n])
					return
				}
			}
			for n := range pre {
				if _, ok := g.Defs[n]; !ok {
					delete(ids, n)
				}
			}
			var want *P
			if e := capRules(g, ids, &want); e != "" {
				c.Violate("", "rules: %s\nCapGrammar, with a map that holds %v: %s", g, pre, e)
				return
			}
			refs := make([]mres, len(docs))
			some := false
			for i, d := range docs {
				refs[i] = ref(want, d)
				some = some || refs[i].undef == ""
			}
			if !some {
				c.Skip(len(docs))
				return
			}
			prog, err := pattern.Compile(p)
			if err != nil {
				c.Violate("", "rules: %s\nCapGrammar: compilation failed: %v", g, err)
				return
			}
			code := vm.Encode(prog)
			checkCode(c, want, &code, docs, refs, true, fmt.Sprintf(" [CapGrammar of %s, ids %v]", g, ids))
			if c.itemViol {
				return
			}
		}
	})
}

// panicOf returns what fn panicked with, as an error text, or "".
func panicOf(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			msg = fmt.Sprint(r)
		}
	}()
	fn()
	return ""
}

func checkMust(c *Ctx, text string) {
	c.States(1)
	c.Trans(1)
	c.Guard(func() string { return fmt.Sprintf("PEG text: %q", text) }, func() {
		cmp := func(what string, err error, fn func()) bool {
			msg := panicOf(fn)
			if (err == nil) != (msg == "") {
				c.Violate("", "PEG text: %q\n%s: the error is %v, but it panicked with %q", text, what, err, msg)
				return false
			}
			return true
		}
		p, err := re.Compile(text)
		if !cmp("re.MustCompile", err, func() { re.MustCompile(text) }) {
			return
		}
		_, err2 := re.CompileCap(text, map[string]int{})
		if !cmp("re.MustCompileCap", err2, func() { re.MustCompileCap(text, map[string]int{}) }) {
			return
		}
		if err != nil {
			c.Outcome(err.Error())
			return
		}
		_, err = pattern.Compile(p)
		if cmp("pattern.MustCompile", err, func() { pattern.MustCompile(p) }) {
			c.Traces(1)
		}
	})
}
