package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// look does everything the package offers to look at a pattern without
// compiling it.
func look(p pattern.Pattern) {
	_ = pattern.Prettify(p)
	_ = pattern.CountSubPatterns(p)
	pattern.WalkPattern(p, true, func(pattern.Pattern) {})
	_ = pattern.Get(p)
}

func init() {
	extend("C04", func(th bool) []Space {
		return []Space{
			{"looked-at", fmt.Sprintf("all patterns of <=%d operators over every operator of the library, printed, walked and counted before and between compilations", pick(th, 3, 4)), func(c *Ctx) {
				docs := strs("ab", 3)
				batch(c, everything(true, true), pick(th, 3, 4), 32, nil, func(p *P) {
					refs := make([]mres, len(docs))
					for i, d := range docs {
						refs[i] = ref(p, d)
					}
					var codes []vm.Code
					if !c.Guard(func() string { return "printing and compiling " + p.String() }, func() {
						q := p.build()
						for i := 0; i < 2; i++ {
							look(q)
							prog, err := pattern.Compile(q)
							if err != nil {
								c.Violate("", "pattern: %s (after it was printed)\ncompilation failed: %v", p, err)
								return
							}
							codes = append(codes, vm.Encode(prog))
						}
					}) || c.itemViol {
						return
					}
					for i := range codes {
						if !checkCode(c, p, &codes[i], docs, refs, true, fmt.Sprintf(" [printed %d times]", i+1)) {
							return
						}
					}
				})
			}},
			{"looked-at-shared", "grammars that share the value of their start rule and define its non-terminals differently, in an enclosing grammar, or not at all: each printed or compiled (every order of 2), then every one compiled", lookedAtShared},
		}
	})
}

// lookedAtShared explores what printing or compiling one grammar does to
// others that share pattern values with it.
func lookedAtShared(c *Ctx) {
	docs := strs("ab", 4)
	bodiesA := []*P{lit("a"), lit("b"), seq(lit("a"), nt("B")), or(seq(lit("a"), nt("A")), lit("b")), opt(lit("b")), capt(lit("a"), 3)}
	bodiesB := []*P{lit("b"), opt(lit("a")), seq(lit("b"), opt(nt("A")))}
	tops := []*P{nt("A"), seq(nt("A"), nt("B")), or(seq(nt("A"), lit("a")), nt("B")), seq(opt(lit("a")), nt("A")), capt(seq(nt("A"), opt(nt("B"))), 1)}
	for _, top := range tops {
		for _, a1 := range bodiesA {
			for _, b1 := range bodiesB {
				top, a1, b1 := top, a1, b1
				if !c.Item(func() {
					for _, a2 := range bodiesA {
						for _, b2 := range bodiesB {
							specs := []*P{
								gram("S", map[string]*P{"S": top, "A": a1, "B": b1}),
								gram("S", map[string]*P{"S": top, "A": a2, "B": b2}),
								gram("T", map[string]*P{"T": gram("S", map[string]*P{"S": top, "A": a1}), "B": b2}),
								gram("T", map[string]*P{"T": gram("S", map[string]*P{"S": top}), "A": a2, "B": b1}),
								gram("S", map[string]*P{"S": top}),
								gram("S", map[string]*P{"S": top, "A": a2}),
							}
							for i := range specs {
								for j := range specs {
									for how := 0; how < 3; how++ {
										if !lookThenCompile(c, specs, i, j, how, docs) {
											return
										}
									}
								}
							}
						}
					}
				}) {
					return
				}
			}
		}
	}
}

func lookThenCompile(c *Ctx, specs []*P, i, j, how int, docs []string) bool {
	b := &builder{share: map[*P]pattern.Pattern{}}
	var qs []pattern.Pattern
	for _, s := range specs {
		qs = append(qs, b.build(s))
	}
	what := []string{"printed", "printed, compiled", "compiled, printed"}[how]
	desc := fmt.Sprintf("after number %d and %d of %v were %s", i, j, specs, what)
	ok := c.Guard(func() string { return desc }, func() {
		for _, k := range []int{i, j} {
			if how == 2 {
				pattern.Compile(qs[k])
			}
			look(qs[k])
			if how == 1 {
				pattern.Compile(qs[k])
			}
		}
		for k, q := range qs {
			prog, err := pattern.Compile(q)
			c.States(1)
			if undefinedNT(specs[k]) {
				if err == nil {
					c.Violate("", "%s: grammar number %d uses an undefined non-terminal, but was compiled", desc, k)
					return
				}
				continue
			}
			if err != nil {
				c.Violate("", "%s: grammar number %d: %v", desc, k, err)
				return
			}
			code := vm.Encode(prog)
			refs := make([]mres, len(docs))
			for n, d := range docs {
				refs[n] = ref(specs[k], d)
			}
			if !checkCode(c, specs[k], &code, docs, refs, false, " ["+desc+"]") {
				return
			}
		}
	})
	return ok && !c.itemViol
}

// undefinedNT reports whether some non-terminal of a grammar is not defined
// where it is used, looking at used rules only.
func undefinedNT(p *P) bool {
	bad := false
	var walk func(p *P, env []map[string]*P, seen map[string]bool)
	walk = func(p *P, env []map[string]*P, seen map[string]bool) {
		if p.Op == oNT {
			for i := len(env) - 1; i >= 0; i-- {
				if d, ok := env[i][p.S]; ok {
					key := fmt.Sprint(i, p.S)
					if !seen[key] {
						seen[key] = true
						walk(d, env[:i+1], seen)
					}
					return
				}
			}
			bad = true
			return
		}
		if p.Op == oGram {
			walk(p.Defs[p.S], append(env[:len(env):len(env)], p.Defs), map[string]bool{})
			return
		}
		for _, k := range p.Kids {
			walk(k, env, seen)
		}
	}
	walk(p, nil, map[string]bool{})
	return bad
}
