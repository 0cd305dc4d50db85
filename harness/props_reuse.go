package main

// Results in a memo table are used again: a memoized sub-pattern is not
// evaluated where its result is known.

import (
	"fmt"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// probed returns p with a recording checker, which is called whenever the
// evaluation starts, at the beginning of every memoized sub-pattern. probes
// lists these sub-patterns of p; the id of the checker is the index.
func probed(p *P, probes *[]*P, done map[*P]*P) *P {
	if q, ok := done[p]; ok {
		return q
	}
	q := new(P)
	*q = *p
	done[p] = q
	q.Kids = nil
	for _, k := range p.Kids {
		q.Kids = append(q.Kids, probed(k, probes, done))
	}
	if p.Defs != nil {
		q.Defs = map[string]*P{}
		for _, n := range p.defNames() {
			q.Defs[n] = probed(p.Defs[n], probes, done)
		}
	}
	if p.Op == oMemo {
		q.Kids[0] = seq(check(empty(), probeSpec, len(*probes), 0), q.Kids[0])
		*probes = append(*probes, p)
	}
	return q
}

var probeSpec = &chkSpec{Kind: "rec", Fn: func(b, rest string, id, flag int) int { return 0 }}

// reuse is the reference: the results that must be in the table, and an upper
// bound for how far each may depend on the text.
type reuse struct {
	doc      string
	th       int
	ids      map[*P]int
	claimed  map[*P]bool // repetitions that are compiled once
	sure     map[rkey]rent
	maybe    map[rkey]int // how far results that may be in the table examined
	furthest int
	allowed  map[evalAt]int
	path     []rkey // what matched, unless it was given up
	env      *scope
	steps    int
}

// rkey says where a result is for: a memoized sub-pattern, or a repetition of
// one.
type rkey struct {
	p   *P
	pos int
}

type rent struct {
	ok        bool
	len, exam int
}

type evalAt struct{ id, pos int }

func newReuse(p *P, probes []*P, th int) *reuse {
	r := &reuse{th: th, ids: map[*P]int{}, claimed: map[*P]bool{}, sure: map[rkey]rent{}, maybe: map[rkey]int{}}
	for i, m := range probes {
		r.ids[m] = i
	}
	for s, n := range compiledTimes(p) {
		r.claimed[s] = n == 1
	}
	return r
}

// compiledTimes counts how often every repetition of a memoized pattern is
// compiled at most, each time with an identity of its own.
func compiledTimes(p *P) map[*P]int {
	out := map[*P]int{}
	var rec func(p *P, env *scope, mult int, stack map[*P]bool)
	rec = func(p *P, env *scope, mult int, stack map[*P]bool) {
		switch p.Op {
		case oStar, oPlus:
			if p.Kids[0].Op == oMemo {
				out[p] += mult
			}
			if p.Op == oPlus {
				mult *= 2
			}
		case oRepeat:
			mult *= p.N
		case oGram:
			rec(p.Defs[p.S], &scope{defs: p.Defs, up: env}, mult, map[*P]bool{p.Defs[p.S]: true})
			return
		case oNT:
			d, sc := env.find(p.S)
			if d == nil || stack[d] {
				return
			}
			s := map[*P]bool{d: true}
			for k := range stack {
				s[k] = true
			}
			rec(d, sc, mult, s)
			return
		}
		for _, k := range p.Kids {
			rec(k, env, mult, stack)
		}
	}
	rec(p, nil, 1, map[*P]bool{})
	return out
}

// repeatsRule reports whether p repeats a non-terminal; whether that is
// compiled as the repetition of a memoized pattern depends on inlining.
func repeatsRule(p *P) bool {
	return anyNode(p, func(q *P) bool { return (q.Op == oStar || q.Op == oPlus) && q.Kids[0].Op == oNT })
}

func (r *reuse) saw(pos int) {
	if pos > r.furthest {
		r.furthest = pos
	}
}

// parse works out which evaluations a parse of doc may do, and what is in the
// table after it.
func (r *reuse) parse(p *P, doc string) (int, bool) {
	r.doc, r.furthest, r.steps, r.env, r.allowed, r.path = doc, 0, 0, nil, map[evalAt]int{}, nil
	return r.match(p, 0)
}

func (r *reuse) match(p *P, pos int) (int, bool) {
	n := len(r.path)
	np, ok := r.match1(p, pos)
	if !ok || p.Op == oNot {
		r.path = r.path[:n]
	}
	return np, ok
}

func (r *reuse) match1(p *P, pos int) (int, bool) {
	r.steps++
	r.saw(pos)
	switch p.Op {
	case oLit:
		for i := 0; i < len(p.S); i++ {
			r.saw(pos + i)
			if pos+i >= len(r.doc) || r.doc[pos+i] != p.S[i] {
				return 0, false
			}
		}
		return pos + len(p.S), true
	case oSet:
		if pos < len(r.doc) && p.Set[r.doc[pos]] {
			return pos + 1, true
		}
		return 0, false
	case oAny:
		r.saw(pos + p.N - 1)
		return pos + p.N, pos+p.N <= len(r.doc)
	case oEmpty:
		return pos, true
	case oSeq:
		for _, k := range p.Kids {
			var ok bool
			if pos, ok = r.match(k, pos); !ok {
				return 0, false
			}
		}
		return pos, true
	case oOr:
		for _, k := range p.Kids {
			if np, ok := r.match(k, pos); ok {
				return np, true
			}
		}
		return 0, false
	case oOpt:
		if np, ok := r.match(p.Kids[0], pos); ok {
			return np, true
		}
		return pos, true
	case oNot:
		_, ok := r.match(p.Kids[0], pos)
		return pos, !ok
	case oAnd:
		_, ok := r.match(p.Kids[0], pos)
		return pos, ok
	case oCap:
		return r.match(p.Kids[0], pos)
	case oRepeat:
		for i := 0; i < p.N; i++ {
			var ok bool
			if pos, ok = r.match(p.Kids[0], pos); !ok {
				return 0, false
			}
		}
		return pos, true
	case oSearch:
		for s := pos; s <= len(r.doc); s++ {
			if np, ok := r.match(p.Kids[0], s); ok {
				return np, true
			}
		}
		return 0, false
	case oStar, oPlus:
		first := p.Op == oPlus
		for n := 0; ; n++ {
			var np int
			var ok bool
			if k := p.Kids[0]; k.Op == oMemo && !first {
				np, ok = r.memo(p, k, pos)
			} else {
				np, ok = r.match(k, pos)
			}
			if !ok {
				return pos, n > 0 || p.Op == oStar
			}
			pos, first = np, false
			r.saw(pos)
		}
	case oMemo:
		return r.memo(p, p, pos)
	case oGram:
		save := r.env
		r.env = &scope{defs: p.Defs, up: save}
		np, ok := r.match(p.Defs[p.S], pos)
		r.env = save
		return np, ok
	case oNT:
		d, sc := r.env.find(p.S)
		save := r.env
		r.env = sc
		np, ok := r.match(d, pos)
		r.env = save
		return np, ok
	}
	panic("reuse: operator")
}

// memo matches the memoized pattern m; of is m itself or its repetition.
func (r *reuse) memo(of, m *P, pos int) (int, bool) {
	key := rkey{of, pos}
	tree := of != m
	if e, ok := r.maybe[key]; ok {
		r.saw(pos + e - 1)
	}
	if e, ok := r.sure[key]; ok {
		r.saw(pos + e.exam - 1)
		if e.ok {
			r.path = append(r.path, key)
		}
		return pos + e.len, e.ok
	}
	r.allowed[evalAt{r.ids[m], pos}]++
	np, ok := r.match(m.Kids[0], pos)
	e := rent{ok: ok, exam: r.furthest + 1 - pos + 1} // the byte after counts, too
	least := 1                                        // bytes the evaluation has examined at least
	if ok {
		e.len = np - pos
		e.exam = max(e.exam, e.len+1)
		least = e.len + 1
	}
	if tree && (!ok || !r.claimed[of]) || ok && e.len == 0 || least < r.th {
		if !(ok && e.len == 0) {
			r.maybe[key] = max(r.maybe[key], e.exam)
		}
	} else {
		r.sure[key] = e
		if ok {
			r.path = append(r.path, key)
		}
	}
	return np, ok
}

func (r *reuse) edit(e edit) {
	low, high := e.s, max(e.e, e.s+1)
	amt := len(e.ins) - (e.e - e.s)
	sure, maybe := map[rkey]rent{}, map[rkey]int{}
	keep := func(k rkey, exam int) {
		if k.pos >= e.e {
			k.pos += amt
		} else if k.pos >= low {
			return
		}
		maybe[k] = max(maybe[k], exam)
	}
	for k, x := range r.maybe {
		keep(k, x)
	}
	for k, x := range r.sure {
		switch {
		case k.pos > high:
			sure[rkey{k.p, k.pos + amt}] = x
		case k.pos+x.exam < low:
			sure[k] = x
		default:
			keep(k, x.exam)
		}
	}
	r.sure, r.maybe = sure, maybe
}

// A probe is a parser that records its evaluations, together with one that
// does not.
type probe struct {
	plain  vm.Code
	memos  map[*P]int // the identities of the memoized sub-patterns in plain
	p      *P
	probes []*P
	code   vm.Code
	log    *[]chkCall
}

func newProbe(c *Ctx, p *P) *probe {
	pr := &probe{p: p, log: &[]chkCall{}, memos: map[*P]int{}}
	q := probed(p, &pr.probes, map[*P]*P{})
	var err error
	if !c.Guard(func() string { return "compiling " + q.String() }, func() {
		pr.code, err = compileB(&builder{share: map[*P]pattern.Pattern{}, log: pr.log}, q)
		if err == nil {
			b := &builder{share: map[*P]pattern.Pattern{}}
			pr.plain, err = compileB(b, p)
			for k, v := range b.share {
				if m, ok := v.(*pattern.MemoNode); ok {
					pr.memos[k] = m.Id
				}
			}
		}
	}) {
		return nil
	}
	if err != nil {
		c.Violate("", "pattern: %s\ncompilation failed: %v", q, err)
		return nil
	}
	return pr
}

// reuseHistory parses doc twice and then again after every edit, and checks
// that no parse evaluates what it need not.
func (pr *probe) history(c *Ctx, doc string, es []edit, th int, cache *refCache) bool {
	d := doc
	step := 0
	desc := func() string {
		return fmt.Sprintf("pattern: %s\nthreshold %d, document %q, edits %v, parse %d (document now %q)", pr.p, th, clip(doc), es, step, clip(d))
	}
	good := c.Guard(desc, func() {
		tbl, plain := memo.NewTreeTable(th), memo.NewTreeTable(th)
		m := newReuse(pr.p, pr.probes, th)
		for step = 0; step < len(es)+2; step++ {
			if step > 1 {
				e := es[step-2]
				d = e.apply(d)
				tbl.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
				plain.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
				m.edit(e)
				if e.skip && step < len(es)+1 {
					continue
				}
			}
			r := cache.get(d)
			if r.undef != "" {
				c.Skip(1)
				return
			}
			*pr.log = (*pr.log)[:0]
			x := run(&pr.code, d, tbl)
			c.States(1)
			c.Traces(1)
			c.Trans(r.steps)
			if e := diff(r, x, false); e != "" {
				c.Violate("", "%s\n%s", desc(), e)
				return
			}
			if np, ok := m.parse(pr.p, d); ok != r.ok || ok && np != r.pos {
				c.Violate("", "%s\nthe reference for re-use is wrong: %v %d instead of %v", desc(), ok, np, r)
				return
			}
			got := map[evalAt]int{}
			for _, l := range *pr.log {
				at := evalAt{l.id, l.pos}
				got[at]++
				if got[at] > m.allowed[at] {
					c.Violate("", "%s\n%s was evaluated at position %d %d time(s), although its result was in the table (allowed: %d)", desc(), pr.probes[l.id], l.pos, got[at], m.allowed[at])
					return
				}
			}
			run(&pr.plain, d, plain)
			if e := pr.stored(m, plain); e != "" {
				c.Violate("", "%s\n%s", desc(), e)
				return
			}
			if cache.n++; cache.n&15 == 0 {
				c.Outcome(fmt.Sprint(len(got), len(*pr.log)))
			}
		}
	})
	return good && !c.itemViol
}

// stored checks that what matched is in the table.
func (pr *probe) stored(m *reuse, tbl *memo.TreeTable) string {
	type entry struct{ pos, len int }
	var all map[entry]bool
	for _, k := range m.path {
		e, ok := m.sure[k]
		if !ok {
			continue
		}
		if k.p.Op == oMemo {
			x, ok := tbl.Get(pr.memos[k.p], k.pos)
			if !ok {
				return fmt.Sprintf("%s matched %d bytes at position %d, but the table has no result there", k.p, e.len, k.pos)
			}
			if x.Length() != e.len {
				return fmt.Sprintf("%s matched %d bytes at position %d, but the result in the table is of %d bytes", k.p, e.len, k.pos, x.Length())
			}
			continue
		}
		if all == nil {
			all = map[entry]bool{}
			for _, x := range tbl.AllValues() {
				all[entry{x.Pos(), x.Length()}] = true
			}
		}
		if !all[entry{k.pos, e.len}] {
			return fmt.Sprintf("an item of %s matched %d bytes at position %d, but the table has no such result", k.p, e.len, k.pos)
		}
	}
	return ""
}

// reuseAll explores all histories of up to depth edits.
func reuseAll(c *Ctx, p *P, docs []string, ins []string, maxdel, depth int, ths []int) bool {
	cache := newCache(p)
	if !cache.usable(docs) {
		c.Skip(len(docs))
		return true
	}
	pr := newProbe(c, p)
	if pr == nil {
		return false
	}
	var rec func(doc, cur string, es []edit, th int) bool
	rec = func(doc, cur string, es []edit, th int) bool {
		if len(es) == depth {
			return pr.history(c, doc, es, th, cache)
		}
		for _, e := range edits(len(cur), ins, maxdel) {
			if !rec(doc, e.apply(cur), append(es[:len(es):len(es)], e), th) {
				return false
			}
		}
		return true
	}
	for _, th := range ths {
		for _, d := range docs {
			if cache.get(d).undef != "" {
				c.Skip(1)
				continue
			}
			if !rec(d, d, nil, th) {
				return false
			}
		}
	}
	c.Sample(func() string {
		return fmt.Sprintf("%s, documents %q.., edits inserting %q, depth %d", p, clip(docs[len(docs)-1]), ins, depth)
	})
	return true
}

// countTable counts look-ups.
type countTable struct {
	*memo.TreeTable
	gets int
}

func (t *countTable) Get(id, pos int) (*memo.Entry, bool) {
	t.gets++
	return t.TreeTable.Get(id, pos)
}

func log2(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

// fewLookups parses items repeated n times, then edits it, and checks that
// parsing again looks up few results.
func fewLookups(c *Ctx, p *P, item string, n int, ess [][]edit) {
	pr := newProbe(c, p)
	if pr == nil {
		return
	}
	for _, es := range ess {
		d := strings.Repeat(item, n)
		step := 0
		desc := func() string {
			return fmt.Sprintf("pattern: %s\n%q %d times, edits %v, parse %d", p, item, n, es, step)
		}
		if !c.Guard(desc, func() {
			tbl := &countTable{TreeTable: memo.NewTreeTable(0)}
			for step = 0; step < len(es)+2; step++ {
				if step > 1 {
					e := es[step-2]
					d = e.apply(d)
					tbl.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
				}
				tbl.gets = 0
				*pr.log = (*pr.log)[:0]
				x := run(&pr.code, d, tbl)
				c.States(1)
				c.Traces(1)
				c.Trans(tbl.gets)
				if !x.ok || x.pos != len(d) {
					c.Violate("", "%s\nexpected a match of %d bytes, got %s", desc(), len(d), brief(x.String()))
					return
				}
				c.Outcome(fmt.Sprint(n, step, tbl.gets, len(*pr.log)))
				if step > 0 && tbl.gets > lookupBound(n) {
					c.Violate("", "%s\n%d results were looked up, and %d items evaluated", desc(), tbl.gets, len(*pr.log))
					return
				}
			}
		}) || c.itemViol {
			return
		}
	}
}

// lookupBound is some three times what gpeg needs in the histories explored.
func lookupBound(n int) int { return 4*log2(n) + 24 }

// editPlans are ways of editing a repetition of n two-byte items many times:
// what to replace at step k.
var editPlans = []func(n, k, steps int) int{
	func(n, k, steps int) int { return 0 },
	func(n, k, steps int) int { return n },
	func(n, k, steps int) int { return n / 2 },
	func(n, k, steps int) int { return k % 2 * n },
	func(n, k, steps int) int { return k * n / steps },
	func(n, k, steps int) int { return n - k*n/steps },
	func(n, k, steps int) int { return k * 7919 % (n + 1) },
	func(n, k, steps int) int { return k % 20 * n / 20 },
}

// longHistory edits a repetition of n items many times.
func longHistory(c *Ctx, p *P, n, plan, what, steps int) {
	pr := newProbe(c, p)
	if pr == nil {
		return
	}
	d := strings.Repeat("a;", n)
	k := -1
	desc := func() string {
		return fmt.Sprintf("pattern: %s\n\"a;\" %d times, plan %d, kind of edit %d, edit %d of %d", p, n, plan, what, k, steps)
	}
	c.Guard(desc, func() {
		tbl := &countTable{TreeTable: memo.NewTreeTable(0)}
		run(&pr.code, d, tbl)
		for k = 0; k < steps; k++ {
			items := len(d) / 2
			at := editPlans[plan](items, k, steps)
			e := edit{s: 2 * at, e: 2 * at, ins: "a;"}
			if what > 0 && at < items {
				e.e += 2
			}
			if what == 2 && at < items {
				e.ins = ""
			}
			d = e.apply(d)
			tbl.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
			tbl.gets = 0
			*pr.log = (*pr.log)[:0]
			x := run(&pr.code, d, tbl)
			c.States(1)
			c.Traces(1)
			c.Trans(tbl.gets)
			if !x.ok || x.pos != len(d) {
				c.Violate("", "%s\nexpected a match of %d bytes, got %s", desc(), len(d), brief(x.String()))
				return
			}
			// the items at either side, the new one, and the end
			if tbl.gets > lookupBound(items+1) || len(*pr.log) > 6 {
				c.Violate("", "%s\n%d results were looked up, and %d items evaluated", desc(), tbl.gets, len(*pr.log))
				return
			}
			if tbl.Size() > 4*items+16 {
				c.Violate("", "%s\nthe table has %d entries for %d items", desc(), tbl.Size(), items)
				return
			}
			c.Outcome(fmt.Sprint(n, plan, what, tbl.gets))
		}
	})
}

func init() {
	register(&Property{ID: "C30",
		Assume: []string{
			"no error nodes and no checkers but the recording one inside memoized patterns",
			"the table is used with one parser, and parses are not restricted to an interval",
			"left to the implementation: results of repetitions whose rule may be compiled several times, of failed items of repetitions, and of results that may have examined fewer bytes than the threshold",
		},
		Spaces: func(th bool) []Space {
			memos := func(p *P) bool { return p.has(oMemo) && !repeatsRule(p) }
			return []Space{
				{"ops", fmt.Sprintf("all patterns of <=%d operators with memo over {'a','b',any2}; inputs over {a,b} <=3; thresholds 0 and 2; parsed twice, and after every edit that replaces <=1 bytes by <=1", pick(th, 5, 6)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), any(2)}, unary: []func(*P) *P{memoP, star, opt, not, plus, and}, binary: bBasic}
					docs := strs("ab", 3)
					batch(c, a, pick(th, 5, 6), 32, memos, func(p *P) { reuseAll(c, p, docs, []string{"", "a", "b"}, 1, 1, []int{0, 2}) })
				}},
				{"all-operators", fmt.Sprintf("all patterns of <=%d operators with memo over every operator but errors, checkers and assertions; unchanged and with every one-byte edit", pick(th, 4, 5)), func(c *Ctx) {
					a := pure()
					var leaves []*P
					for _, l := range a.leaves {
						if l.Op != oAssert && l.Op != oEmpty {
							leaves = append(leaves, l)
						}
					}
					a.leaves = leaves
					docs := strs("ab", 3)
					batch(c, a, pick(th, 4, 5), 32, func(p *P) bool { return memos(p) && !p.has(oAssert) && !p.has(oEmpty) }, func(p *P) { reuseAll(c, p, docs, []string{"", "b"}, 1, 1, []int{0}) })
				}},
				{"histories", fmt.Sprintf("all patterns of <=%d operators with memo over {'a','b'}; every history of two edits (three in thorough) of <=1 bytes; texts <=3", pick(th, 4, 4)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b")}, unary: []func(*P) *P{memoP, star, opt, not}, binary: bBasic}
					batch(c, a, 4, 4, memos, func(p *P) { reuseAll(c, p, strs("ab", 3), []string{"", "a", "b"}, 1, pick(th, 2, 3), []int{0}) })
				}},
				{"grammars", fmt.Sprintf("all grammars S,A with A memoized, bodies of <=%d and <=3 operators over {'a','b',S,A}; texts <=3, every edit of <=1 bytes", pick(th, 4, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{star, opt, memoP}, binary: bBasic}
					var as []*P
					a.upTo(3, func(p *P) bool { as = append(as, memoP(p)); return true })
					docs := strs("ab", 3)
					a.upTo(pick(th, 4, 5), func(s *P) bool {
						if !s.mentions("A") {
							return true
						}
						return c.Item(func() {
							for _, b := range as {
								if g := gram("S", map[string]*P{"S": s, "A": b}); !repeatsRule(g) && !reuseAll(c, g, docs, []string{"", "a"}, 1, 1, []int{0}) {
									return
								}
							}
						})
					})
				}},
				{"curated", "expression, parenthesis, token, statement and look-ahead grammars: all texts to a length with every edit, and longer texts with every two edits", func(c *Ctx) {
					for _, g := range []struct {
						p     *P
						alpha string
						n     int
						long  string
					}{{arithG(), "1+*()", 4, "1+(1*2)"}, {parensG(), "()", 6, "(())()()"}, {tokensG(), "a #\n", 4, "ab #a\nb"}, {stmtsG(), "ab;{}", 4, "ab;{b;}b"}, {lookG(1), "ab", 6, "aabaaab"}, {lookG(2), "ab", 6, "aabaaab"}, {lookG(3), "ab", 6, "aabaaab"}} {
						ins := []string{""}
						for _, x := range g.alpha {
							ins = append(ins, string(x))
						}
						for _, d := range strs(g.alpha, g.n) {
							g, d := g, d
							if !c.Item(func() { reuseAll(c, g.p, []string{d}, ins, 2, 1, []int{0, 2}) }) {
								return
							}
						}
						for _, e := range edits(len(g.long), ins, 2) {
							g, e := g, e
							if !c.Item(func() {
								cache := newCache(g.p)
								pr := newProbe(c, g.p)
								if pr == nil {
									return
								}
								for _, e2 := range edits(len(e.apply(g.long)), ins, pick(th, 1, 2)) {
									for _, e.skip = range []bool{false, true} {
										if !pr.history(c, g.long, []edit{e, e2}, 0, cache) {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"repetition", fmt.Sprintf("repetitions (and one-or-more, nested, in a rule) of memoized items of 1-3 bytes, up to %d items, every edit; two edits up to %d items", pick(th, 20, 40), pick(th, 7, 12)), func(c *Ctx) {
					item := memoP(capt(or(lit("a;"), lit("bb;"), lit(";")), 1))
					ins := []string{"", ";", "a;", "b", "bb;a;"}
					for _, p := range []*P{
						star(item), plus(item), capt(star(item), 2), star(seq(star(item), lit("."))), memoP(star(item)), seq(star(item), star(memoP(any(1)))),
						gram("S", map[string]*P{"S": seq(nt("L"), opt(nt("S"))), "L": or(star(seq(item, lit("."))), lit("b"))}), gram("S", map[string]*P{"S": star(memoP(or(seq(lit("("), nt("S"), lit(")")), item.Kids[0])))}),
					} {
						for n := 0; n <= pick(th, 20, 40); n++ {
							for _, unit := range []string{"a;", ";", "a;bb;"} {
								p, d := p, strings.Repeat(unit, n)
								if !c.Item(func() { reuseAll(c, p, []string{d}, ins, 3, 1, []int{0, 3}) }) {
									return
								}
								if n <= pick(th, 7, 12) && unit == "a;" {
									for _, e := range edits(len(d), ins, 2) {
										e := e
										if !c.Item(func() {
											cache := newCache(p)
											pr := newProbe(c, p)
											if pr == nil {
												return
											}
											for _, e2 := range edits(len(e.apply(d)), ins, 2) {
												if !pr.history(c, d, []edit{e, e2}, 0, cache) {
													return
												}
											}
										}) {
											return
										}
									}
								}
							}
						}
					}
				}},
				{"lookups", "repetitions of 1..20000 memoized items around powers of two: parsed again unchanged, and after edits at the start, the end, in the middle and at quarters: the results looked up are at most 4 log2 n + 24", func(c *Ctx) {
					p := star(memoP(capt(or(lit("a;"), lit("bb;"), lit(";")), 1)))
					for _, n := range []int{1, 2, 3, 7, 8, 9, 10, 31, 32, 33, 100, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 16384, 20000} {
						n := n
						if !c.Item(func() {
							var ess [][]edit
							for _, at := range []int{0, n / 4, n / 2, n * 3 / 4, n - 1} {
								ess = append(ess, []edit{{s: 2 * at, e: 2*at + 2, ins: "bb;"}}, []edit{{s: 2 * at, e: 2*at + 2, ins: ""}, {s: 2 * at, e: 2 * at, ins: ";"}}, []edit{{s: 2 * at, e: 2 * at, ins: "a;"}})
							}
							fewLookups(c, p, "a;", n, ess)
						}) {
							return
						}
					}
				}},
				{"long-histories", fmt.Sprintf("repetitions that start with 0, 10, 300 and 3000 items, edited %d times at 8 sequences of places by inserting, replacing or removing items: look-ups, evaluations and the size of the table stay small after every edit", pick(th, 400, 2000)), func(c *Ctx) {
					p := star(memoP(capt(or(lit("a;"), lit("bb;"), lit(";")), 1)))
					for _, n := range []int{0, 10, 300, 3000} {
						for plan := range editPlans {
							for what := 0; what < 3; what++ {
								n, plan, what := n, plan, what
								if !c.Item(func() { longHistory(c, p, n, plan, what, pick(th, 400, 2000)) }) {
									return
								}
							}
						}
					}
				}},
			}
		}})
}
