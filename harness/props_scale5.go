package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// More spaces of many, deep and extreme things: operands, rules, intervals,
// captures within one result, and keys.

// manySizes are numbers of operands, rules or levels.
func manySizes(th bool) []int {
	out := []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 15, 16, 17, 18, 24, 31, 32, 33, 34, 48, 63, 64, 65, 66, 100, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300}
	if th {
		out = append(out, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025, 2048)
	}
	return out
}

// operandLists are lists of n operands over {a, b} in which order and overlap
// matter.
func operandLists(n int) map[string][]*P {
	words := strs("ab", 3)[1:]
	singles := []*P{lit("a"), lit("b"), set("a"), set("b"), set("ab"), nset("a"), any(1)}
	out := map[string][]*P{}
	for r := 0; r < len(words); r += 3 {
		var fw, bw []*P
		for i := 0; i < n; i++ {
			w := words[(r+i)%len(words)]
			fw = append(fw, lit(w))
			bw = append([]*P{lit(w)}, bw...)
		}
		out[fmt.Sprintf("words from %d", r)] = fw
		out[fmt.Sprintf("words back to %d", r)] = bw
	}
	var rare, pre, cls, mixed, caps, preds []*P
	for i := 0; i < n; i++ {
		if i == n-1 {
			rare = append(rare, lit("ab"))
		} else {
			rare = append(rare, lit(fmt.Sprintf("a%c", 'c'+i%20)))
		}
		pre = append(pre, lit(strings.Repeat("a", 1+i%4)))
		cls = append(cls, singles[i%len(singles)])
		if i%2 == 0 {
			mixed = append(mixed, lit(words[i%len(words)]))
		} else {
			mixed = append(mixed, singles[i%len(singles)])
		}
		caps = append(caps, capt(lit(words[(i*5)%len(words)]), i))
		if i%3 == 0 {
			preds = append(preds, seq(not(lit(words[i%len(words)])), any(1)))
		} else {
			preds = append(preds, opt(lit(words[(i*3)%len(words)])))
		}
	}
	out["one that matches last"], out["prefixes"], out["classes"], out["mixed"], out["captures"], out["predicates"] = rare, pre, cls, mixed, caps, preds
	return out
}

func sortedKeys[T interface{}](m map[string]T) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i; j > 0 && ks[j] < ks[j-1]; j-- {
			ks[j], ks[j-1] = ks[j-1], ks[j]
		}
	}
	return ks
}

func manyOperands(c *Ctx, th bool, wrap func(p *P, n int) []*P, docs []string) {
	for _, n := range manySizes(th) {
		n := n
		if !c.Item(func() {
			ls := operandLists(n)
			for _, k := range sortedKeys(ls) {
				for _, p := range wrap(or(ls[k]...), n) {
					if !checkPattern(c, p, docs, true) {
						return
					}
				}
				long := []string{"", "a", strings.Repeat("a", n), strings.Repeat("ab", n), strings.Repeat("ba", n), strings.Repeat("aab", n)}
				// a document that the whole sequence matches, and one a byte short
				full := ""
				for _, o := range ls[k] {
					switch {
					case o.Op == oLit:
						full += o.S
					case o.Op == oCap:
						full += o.Kids[0].S
					case o == ls["classes"][1]:
						full += "b"
					default:
						full += "b"
					}
				}
				long = append(long, full, full+"a")
				if full != "" {
					long = append(long, full[:len(full)-1], "b"+full[1:])
				}
				for _, p := range wrap(seq(ls[k]...), n) {
					if !checkPattern(c, p, long, true) {
						return
					}
				}
			}
		}) {
			return
		}
	}
}

func init() {
	extend("C01", func(th bool) []Space {
		return []Space{
			{"many-operands", fmt.Sprintf("choices and sequences of n operands (words in several orders, prefixes of each other, classes, captures, predicates, mixed), n up to %d: alone, repeated, captured, under a predicate, followed by more, on every input <=4 and on long ones", pick(th, 300, 2048)), func(c *Ctx) {
				manyOperands(c, th, func(p *P, n int) []*P {
					return []*P{p, seq(star(p), capt(opt(any(1)), 1)), capt(p, 2), seq(not(p), any(1)), seq(opt(p), lit("b")), seq(p, p)}
				}, strs("ab", 4))
			}},
			{"deep-operators", "every operator applied n times to every leaf, alone and in turn with another, n up to 60, on every input <=4", func(c *Ctx) {
				un := []func(*P) *P{star, plus, opt, not, and, func(p *P) *P { return capt(p, 3) }, func(p *P) *P { return repeat(p, 2) }, memoP, func(p *P) *P { return seq(lit("a"), p) }, func(p *P) *P { return or(lit("a"), p) }, func(p *P) *P { return seq(p, lit("b")) }, func(p *P) *P { return or(p, lit("b")) }}
				docs := strs("ab", 4)
				for _, n := range []int{4, 5, 6, 7, 8, 9, 15, 16, 17, 31, 32, 33, 60} {
					for i := range un {
						i, n := i, n
						if !c.Item(func() {
							for j := range un {
								if (i == 6 || j == 6 || i == 1 || j == 1) && n > 6 {
									continue // the size of the program doubles each time
								}
								for _, l := range []*P{lit("a"), lit("ab"), set("ab"), any(1), empty()} {
									p := l
									for k := 0; k < n; k++ {
										if k%2 == 0 {
											p = un[i](p)
										} else {
											p = un[j](p)
										}
									}
									if !checkPattern(c, p, docs, true) {
										return
									}
								}
							}
						}) {
							return
						}
					}
				}
			}},
		}
	})

	extend("C05", func(th bool) []Space {
		return []Space{
			{"many-alternatives", "searches for a choice or sequence of n operands, n up to 300, alone, captured and repeated, on every input <=4 and on long ones", func(c *Ctx) {
				docs := strs("ab", 4)
				manyOperands(c, th, func(p *P, n int) []*P {
					return []*P{search(p), star(seq(search(capt(p, 1)), opt(any(1)))), seq(search(seq(p, lit("b"))), p)}
				}, docs)
			}},
		}
	})

	extend("C02", func(th bool) []Space {
		return []Space{
			{"many-capture-rules", "CapGrammar of n rules, n up to 1000: a choice of all, a sequence of all, a chain, a tree, and rules that call the next two: every rule is captured under its own id", func(c *Ctx) {
				name := func(i int) string { return fmt.Sprintf("r%d", i) }
				for _, n := range append(manySizes(th), 400, 513, 1000) {
					n := n
					if !c.Item(func() {
						withSteps(1<<22, func() {
							word := func(i int) string { return fmt.Sprintf("%03x", i) }
							defs := map[string]*P{}
							var alts, all []*P
							var sb strings.Builder
							for i := 0; i < n; i++ {
								defs[name(i)] = lit(word(i))
								alts = append(alts, nt(name(i)))
								all = append(all, nt(name(i)))
								sb.WriteString(word(i))
							}
							defs["S"] = star(or(alts...))
							docs := []string{sb.String(), word(n-1) + word(0), word(n / 2)}
							checkCapGrammar(c, gram("S", defs), docs)
							defs["S"] = seq(all...)
							checkCapGrammar(c, gram("S", defs), append(docs, sb.String()[:3*n-1]))
							defs = map[string]*P{}
							for i := 0; i < n; i++ {
								if i == n-1 {
									defs[name(i)] = lit("b")
								} else {
									defs[name(i)] = seq(lit("a"), nt(name(i+1)), opt(lit("c")))
								}
							}
							checkCapGrammar(c, gram("r0", defs), []string{xsOf('a', n-1) + "b" + xsOf('c', n/2), xsOf('a', n-1) + "b", xsOf('a', n-2) + "b"})
							defs = map[string]*P{}
							for i := 0; i < n; i++ {
								switch l, r := 2*i+1, 2*i+2; {
								case r < n:
									defs[name(i)] = or(seq(lit("a"), nt(name(l))), seq(lit("b"), nt(name(r))), lit("c"))
								case l < n:
									defs[name(i)] = or(seq(lit("a"), nt(name(l))), lit("c"))
								default:
									defs[name(i)] = lit("c")
								}
							}
							checkCapGrammar(c, gram("r0", defs), []string{"c", "ac", "bc", "abac", "bbbbbbbbbc", "aaaaaaaaac", "abababac", "bbabbaac"})
						})
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C12", func(th bool) []Space {
		return []Space{
			{"extreme-intervals", fmt.Sprintf("all patterns of <=%d operators with captures, memoized and not, on every input <=%d: every interval between 20 edges from the smallest to the largest integer, with no table, a fresh one and a used one", pick(th, 3, 4), pick(th, 2, 3)), func(c *Ctx) {
				at := []int{math.MinInt, math.MinInt + 1, math.MinInt32, -65537, -2, -1, 0, 1, 2, 3, 4, 255, 32767, 32768, 65536, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt/2 + 1, math.MaxInt - 1, math.MaxInt}
				a := alphabet{
					leaves: []*P{lit("a"), set("ab"), empty(), nt("R")},
					unary:  []func(*P) *P{star, opt, and, func(p *P) *P { return capt(p, 1) }, memoP, func(p *P) *P { return capt(memoP(capt(p, 2)), 3) }},
					binary: []func(p, q *P) *P{func(p, q *P) *P { return seq(p, q) }, func(p, q *P) *P { return or(p, q) }},
				}
				batch(c, &a, pick(th, 3, 4), 4, nil, func(p *P) {
					g := gram("S", map[string]*P{"S": p, "R": capt(memoP(or(seq(lit("b"), opt(nt("R"))), capt(lit("a"), 5))), 4)})
					code, ok := compileShared(c, g)
					if !ok {
						return
					}
					for _, d := range strs("ab", pick(th, 2, 3)) {
						d := d
						r := ref(g, d)
						if r.undef != "" {
							c.Skip(1)
							continue
						}
						if !c.Guard(func() string { return fmt.Sprintf("pattern %s on %q", g, d) }, func() {
							used := memo.NewTreeTable(0)
							for i, lo := range at {
								for _, hi := range at[i:] {
									iv := vm.Interval{Low: lo, High: hi}
									if !checkInterval(c, g, &code, d, r, iv, memo.NoneTable{}, "") {
										return
									}
									if !p.has(oMemo) && !p.has(oNT) {
										continue
									}
									if !checkInterval(c, g, &code, d, r, iv, memo.NewTreeTable(0), " with a fresh table") || !checkInterval(c, g, &code, d, r, iv, used, " with a used table") {
										return
									}
								}
							}
						}) || c.itemViol {
							return
						}
					}
				})
			}},
		}
	})

	deepLen := func(n, shape int) int {
		switch shape {
		case 0:
			return 1
		case 2:
			return n
		}
		return n + 1
	}
	moved := func(th bool) Space {
		return Space{"moved-captures", fmt.Sprintf("a memoized result with n captures (nested, growing at either side, side by side, both, or each level memoized), n up to %d, behind memoized items: parses, then every sequence of %d edits before, after and inside it", pick(th, 300, 1025), pick(th, 2, 3)), func(c *Ctx) {
			for _, n := range manySizes(th) {
				if n > 1100 {
					continue
				}
				for shape := 0; shape < 5; shape++ {
					n, shape := n, shape
					if !c.Item(func() {
						w := strings.Repeat("a", deepLen(n, shape))
						p := star(or(memoP(deepCaps(n, shape)), capt(memoP(lit("x")), 9), any(1)))
						cache := newCache(p)
						code, ok := compileShared(c, p)
						if !ok {
							return
						}
						doc := "x" + w + "x" + w + "."
						at := []int{0, 1, 1 + len(w)/2, 1 + len(w), 2 + len(w)}
						var es []edit
						for _, s := range at {
							es = append(es, edit{s: s, e: s, ins: "x"}, edit{s: s, e: s + 1}, edit{s: s, e: s, ins: "xxx"})
						}
						var rec func(pre []edit, d int) bool
						rec = func(pre []edit, d int) bool {
							for _, e := range es {
								h := append(append([]edit{}, pre...), e)
								if d > 1 {
									if !rec(h, d-1) {
										return false
									}
									continue
								}
								if !history(c, p, &code, doc, h, 0, cache) {
									return false
								}
							}
							return true
						}
						depth := pick(th, 2, 3)
						if n > 70 {
							depth--
						}
						rec(nil, depth)
					}) {
						return
					}
				}
			}
		}}
	}
	extend("C10", func(th bool) []Space { return []Space{moved(th)} })

	extend("C14", func(th bool) []Space {
		return []Space{
			{"deep-captures", fmt.Sprintf("a result whose captures are nested or side by side n deep or wide, real ones and grouping ones in turn, n up to %d, shared with another result or not, before and after edits that move it", pick(th, 3000, 70000)), func(c *Ctx) {
				for _, n := range append(manySizes(th), 1000, 3000, pick(th, 3000, 20000), pick(th, 3000, 70000)) {
					n := n
					for shape := 0; shape < 6; shape++ {
						shape := shape
						if !c.Item(func() {
							for _, start := range []int{0, 1, 5, 1000} {
								if !deepEntry(c, n, shape, start) {
									return
								}
							}
						}) {
							return
						}
					}
				}
			}},
			{"keys", "a table with a result of its own length for every id of -300..300 and every edge of 16 and 32 bits at 1..4 places, and every lookup after an edit before, between and after them", func(c *Ctx) {
				ids := keyIds(th)
				for _, places := range [][]int{{0}, {7}, {0, 1}, {3, 255, 256, 70000}} {
					places := places
					if !c.Item(func() {
						c.Guard(func() string { return fmt.Sprint("ids -300..300 and edges at ", places) }, func() {
							for _, ed := range []memo.Edit{{Start: -1}, {Start: 0, End: 0, Len: 1}, {Start: 2, End: 2, Len: 5}, {Start: 8, End: 9}, {Start: 200, End: 200, Len: 300}, {Start: 200, End: 204, Len: 1}} {
								x := &tmodel{t: memo.NewTreeTable(0)}
								for i, id := range ids {
									for j, p := range places {
										x.put(top{kind: 'p', id: id, start: p, length: 1 + (i*len(places)+j)%97, exam: 1, caps: i % 3})
									}
								}
								if ed.Start >= 0 {
									x.edit(ed)
								}
								seen := map[[2]int][]*tval{}
								for _, v := range x.vals {
									k := [2]int{v.id, v.start}
									seen[k] = append(seen[k], v)
								}
								all := append([]*tval{}, x.vals...)
								for _, v := range all {
									if x.bad == "" {
										x.vals = seen[[2]int{v.id, v.start}] // the model looks at all results otherwise
										x.get(v.id, v.start)
									}
								}
								x.vals = all
								for _, id := range []int{301, -301, 1<<14 - 301, 12345, 1 << 40, -(1 << 40) - 1} {
									for _, p := range places {
										if e, ok := x.t.Get(id, p); ok && x.bad == "" {
											x.bad = fmt.Sprintf("Get(%d, %d) found entry number %d, but nothing was stored there", id, p, e.Count())
										}
									}
								}
								c.States(1)
								c.Traces(1)
								c.Trans(2 * len(all))
								c.Outcome(fmt.Sprint(places, ed, len(all)))
								if x.bad != "" {
									c.Violate("", "a result for every id of -300..300 and edges, at %v, then ApplyEdit %v: %s", places, ed, x.bad)
									return
								}
							}
						})
					}) {
						return
					}
				}
			}},
		}
	})

	extend("C13", func(th bool) []Space {
		return []Space{
			{"keys", "maps with a value of its own length for every id of -300..300 and every edge of 16, 32 and 64 bits at 1..3 places, on each kind of map; lookups before and after a shift", func(c *Ctx) {
				ids := append(keyIds(th), 1<<62, 1<<62+1, -(1 << 62), math.MaxInt, math.MinInt, math.MaxInt-1)
				for kind := range imapKinds {
					for _, places := range [][]int{{0}, {7}, {0, 1}, {3, 255, 256}} {
						kind, places := kind, places
						if !c.Item(func() {
							ids := ids
							if kind == 2 && !th { // a lookup takes linear time there
								ids = ids[len(ids)/2:]
							}
							c.Guard(func() string { return fmt.Sprint(imapKinds[kind].name, ": ids -300..300 and edges at ", places) }, func() {
								for _, amt := range []int{0, 5, 300} {
									for _, from := range []int{0, 1, 5, 256} {
										m := imapKinds[kind].mk()
										type val struct {
											id, pos, n int
											h          interface{ Pos() int }
										}
										var vals []val
										for i, id := range ids {
											for j, p := range places {
												v := val{id: id, pos: p, n: len(vals)}
												v.h = m.Add(id, p, p+1+(i*len(places)+j)%97, v.n)
												vals = append(vals, v)
											}
										}
										if amt > 0 {
											m.RemoveAndShift(-1000, -999, 0)
											// move everything by amt from the first place on, nothing is removed
											m.RemoveAndShift(places[0]-1-from, places[0]-1-from+1-1, amt)
											for i := range vals {
												vals[i].pos += amt
											}
										}
										for _, v := range vals {
											if got := m.FindLargest(v.id, v.pos); got != v.n {
												c.Violate("", "%s: values for every id of -300..300 and edges at %v, moved by %d: FindLargest(%d, %d) is %v, expected %d", imapKinds[kind].name, places, amt, v.id, v.pos, got, v.n)
												return
											}
											if p := v.h.Pos(); p != v.pos {
												c.Violate("", "%s: values for every id of -300..300 and edges at %v, moved by %d: the handle of value %d (id %d) says %d, expected %d", imapKinds[kind].name, places, amt, v.n, v.id, p, v.pos)
												return
											}
										}
										if m.Size() != len(vals) {
											c.Violate("", "%s: %d values at %v: Size is %d", imapKinds[kind].name, len(vals), places, m.Size())
											return
										}
										c.States(1)
										c.Traces(1)
										c.Trans(2 * len(vals))
										c.Outcome(fmt.Sprint(kind, places, amt))
									}
								}
							})
						}) {
							return
						}
					}
				}
			}},
		}
	})
}

func xsOf(b byte, n int) string { return strings.Repeat(string([]byte{b}), max(n, 0)) }

func keyIds(th bool) []int {
	var ids []int
	for i := -300; i <= 300; i++ {
		ids = append(ids, i)
	}
	for _, b := range []int{1 << 9, 1 << 10, 1 << 12, 1 << 13, 1 << 14, 1 << 15, 1 << 16, 1 << 17, 1 << 20, 1 << 24, 1 << 31, 1 << 32, 1 << 33} {
		for d := -2; d <= 2; d++ {
			ids = append(ids, b+d, -b+d)
		}
	}
	return ids
}

// deepEntry stores a result with many captures, moves it, and looks at all of
// them.
func deepEntry(c *Ctx, n, shape, start int) bool {
	return c.Guard(func() string { return fmt.Sprintf("result at %d with %d captures, shape %d", start, n, shape) }, func() {
		type want struct {
			c   *memo.Capture
			rel int
			len int
		}
		var all []want
		var top []*memo.Capture
		length := n + 1
		mk := func(dummy bool, i, rel, ln int, kids []*memo.Capture) *memo.Capture {
			var x *memo.Capture
			if dummy {
				x = memo.NewCaptureDummy(start+rel, ln, kids)
			} else {
				x = memo.NewCaptureNode(i, start+rel, ln, kids)
			}
			all = append(all, want{x, rel, ln})
			return x
		}
		switch shape {
		case 0, 1, 2, 3: // nested: real, grouping in turn, with a sibling at each level, all grouping but the last
			var in []*memo.Capture
			for i := 0; i < n; i++ {
				rel := n - i
				x := mk(shape == 1 && i%2 == 1 || shape == 3 && i > 0, i, rel, i+1, in)
				in = []*memo.Capture{x}
				if shape == 2 {
					in = []*memo.Capture{mk(false, n+i, rel-1, 1, nil), x}
				}
			}
			top = in
		case 4: // side by side
			for i := 0; i < n; i++ {
				top = append(top, mk(false, i, i, 1, nil))
			}
		case 5: // below one
			var in []*memo.Capture
			for i := 0; i < n; i++ {
				in = append(in, mk(i%3 == 2, i, i, 1, nil))
			}
			top = []*memo.Capture{mk(false, n, 0, n, in)}
		}
		t := memo.NewTreeTable(0)
		t.Put(0, start, length, length, 1, top)
		// and below another result
		t.Put(1, start, length, length+1, 2, []*memo.Capture{memo.NewCaptureNode(n+n, start, length, top)})
		at, bad := start, ""
		look := func(how string) {
			for id := 0; id < 2; id++ {
				e, ok := t.Get(id, at)
				if !ok {
					bad = fmt.Sprintf("%s: Get(%d, %d) found nothing", how, id, at)
					return
				}
				if e.Pos() != at {
					bad = fmt.Sprintf("%s: the position of the entry is %d, expected %d", how, e.Pos(), at)
					return
				}
			}
			for i, w := range all {
				if w.c.Start() != at+w.rel || w.c.End() != at+w.rel+w.len || w.c.Len() != w.len {
					bad = fmt.Sprintf("%s: the result is at %d, but capture %d of %d covers [%d,%d), expected [%d,%d)", how, at, i, len(all), w.c.Start(), w.c.End(), at+w.rel, at+w.rel+w.len)
					return
				}
			}
		}
		look("after Put")
		moves := []memo.Edit{{Start: 0, End: 0, Len: 7}, {Start: 0, End: 1, Len: 0}, {Start: 1, End: 3, Len: 300}, {Start: 2, End: 202, Len: 0}}
		for i, e := range moves {
			if bad != "" {
				break
			}
			if at <= max(e.End, e.Start+1) { // removed or touched
				continue
			}
			t.ApplyEdit(e)
			at += e.Len - (e.End - e.Start)
			look(fmt.Sprintf("after edit %d (%v)", i, e))
		}
		c.States(1)
		c.Traces(1)
		c.Trans(len(all))
		c.Outcome(fmt.Sprint(n, shape, start))
		if bad != "" {
			c.Violate("", "result at %d with %d captures, shape %d: %s", start, len(all), shape, bad)
		}
	}) && !c.itemViol
}

func init() {
	extend("C30", func(th bool) []Space {
		return []Space{
			{"big-results", fmt.Sprintf("memoized results with n captures, n nested or neighbouring results, n bytes, or n bytes of look-ahead, and failures after n bytes, n up to %d; many memoized patterns tried at one place: parsed twice and after edits before, after and within them", pick(th, 300, 1025)), func(c *Ctx) {
				for _, n := range manySizes(th) {
					if n > 1100 {
						continue
					}
					n := n
					var many, tries []*P
					for i := 0; i < n; i++ {
						many = append(many, memoP(capt(lit("a"), i)))
						tries = append(tries, memoP(seq(star(set("a")), lit(fmt.Sprint(i)))))
					}
					tries = append(tries, memoP(seq(capt(plus(set("a")), 1), lit("b"))))
					nest := lit("a")
					for i := 1; i < min(n, 130); i++ { // its size makes the enumeration of each level quadratic
						nest = memoP(seq(lit("a"), capt(nest, i)))
					}
					as := strings.Repeat("a", n)
					for _, x := range []struct {
						p *P
						d string
					}{
						{seq(memoP(star(capt(lit("a"), 1))), lit("b")), as + "b"},
						{star(memoP(seq(plus(capt(set("a"), 1)), lit("b")))), as + "b" + as + "b"},
						{or(seq(memoP(star(capt(seq(capt(lit("a"), 1)), 2))), lit("c")), seq(star(set("a")), lit("b"))), as + "b"},
						{or(seq(memoP(deepCaps(min(n, 300), 3)), lit("c")), star(or(memoP(deepCaps(min(n, 300), 3)), any(1)))), strings.Repeat("a", 2*n) + "b"},
						{seq(many...), as},
						{seq(or(tries...), opt(or(tries...))), as + "b"},
						{seq(nest, lit("b")), as[:min(n, 130)] + "b"},
						{seq(memoP(seq(lit("a"), and(star(set("a"))))), star(memoP(set("ab")))), as + "b"},
						{or(memoP(seq(plus(set("a")), lit("c"))), memoP(seq(plus(set("a")), lit("b")))), as + "b"},
					} {
						x := x
						if !c.Item(func() {
							cache := newCache(x.p)
							pr := newProbe(c, x.p)
							if pr == nil {
								return
							}
							l := len(x.d)
							var es []edit
							for _, s := range []int{0, l / 2, l - 1, l} {
								es = append(es, edit{s: s, e: s, ins: "a"}, edit{s: s, e: s, ins: "b"})
								if s < l {
									es = append(es, edit{s: s, e: s + 1})
								}
							}
							for _, e := range es {
								for _, t := range []int{0, n} {
									if !pr.history(c, x.d, []edit{e}, t, cache) {
										return
									}
								}
								if n <= 33 || th && n <= 130 {
									for _, e2 := range es {
										if e2.e <= len(e.apply(x.d)) && !pr.history(c, x.d, []edit{e, e2}, 0, cache) {
											return
										}
									}
								}
							}
						}) {
							return
						}
					}
				}
			}},
		}
	})

	extend("C13", func(th bool) []Space {
		return []Space{
			{"many-shifts", fmt.Sprintf("maps of k values, k up to 33, shifted n times (n up to %d, in 6 patterns of place and amount) with a lookup, an addition, a handle or nothing after every 1st, 7th, 64th or 1000th shift, at 4 places; then everything", pick(th, 5000, 70000)), func(c *Ctx) {
				ns := []int{10, 63, 64, 65, 127, 128, 129, 199, 200, 201, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000}
				if th {
					ns = append(ns, 10000, 32767, 32768, 65535, 65536, 65537, 70000)
				}
				for kind := range imapKinds {
					for _, k := range []int{1, 2, 7, 33} {
						for _, n := range ns {
							kind, k, n := kind, k, n
							if k > 10 && n > 5000 {
								continue
							}
							if !c.Item(func() {
								for plan := 0; plan < 6; plan++ {
									for _, every := range []int{0, 1, 7, 64, 1000} {
										for what := 0; what < 4; what++ {
											if every == 0 && what > 0 || n > 1100 && every > 0 && (plan+what+every)%4 != 0 {
												continue
											}
											if !manyShifts(c, kind, k, n, plan, every, what) {
												return
											}
										}
									}
								}
							}) {
								return
							}
						}
					}
				}
			}},
		}
	})

	extend("C23", func(th bool) []Space {
		return []Space{
			{"names", "rule names of every byte, every two of 40 bytes, and 30 longer ones: defined, missing, missing next to one that is defined, under each operator", func(c *Ctx) {
				var names []string
				for b := 0; b < 256; b++ {
					names = append(names, string([]byte{byte(b)}), string([]byte{byte(b), 'x'}), string([]byte{'x', byte(b)}))
				}
				for a := ' '; a < 'I'; a++ {
					for b := ' '; b < 'I'; b++ {
						names = append(names, string([]byte{byte(a), byte(b)}))
					}
				}
				for _, n := range []int{7, 8, 9, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 70000} {
					names = append(names, xsOf('n', n), xsOf('n', n-1)+"m")
				}
				names = append(names, "", "search", "S", "start", "end", "_", "__", "Grammar", "EOF", "\u00e9", "\U0001f600", "nil", "<nil>", "a b", "a.b", "a/b", "$1")
				wraps := []func(*P) *P{star, plus, opt, not, and, memoP, search, func(p *P) *P { return capt(p, 1) }, func(p *P) *P { return seq(lit("a"), p) }, func(p *P) *P { return or(lit("a"), p) }, func(p *P) *P { return p }}
				for i := range names {
					n := names[i]
					if n == "T" || n == "S" || len(n) == 7 && n[0] == 0 {
						continue
					}
					if !c.Item(func() {
						other := n + "y"
						if len(n) > 0 {
							other = n[:len(n)-1] + string([]byte{n[len(n)-1] ^ 1})
						}
						if other == "S" || other == "T" {
							other += "y"
						}
						for _, w := range wraps {
							use := w(nt(n))
							if !checkMissing(c, use) || !checkMissing(c, seq(lit("a"), use)) {
								return
							}
							for _, defs := range []map[string]*P{
								{"S": use}, {"S": use, n: lit("a")}, {"S": use, other: lit("a")}, {"S": use, other: lit("a"), n: lit("b")},
								{"S": nt("T"), "T": seq(lit("a"), use)}, {"S": seq(nt("T"), use), "T": lit("b"), n: seq(lit("b"), nt(other))},
							} {
								if !checkMissing(c, gram("S", defs)) || !checkMissing(c, capt(gram("S", defs), 1)) {
									return
								}
							}
							if !checkMissing(c, gram(n, map[string]*P{"S": lit("a")})) || !checkMissing(c, gram(n, map[string]*P{"S": lit("a"), n: nt("S")})) {
								return
							}
						}
						// and what is defined is what is meant
						checkPattern(c, gram("S", map[string]*P{"S": seq(nt(n), opt(nt(other))), n: capt(lit("a"), 1), other: capt(lit("b"), 2)}), []string{"", "a", "b", "ab", "ba", "aa"}, false)
						checkPattern(c, gram(n, map[string]*P{n: seq(lit("a"), opt(nt(n)), nt(other)), other: lit("b")}), []string{"ab", "aabb", "aab", "ba"}, false)
					}) {
						return
					}
				}
			}},
		}
	})
}

// manyShifts shifts a map of k values n times.
func manyShifts(c *Ctx, kind, k, n, plan, every, what int) bool {
	step := 0
	desc := func() string {
		return fmt.Sprintf("%s: %d values, %d shifts by plan %d, every %d followed by action %d, at shift %d", imapKinds[kind].name, k, n, plan, every, what, step)
	}
	return c.Guard(desc, func() {
		m := imapKinds[kind].mk()
		type val struct {
			pos, n int
			h      interface{ Pos() int }
		}
		var vals []*val
		add := func(pos int) {
			v := &val{pos: pos, n: len(vals)}
			v.h = m.Add(v.n%5, pos, pos+2, v.n)
			vals = append(vals, v)
		}
		for i := 0; i < k; i++ {
			add(100 + 2000*((i*5)%k))
		}
		look := func(v *val) bool {
			if got := m.FindLargest(v.n%5, v.pos); got != v.n {
				c.Violate("", "%s: FindLargest(%d, %d) is %v, expected %d", desc(), v.n%5, v.pos, got, v.n)
				return false
			}
			return true
		}
		handle := func(v *val) bool {
			if p := v.h.Pos(); p != v.pos {
				c.Violate("", "%s: the handle of value %d says %d, expected %d", desc(), v.n, p, v.pos)
				return false
			}
			return true
		}
		for step = 0; step < n; step++ {
			at, amt := 0, 1
			v := vals[(step*5)%k]
			switch plan {
			case 1: // there and back
				if amt = 3; step%2 == 1 {
					amt = -3
				}
			case 2: // before one value after the other
				at = v.pos - 10
			case 3: // before some value, there and back
				at, amt = vals[k/2].pos-20, 5
				if step%2 == 1 {
					amt = -5
				}
			case 4: // at the front, far
				amt = 1 << 20
			case 5: // behind all
				at = 1 << 60
			}
			m.RemoveAndShift(at-1, at-1, 0) // nothing is there
			m.RemoveAndShift(at, at, amt)
			for _, v := range vals {
				if v.pos >= at {
					v.pos += amt
				}
			}
			if every > 0 && step%every == every-1 {
				v := vals[(step/every)%len(vals)]
				ok := true
				switch what {
				case 0:
					ok = look(v)
				case 1:
					ok = handle(v)
				case 2:
					ok = look(vals[0]) && look(vals[k-1])
				case 3:
					if len(vals) < k+20 {
						add(1<<40 + 1000*len(vals)) // behind all others
					}
				}
				if !ok {
					return
				}
			}
		}
		for i := range vals {
			v := vals[(i*3)%len(vals)]
			if len(vals)%3 == 0 {
				v = vals[len(vals)-1-i]
			}
			if i%2 == 0 && !handle(v) || !look(v) || !handle(v) {
				return
			}
		}
		if s := m.Size(); s != len(vals) {
			c.Violate("", "%s: Size is %d, expected %d", desc(), s, len(vals))
			return
		}
		c.States(1)
		c.Traces(1)
		c.Trans(n)
		c.Outcome(fmt.Sprint(kind, k, n, plan, every, what))
	}) && !c.itemViol
}

// deepCaps is a pattern with n captures that matches only a.
func deepCaps(n, shape int) *P {
	p := lit("a")
	switch shape {
	case 0: // nested
		for i := 0; i < n; i++ {
			p = capt(p, i)
		}
	case 1: // nested, each level one byte longer at either side
		for i := 0; i < n; i++ {
			if i%2 == 0 {
				p = capt(seq(lit("a"), p), i)
			} else {
				p = capt(seq(p, lit("a")), i)
			}
		}
	case 2: // side by side
		var k []*P
		for i := 0; i < n; i++ {
			k = append(k, capt(lit("a"), i))
		}
		p = seq(k...)
	case 3: // nested, with a small one before each level
		for i := 0; i < n; i++ {
			p = capt(seq(capt(lit("a"), n+i), p), i)
		}
	case 4: // nested memoized results, every level captured
		for i := 0; i < n; i++ {
			p = memoP(capt(seq(lit("a"), p), i))
		}
	}
	return p
}
