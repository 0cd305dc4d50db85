package main

import (
	"fmt"

	"github.com/zyedidia/gpeg/memo"
)

// The model of the memo table: a list of stored results.
type tval struct {
	id, start, length, examined, count int
	maybe, gone                        bool
	caps                               []*memo.Capture
	rel                                []int // expected capture starts relative to start, in pre-order
	lens                               []int
}

func (v *tval) String() string {
	return fmt.Sprintf("(id %d, start %d, length %d, examined %d, count %d)", v.id, v.start, v.length, v.examined, v.count)
}

type top struct {
	kind                    byte // 'p'ut, 'e'dit, 'g'et, 'v'alues
	id, start, length, exam int
	caps                    int // capture shape
	ed                      memo.Edit
}

func (o top) String() string {
	switch o.kind {
	case 'p':
		return fmt.Sprintf("Put(%d, %d, %d, %d, caps %d)", o.id, o.start, o.length, o.exam, o.caps)
	case 'e':
		return fmt.Sprintf("ApplyEdit([%d,%d) -> %d bytes)", o.ed.Start, o.ed.End, o.ed.Len)
	case 'g':
		return fmt.Sprintf("Get(%d, %d)", o.id, o.start)
	}
	return "AllValues, Size"
}

type tmodel struct {
	t         *memo.TreeTable
	threshold int
	vals      []*tval
	count     int
	last      *tval // the most recent put, for sharing its captures
	bad       string
}

func (x *tmodel) put(o top) {
	x.count++
	v := &tval{id: o.id, start: o.start, length: o.length, examined: max(o.exam, o.length), count: x.count}
	abs := []int{}
	add := func(c *memo.Capture, starts, lens []int) {
		v.caps = append(v.caps, c)
		abs = append(abs, starts...)
		v.lens = append(v.lens, lens...)
	}
	n := max(o.length, 0)
	switch o.caps {
	case 1: // one capture over the result
		add(memo.NewCaptureNode(x.count, o.start, n, nil), []int{o.start}, []int{n})
	case 2: // a nested capture and an empty one at the end
		in := memo.NewCaptureNode(70+x.count, o.start+n, 0, nil)
		add(memo.NewCaptureNode(x.count, o.start, n, []*memo.Capture{in}), []int{o.start, o.start + n}, []int{n, 0})
		add(memo.NewCaptureNode(90+x.count, o.start+n, 0, nil), []int{o.start + n}, []int{0})
	case 3: // shares the captures of the previous put below a new one
		st, ln := []int{o.start}, []int{n}
		var cp []*memo.Capture
		if l := x.last; l != nil && !l.gone && !l.maybe && l.start >= o.start && l.start+l.examined <= o.start+max(o.exam, o.length) {
			cp = append([]*memo.Capture{}, l.caps...)
			for i, c := range flat(cp) {
				if !c.Dummy() {
					st = append(st, l.start+l.rel[i])
					ln = append(ln, l.lens[i])
				}
			}
		}
		add(memo.NewCaptureNode(x.count, o.start, n, cp), st, ln)
	case 4: // a grouping node
		in := memo.NewCaptureNode(70+x.count, o.start, n, nil)
		add(memo.NewCaptureDummy(o.start, n, []*memo.Capture{in}), []int{o.start, o.start}, []int{n, n})
	}
	for _, a := range abs {
		v.rel = append(v.rel, a-o.start)
	}
	x.t.Put(o.id, o.start, o.length, o.exam, x.count, v.caps)
	if o.exam < x.threshold || o.length == 0 {
		return
	}
	x.last = v
	x.vals = append(x.vals, v)
}

// flat lists captures in pre-order, grouping nodes replaced by their children
// being listed after a stand-in for themselves only if they are children.
func flat(cs []*memo.Capture) []*memo.Capture {
	var out []*memo.Capture
	for _, c := range cs {
		out = append(out, c)
		it := c.ChildIterator(0)
		for ch := it(); ch != nil; ch = it() {
			out = append(out, flat([]*memo.Capture{ch})...)
		}
	}
	return out
}

// checkEntry compares an entry with a model value.
func (x *tmodel) checkEntry(e *memo.Entry, v *tval, how string) bool {
	if e.Length() != v.length || e.Examined() != v.examined || e.Pos() != v.start {
		x.bad = fmt.Sprintf("%s: entry number %d has position %d, length %d, examined %d; expected %v", how, e.Count(), e.Pos(), e.Length(), e.Examined(), v)
		return false
	}
	if len(e.Captures()) != len(v.caps) {
		x.bad = fmt.Sprintf("%s: entry number %d has %d captures, %d were stored", how, e.Count(), len(e.Captures()), len(v.caps))
		return false
	}
	for i := range v.caps {
		if e.Captures()[i] != v.caps[i] {
			x.bad = fmt.Sprintf("%s: capture %d of entry number %d is not the stored one", how, i, e.Count())
			return false
		}
	}
	fl := flat(e.Captures())
	if len(fl) != len(v.rel) {
		x.bad = fmt.Sprintf("%s: entry number %d has %d captures in all, %d were stored", how, e.Count(), len(fl), len(v.rel))
		return false
	}
	for i, c := range fl {
		if c.Start() != v.start+v.rel[i] || c.Len() != v.lens[i] || c.End() != c.Start()+c.Len() {
			x.bad = fmt.Sprintf("%s: entry number %d is at %d, but its capture %d covers [%d,%d), expected [%d,%d)", how, e.Count(), v.start, i, c.Start(), c.End(), v.start+v.rel[i], v.start+v.rel[i]+v.lens[i])
			return false
		}
	}
	return true
}

func (x *tmodel) find(count int) *tval {
	for _, v := range x.vals {
		if v.count == count && !v.gone {
			return v
		}
	}
	return nil
}

func (x *tmodel) get(id, pos int) {
	how := fmt.Sprintf("Get(%d, %d)", id, pos)
	e, ok := x.t.Get(id, pos)
	if !ok {
		for _, v := range x.vals {
			if !v.gone && v.id == id && v.start == pos {
				if v.maybe {
					v.gone = true
					continue
				}
				x.bad = fmt.Sprintf("%s found nothing, expected %v", how, v)
				return
			}
		}
		return
	}
	if e == nil {
		x.bad = how + " returned a nil entry"
		return
	}
	v := x.find(e.Count())
	if v == nil {
		x.bad = fmt.Sprintf("%s returned entry number %d, which is not stored any more", how, e.Count())
		return
	}
	if v.id != id || v.start != pos {
		x.bad = fmt.Sprintf("%s returned %v", how, v)
		return
	}
	v.maybe = false
	if !x.checkEntry(e, v, how) {
		return
	}
	for _, w := range x.vals {
		if w.gone || w.id != id || w.start != pos {
			continue
		}
		// neither matched nor examined more
		if w.length > v.length && w.examined > v.examined {
			if w.maybe {
				w.gone = true
				continue
			}
			x.bad = fmt.Sprintf("%s returned %v although %v is stored, too", how, v, w)
			return
		}
	}
}

func (x *tmodel) values() {
	seen := map[int]bool{}
	all := x.t.AllValues()
	for _, e := range all {
		v := x.find(e.Count())
		if v == nil || seen[e.Count()] {
			x.bad = fmt.Sprintf("AllValues contains entry number %d, which is not stored any more (or twice)", e.Count())
			return
		}
		seen[e.Count()] = true
		v.maybe = false
		if !x.checkEntry(e, v, "AllValues") {
			return
		}
	}
	for _, v := range x.vals {
		if !v.gone && !seen[v.count] {
			if v.maybe {
				v.gone = true
				continue
			}
			x.bad = fmt.Sprintf("AllValues lacks %v", v)
			return
		}
	}
	if n := x.t.Size(); n != len(all) {
		x.bad = fmt.Sprintf("Size is %d, AllValues has %d entries", n, len(all))
	}
}

func (x *tmodel) edit(e memo.Edit) {
	x.t.ApplyEdit(e)
	for _, v := range x.vals {
		if v.gone {
			continue
		}
		lo, hi := v.start, v.start+v.examined
		must := lo < e.End && hi > e.Start
		if e.Start == e.End {
			must = lo < e.Start && hi > e.Start
		}
		if must {
			v.gone = true
			continue
		}
		if lo <= max(e.End, e.Start+1) && hi >= e.Start {
			v.maybe = true
		}
		if v.start >= e.End {
			v.start += e.Len - (e.End - e.Start)
		}
	}
}

func runTable(c *Ctx, threshold int, ops []top, order, maxpos int) bool {
	return runTableAt(c, threshold, ops, order, maxpos, nil)
}

// runTableAt looks only at some points, and where results are, unless points is nil.
func runTableAt(c *Ctx, threshold int, ops []top, order, maxpos int, points []int) bool {
	step := 0
	desc := func() string {
		return fmt.Sprintf("table with threshold %d: operations %v, at number %d", threshold, brief(fmt.Sprint(ops)), step+1)
	}
	return c.Guard(desc, func() {
		x := &tmodel{t: memo.NewTreeTable(threshold), threshold: threshold}
		for i, o := range ops {
			step = i
			switch o.kind {
			case 'p':
				x.put(o)
			case 'e':
				x.edit(o.ed)
			case 'g':
				x.get(o.id, o.start)
			case 'v':
				x.values()
			}
			if x.bad != "" {
				break
			}
		}
		gets := func() {
			if points != nil {
				at := append([]int{}, points...)
				for _, v := range x.vals {
					at = append(at, v.start)
				}
				for _, p := range at {
					for id := 0; id <= 2 && x.bad == ""; id++ {
						x.get(id, p)
					}
				}
				return
			}
			for p := 0; p <= maxpos && x.bad == ""; p++ {
				q := p
				if order&2 != 0 {
					q = maxpos - p
				}
				for id := 0; id <= 2 && x.bad == ""; id++ {
					x.get(id, q)
				}
			}
		}
		if x.bad == "" && order&1 == 0 {
			x.values()
		}
		gets()
		if x.bad == "" {
			x.values()
		}
		c.States(1)
		c.Trans(len(ops))
		c.Traces(1)
		c.Outcomes(func() string {
			s := ""
			for _, v := range x.vals {
				if !v.gone {
					s += v.String()
				}
			}
			return s
		})
		if x.bad != "" {
			c.Violate("", "%s: %s", desc(), x.bad)
		}
	}) && !c.itemViol
}

func allTable(c *Ctx, th int, prefix, alpha []top, depth, maxpos int) bool {
	buf := append([]top{}, prefix...)
	n := 0
	var rec func(d int) bool
	rec = func(d int) bool {
		n++
		if !runTable(c, th, buf, n&3, maxpos) {
			return false
		}
		if d == 0 {
			return true
		}
		for _, o := range alpha {
			buf = append(buf, o)
			if !rec(d - 1) {
				return false
			}
			buf = buf[:len(buf)-1]
		}
		return true
	}
	ok := rec(depth)
	c.Sample(func() string { return fmt.Sprintf("threshold %d, after %v all of %v", th, prefix, alpha) })
	return ok
}

func init() {
	ed := func(s, e, n int) top { return top{kind: 'e', ed: memo.Edit{Start: s, End: e, Len: n}} }
	pt := func(id, start, length, exam, caps int) top {
		return top{kind: 'p', id: id, start: start, length: length, exam: exam, caps: caps}
	}
	register(&Property{ID: "C14",
		Assume: []string{"a result that shares captures of another one examined at least the same text", "an edit directly at the edge of the examined text may drop the result or keep it (moved if it is at or after the end of the edit)", "if one result at a place matched more and another examined more, either may be returned"},
		Spaces: func(th bool) []Space {
			alpha := func() []top {
				a := []top{pt(0, 0, 1, 1, 1), pt(0, 0, 2, 4, 2), pt(0, 2, 1, 2, 1), pt(0, 2, 3, 0, 4), pt(1, 2, -1, 1, 0), pt(1, 1, 4, 5, 3), pt(0, 3, 1, 1, 0), pt(0, 4, 2, 3, 1), pt(2, 0, 6, 6, 3), pt(1, 4, 0, 3, 1), pt(1, 3, -1, 4, 0), pt(0, 5, 1, 1, 2)}
				for s := 0; s <= 5; s++ {
					a = append(a, ed(s, s, 1), ed(s, s+1, 0))
					if s < 5 {
						a = append(a, ed(s, s+1, 1), ed(s, s+2, 1))
					}
				}
				return append(a, ed(0, 3, 0), ed(1, 1, 3), ed(0, 0, 0), ed(1, 4, 5), top{kind: 'g', id: 0, start: 2}, top{kind: 'v'})
			}
			return []Space{
				{"empty", fmt.Sprintf("every sequence of <=%d operations (put with 5 capture shapes, edit, get, enumerate) from the empty table, thresholds {0,2,3}", pick(th, 4, 5)), func(c *Ctx) {
					al := alpha()
					for _, thr := range []int{0, 2, 3} {
						for _, o := range al {
							for _, o2 := range al {
								if o.kind != 'p' {
									continue
								}
								thr, o, o2 := thr, o, o2
								if !c.Item(func() { allTable(c, thr, []top{o, o2}, al, pick(th, 2, 3), 12) }) {
									return
								}
							}
						}
					}
				}},
				{"nested", "an inner result, and outer results sharing its captures, at 4..12 places in 7 insertion orders; then every sequence of 3 edits at every place", func(c *Ctx) {
					for _, n := range []int{3, 5, pick(th, 8, 12)} {
						var edits []top
						for s := 0; s <= 3*n; s += pick(th, 2, 1) {
							edits = append(edits, ed(s, s, 1), ed(s, s+1, 0))
						}
						edits = append(edits, ed(0, 4, 1), ed(3, 7, 4), ed(3*n-3, 3*n, 0))
						for _, thr := range []int{0, 2} {
							for _, ord := range orders(n) {
								var pre []top
								for _, i := range ord {
									pre = append(pre, pt(0, 3*i+1, 1, 1, 2), pt(1, 3*i, 3, 3, 3))
									if i%2 == 1 {
										pre = append(pre, pt(2, 3*i-3, 6, 7, 3))
									}
								}
								for _, first := range edits {
									thr, first, pre, n := thr, first, pre, n
									if !c.Item(func() {
										allTable(c, thr, append(pre[:len(pre):len(pre)], first), edits, pick(th, 1, 2), 3*n+6)
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"lookahead", "results whose examined text reaches 0..6 bytes beyond their end, at 4 places each; every sequence of 2 edits (3 in thorough) of width <=2", func(c *Ctx) {
					var al []top
					for s := 0; s <= 14; s++ {
						al = append(al, ed(s, s, 2), ed(s, s+1, 0), ed(s, s+2, 3), ed(s, s+1, 1))
					}
					for x := 0; x <= 6; x++ {
						for l := -1; l <= 2; l++ {
							if l == 0 {
								continue
							}
							var pre []top
							for i := 0; i < 4; i++ {
								pre = append(pre, pt(0, 3*i, l, max(l, 0)+x, 1), pt(1, 3*i+1, l, max(l, 0)+(x+3*i)%7, 1))
							}
							for _, o := range al {
								pre, o := pre, o
								if !c.Item(func() { allTable(c, 0, append(pre[:len(pre):len(pre)], o), al, pick(th, 1, 2), 20) }) {
									return
								}
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C15",
		Spaces: func(th bool) []Space {
			nodes := pick(th, 8, 9)
			return []Space{
				{"trees", fmt.Sprintf("every ordered tree of <=%d nodes with every node real or grouping; the root of either kind; ids and lengths distinct per node", nodes), func(c *Ctx) {
					for n := 1; n <= nodes; n++ {
						for _, shape := range treeShapes(n) {
							shape, n := shape, n
							if !c.Item(func() {
								for kinds := 0; kinds < 1<<n; kinds++ {
									if !checkNav(c, shape, kinds) {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"wide-deep", "grouping nodes nested to depth 40 with 0..3 real children before, inside and after every level; wide nodes of 0..300 children", func(c *Ctx) {
					for before := 0; before <= 3; before++ {
						for after := 0; after <= 3; after++ {
							for inner := 0; inner <= 2; inner++ {
								before, after, inner := before, after, inner
								if !c.Item(func() {
									for depth := 1; depth <= 40; depth++ {
										id := 1
										mk := func(n int) []*memo.Capture {
											var out []*memo.Capture
											for i := 0; i < n; i++ {
												out = append(out, memo.NewCaptureNode(id, id, 1, nil))
												id++
											}
											return out
										}
										var want []*memo.Capture
										var build func(d int) []*memo.Capture
										build = func(d int) []*memo.Capture {
											if d == 0 {
												k := mk(inner)
												want = append(want, k...)
												return k
											}
											b := mk(before)
											want = append(want, b...)
											mid := memo.NewCaptureDummy(0, 1, build(d-1))
											a := mk(after)
											want = append(want, a...)
											return append(append(b, mid), a...)
										}
										if !navNode(c, memo.NewCaptureNode(9999, 0, 1, build(depth)), want, fmt.Sprintf("depth %d", depth)) {
											return
										}
									}
									for n := 0; n <= 300; n++ {
										var kids, want []*memo.Capture
										for i := 0; i < n; i++ {
											k := memo.NewCaptureNode(i, i, 1, nil)
											want = append(want, k)
											if i%(before+2) == after {
												kids = append(kids, memo.NewCaptureDummy(0, 1, nil), memo.NewCaptureDummy(i, 1, []*memo.Capture{k}))
											} else {
												kids = append(kids, k)
											}
										}
										if !navNode(c, memo.NewCaptureDummy(0, 1, kids), want, fmt.Sprintf("width %d", n)) {
											return
										}
									}
								}) {
									return
								}
							}
						}
					}
				}},
			}
		}})
}

type shape struct{ kids []*shape }

var shapeMemo = map[int][]*shape{}

// treeShapes returns all ordered trees of n nodes.
func treeShapes(n int) []*shape {
	if s, ok := shapeMemo[n]; ok {
		return s
	}
	var out []*shape
	for _, f := range forests(n - 1) {
		out = append(out, &shape{f})
	}
	shapeMemo[n] = out
	return out
}

func forests(n int) [][]*shape {
	if n == 0 {
		return [][]*shape{nil}
	}
	var out [][]*shape
	for k := 1; k <= n; k++ {
		for _, t := range treeShapes(k) {
			for _, rest := range forests(n - k) {
				out = append(out, append([]*shape{t}, rest...))
			}
		}
	}
	return out
}

func checkNav(c *Ctx, s *shape, kinds int) bool {
	type pair struct {
		n    *memo.Capture
		want []*memo.Capture
	}
	id := 0
	var all []pair
	desc := ""
	var build func(s *shape) (*memo.Capture, []*memo.Capture, string)
	build = func(s *shape) (*memo.Capture, []*memo.Capture, string) {
		my := id
		id++
		var kids, want []*memo.Capture
		d := ""
		for _, k := range s.kids {
			n, w, ds := build(k)
			kids = append(kids, n)
			d += ds
			if n.Dummy() {
				want = append(want, w...)
			} else {
				want = append(want, n)
			}
		}
		var n *memo.Capture
		if kinds>>my&1 == 1 {
			n = memo.NewCaptureDummy(my, 1, kids)
			d = "group(" + d + ")"
		} else {
			n = memo.NewCaptureNode(my, my, 1, kids)
			d = fmt.Sprintf("%d(%s)", my, d)
		}
		all = append(all, pair{n, want})
		return n, want, d
	}
	_, _, desc = build(s)
	for _, p := range all {
		if !navNode(c, p.n, p.want, desc) {
			return false
		}
	}
	c.Sample(func() string { return desc })
	return true
}

func navNode(c *Ctx, n *memo.Capture, want []*memo.Capture, desc string) bool {
	c.States(1)
	c.Traces(1)
	c.Trans(len(want) + 1)
	c.Outcomes(func() string { return fmt.Sprintf("%s %v %d", desc, n.Id(), len(want)) })
	bad := ""
	for round := 0; round < 2 && bad == ""; round++ {
		it := n.ChildIterator(n.Start())
		for i := 0; i <= len(want)+2; i++ {
			ch := it()
			if i < len(want) && ch != want[i] {
				bad = fmt.Sprintf("child %d from the iterator is %v, expected %v", i, ch, want[i])
				break
			}
			if i >= len(want) && ch != nil {
				bad = fmt.Sprintf("the iterator goes on after %d children", len(want))
				break
			}
		}
	}
	if bad == "" && n.NumChildren() != len(want) {
		bad = fmt.Sprintf("NumChildren is %d, expected %d", n.NumChildren(), len(want))
	}
	for i := 0; i <= len(want)+1 && bad == "" && (len(want) < 50 || i < 5 || i > len(want)-5 || i%17 == 0); i++ {
		ch := n.Child(i)
		if i < len(want) && ch != want[i] || i >= len(want) && ch != nil {
			bad = fmt.Sprintf("Child(%d) is %v, expected the same as the iterator", i, ch)
		}
	}
	if bad != "" {
		c.Violate("", "node %v (grouping: %v) of tree %s: %s", n.Id(), n.Dummy(), desc, bad)
		return false
	}
	return true
}
