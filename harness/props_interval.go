package main

import (
	"fmt"
	"sort"
	"strings"

	"github.com/zyedidia/gpeg/memo/interval"
	"github.com/zyedidia/gpeg/memo/interval/lazy"
	"github.com/zyedidia/gpeg/memo/interval/lazylog"
)

// The model of an interval map: a plain list of values.
type mval struct {
	id, low, high int
	val           int
	maybe         bool // only touched by a removed range: may be gone or not
	gone          bool
	lost          bool // overlapped by a removed range: its handle means nothing
	h             interval.Pos
}

type imap interface {
	FindLargest(id, pos int) interval.Value
	Add(id, low, high int, val interval.Value) interval.Pos
	RemoveAndShift(low, high, amt int)
	Size() int
}

type imapAll interface{ AllValues() []interval.Value }

var imapKinds = []struct {
	name string
	mk   func() imap
}{
	{"lazylog.Tree", func() imap { return &lazylog.Tree{} }},
	{"lazy.Tree", func() imap { return &lazy.Tree{} }},
	{"lazy.Array", func() imap { return &lazy.Array{} }},
}

type iop struct {
	kind      byte // 'a'dd, 'r'emove, 'f'ind, 'p'ositions, 'v'alues
	id        int
	low, high int
	amt       int
}

func (o iop) String() string {
	switch o.kind {
	case 'a':
		return fmt.Sprintf("Add(id %d, [%d,%d))", o.id, o.low, o.high)
	case 'r':
		return fmt.Sprintf("RemoveAndShift(%d, %d, %d)", o.low, o.high, o.amt)
	case 'f':
		return fmt.Sprintf("FindLargest(%d, %d)", o.id, o.low)
	case 'p':
		return "Pos of every handle"
	case 'v':
		return "AllValues, Size"
	}
	return "?"
}

// imodel runs operations on a map and its model.
type imodel struct {
	m    imap
	vals []mval
	next int
	bad  string

	points []int // where full looks, unless nil
}

func (x *imodel) find(id, pos int) {
	r := x.m.FindLargest(id, pos)
	var got = -1
	if r != nil {
		v, ok := r.(int)
		if !ok {
			x.bad = fmt.Sprintf("FindLargest(%d,%d) returned %v", id, pos, r)
			return
		}
		got = v
	}
	gotLen := -1
	for i := range x.vals {
		v := &x.vals[i]
		if !v.gone && v.val == got {
			if v.id != id || v.low != pos {
				x.bad = fmt.Sprintf("FindLargest(%d,%d) returned value %d, which is at id %d, [%d,%d)", id, pos, got, v.id, v.low, v.high)
				return
			}
			v.maybe = false
			gotLen = v.high - v.low
		}
	}
	if got >= 0 && gotLen < 0 {
		x.bad = fmt.Sprintf("FindLargest(%d,%d) returned value %d, which was removed or never added", id, pos, got)
		return
	}
	for i := range x.vals {
		v := &x.vals[i]
		if v.gone || v.id != id || v.low != pos || v.high-v.low <= gotLen {
			continue
		}
		if v.maybe {
			v.gone = true
			continue
		}
		x.bad = fmt.Sprintf("FindLargest(%d,%d) returned value %d (length %d), but value %d has length %d", id, pos, got, gotLen, v.val, v.high-v.low)
		return
	}
}

func (x *imodel) positions() {
	for i := range x.vals {
		v := &x.vals[i]
		// values that are only touched by a removed range may go, but what
		// contains them may stay and still asks for their position
		if v.lost {
			continue
		}
		if p := v.h.Pos(); p != v.low {
			x.bad = fmt.Sprintf("the handle of value %d says position %d, expected %d", v.val, p, v.low)
			return
		}
	}
}

func (x *imodel) values() {
	if a, ok := x.m.(imapAll); ok {
		seen := map[int]bool{}
		for _, v := range a.AllValues() {
			n, ok := v.(int)
			if !ok || seen[n] {
				x.bad = fmt.Sprintf("AllValues contains %v twice or invalid", v)
				return
			}
			seen[n] = true
		}
		for i := range x.vals {
			v := &x.vals[i]
			if v.gone {
				if seen[v.val] {
					x.bad = fmt.Sprintf("AllValues contains removed value %d", v.val)
					return
				}
				continue
			}
			if !seen[v.val] {
				if v.maybe {
					v.gone = true
					continue
				}
				x.bad = fmt.Sprintf("AllValues lacks value %d at id %d, [%d,%d)", v.val, v.id, v.low, v.high)
				return
			}
			v.maybe = false
			delete(seen, v.val)
		}
		if len(seen) != 0 {
			x.bad = fmt.Sprintf("AllValues contains values never added: %v", seen)
			return
		}
	}
	lo, hi := 0, 0
	for _, v := range x.vals {
		if !v.gone {
			hi++
			if !v.maybe {
				lo++
			}
		}
	}
	if n := x.m.Size(); n < lo || n > hi {
		x.bad = fmt.Sprintf("Size is %d, expected %d", n, lo)
		if lo != hi {
			x.bad += fmt.Sprintf("..%d", hi)
		}
	}
}

func (x *imodel) apply(o iop) {
	switch o.kind {
	case 'a':
		h := x.m.Add(o.id, o.low, o.high, x.next)
		x.vals = append(x.vals, mval{id: o.id, low: o.low, high: o.high, val: x.next, h: h})
		x.next++
	case 'r':
		x.m.RemoveAndShift(o.low, o.high, o.amt)
		for i := range x.vals {
			v := &x.vals[i]
			if v.lost {
				continue
			}
			if v.low < o.high && v.high > o.low {
				v.gone = true
				v.lost = true
			} else if v.low <= o.high && v.high >= o.low {
				v.maybe = true
			}
			if !v.lost && v.low >= o.low {
				v.low += o.amt
				v.high += o.amt
			}
		}
	case 'f':
		x.find(o.id, o.low)
	case 'p':
		x.positions()
	case 'v':
		x.values()
	}
}

// full compares everything observable, in one of several orders (lookups move
// pending shifts, so the order can matter).
func (x *imodel) full(order, maxid, maxpos int) {
	finds := func(desc bool) {
		if x.points != nil {
			at := append([]int{}, x.points...)
			for _, v := range x.vals {
				at = append(at, v.low, v.low-1, v.low+1)
			}
			for i := range at {
				p := at[i]
				if desc {
					p = at[len(at)-1-i]
				}
				for id := 0; id <= maxid && x.bad == ""; id++ {
					x.find(id, p)
				}
			}
			return
		}
		for i := 0; i <= maxpos && x.bad == ""; i++ {
			p := i
			if desc {
				p = maxpos - i
			}
			for id := 0; id <= maxid && x.bad == ""; id++ {
				x.find(id, p)
			}
		}
	}
	steps := []func(){x.values, x.positions, func() { finds(false) }}
	switch order {
	case 1:
		steps = []func(){x.positions, x.values, func() { finds(true) }}
	case 2:
		steps = []func(){func() { finds(true) }, x.values, x.positions}
	case 3:
		steps = []func(){func() { finds(false) }, x.positions, x.values}
	}
	for _, s := range steps {
		if x.bad == "" {
			s()
		}
	}
	if x.bad == "" {
		finds(false)
		x.values()
	}
}

// outcome describes the final content.
func (x *imodel) outcome() string {
	var s []string
	for _, v := range x.vals {
		if !v.gone {
			s = append(s, fmt.Sprint(v.id, v.low, v.high))
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// runOps runs a history on one map and reports a mismatch.
func runOps(c *Ctx, kind int, ops []iop, order, maxid, maxpos int) bool {
	return runOpsAt(c, kind, ops, order, maxid, maxpos, nil)
}

func runOpsAt(c *Ctx, kind int, ops []iop, order, maxid, maxpos int, points []int) bool {
	step := 0
	return c.Guard(func() string {
		return fmt.Sprintf("%s: operations %v, at number %d", imapKinds[kind].name, brief(fmt.Sprint(ops)), step+1)
	}, func() {
		x := &imodel{m: imapKinds[kind].mk(), vals: make([]mval, 0, 24), points: points}
		for i, o := range ops {
			step = i
			x.apply(o)
			if x.bad != "" {
				break
			}
		}
		if x.bad == "" {
			x.full(order, maxid, maxpos)
		}
		c.States(1)
		c.Trans(len(ops))
		c.Traces(1)
		c.Outcomes(x.outcome)
		if x.bad != "" {
			c.Violate("", "%s: operations %v (final check order %d), at number %d: %s", imapKinds[kind].name, brief(fmt.Sprint(ops)), order, step+1, x.bad)
		}
	}) && !c.itemViol
}

// allOps runs every sequence of up to depth operations after the prefix.
func allOps(c *Ctx, kind int, prefix []iop, alpha []iop, depth, maxid, maxpos int) bool {
	buf := append([]iop{}, prefix...)
	n := 0
	var rec func(d int) bool
	rec = func(d int) bool {
		n++
		if !runOps(c, kind, buf, n&3, maxid, maxpos) {
			return false
		}
		if d == 0 {
			return true
		}
		for _, o := range alpha {
			buf = append(buf, o)
			if !rec(d - 1) {
				return false
			}
			buf = buf[:len(buf)-1]
		}
		return true
	}
	ok := rec(depth)
	c.Sample(func() string { return fmt.Sprintf("%s after %v, e.g. %v", imapKinds[kind].name, prefix, alpha) })
	return ok
}

func addOps(ids []int, lows []int, lens []int) []iop {
	var out []iop
	for _, id := range ids {
		for _, l := range lows {
			for _, n := range lens {
				out = append(out, iop{kind: 'a', id: id, low: l, high: l + n})
			}
		}
	}
	return out
}

func remOps(lows, widths, amts []int) []iop {
	var out []iop
	for _, l := range lows {
		for _, w := range widths {
			for _, a := range amts {
				if a < -w {
					continue
				}
				out = append(out, iop{kind: 'r', low: l, high: l + w, amt: a})
			}
		}
	}
	return out
}

func upto(n int) []int {
	out := make([]int, n+1)
	for i := range out {
		out[i] = i
	}
	return out
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := append(append(append([]int{}, p[:i]...), n-1), p[i:]...)
			out = append(out, q)
		}
	}
	sort.Slice(out, func(i, j int) bool { return fmt.Sprint(out[i]) < fmt.Sprint(out[j]) })
	return out
}

// orders returns insertion orders of n items that give differently shaped trees.
func orders(n int) [][]int {
	var out [][]int
	id := make([]int, n)
	rev := make([]int, n)
	alt := make([]int, n)
	for i := range id {
		id[i] = i
		rev[i] = n - 1 - i
		if i%2 == 0 {
			alt[i] = i / 2
		} else {
			alt[i] = n - 1 - i/2
		}
	}
	out = append(out, id, rev, alt)
	for _, s := range []int{3, 5, 7, 11} {
		for n%s == 0 {
			s += 2
		}
		p := make([]int, n)
		for i := range p {
			p[i] = (i*s + 1) % n
		}
		out = append(out, p)
	}
	return out
}

func init() {
	register(&Property{ID: "C13",
		Assume: []string{"intervals are not empty", "a negative shift is at most the removed width, as the documentation requires", "values only touching the removed range may stay or go", "ties between equally large intervals may be resolved either way"},
		Spaces: func(th bool) []Space {
			small := func() []iop {
				a := addOps([]int{0, 1}, []int{0, 2}, []int{1, 3})
				a = append(a, addOps([]int{0}, []int{1, 4}, []int{1, 4})...)
				a = append(a, remOps([]int{0, 1, 2, 4}, []int{1, 2}, []int{-2, -1, 1, 2})...)
				a = append(a, iop{kind: 'r', low: 1, high: 2, amt: 0}, iop{kind: 'r', low: 0, high: 4, amt: -3}, iop{kind: 'f', id: 0, low: 2}, iop{kind: 'f', id: 0, low: 0}, iop{kind: 'f', id: 0, low: 4}, iop{kind: 'p'})
				return a
			}
			return []Space{
				{"empty", fmt.Sprintf("every sequence of <=%d operations (add, remove-and-shift, lookup, handle positions) from the empty map, 3 implementations", pick(th, 4, 5)), func(c *Ctx) {
					alpha := small()
					for k := range imapKinds {
						for _, o := range alpha {
							if o.kind != 'a' {
								continue
							}
							for _, o2 := range alpha {
								k, o, o2 := k, o, o2
								if !c.Item(func() { allOps(c, k, []iop{o, o2}, alpha, pick(th, 2, 3), 1, 12) }) {
									return
								}
							}
						}
					}
				}},
				{"same-key", "every sequence of 6 adds and removals where most intervals share one id and position", func(c *Ctx) {
					alpha := addOps([]int{0}, []int{2}, []int{1, 2, 5})
					alpha = append(alpha, iop{kind: 'a', id: 0, low: 5, high: 6}, iop{kind: 'a', id: 1, low: 2, high: 4}, iop{kind: 'r', low: 0, high: 1, amt: 1}, iop{kind: 'r', low: 4, high: 5, amt: -1}, iop{kind: 'r', low: 6, high: 7, amt: 2}, iop{kind: 'r', low: 1, high: 2, amt: -1}, iop{kind: 'v'})
					for k := range imapKinds {
						for _, o := range alpha[:5] {
							for _, o2 := range alpha {
								k, o, o2 := k, o, o2
								if !c.Item(func() { allOps(c, k, []iop{o, o2}, alpha, pick(th, 4, 5), 1, 14) }) {
									return
								}
							}
						}
					}
				}},
				{"shapes", fmt.Sprintf("maps of <=%d intervals inserted in every order, then every sequence of <=2 operations", pick(th, 4, 5)), func(c *Ctx) {
					alpha := append(small(), iop{kind: 'r', low: 3, high: 5, amt: -1}, iop{kind: 'r', low: 6, high: 7, amt: 1}, iop{kind: 'v'})
					for n := 3; n <= pick(th, 4, 5); n++ {
						for _, lens := range [][]int{{1, 1, 1, 1, 1}, {9, 1, 1, 3, 1}, {1, 4, 1, 1, 2}, {1, 1, 6, 1, 1}} {
							for _, pm := range perms(n) {
								for k := range imapKinds {
									var pre []iop
									for _, i := range pm {
										pre = append(pre, iop{kind: 'a', id: i & 1, low: 2 * i, high: 2*i + lens[i]})
									}
									k, pre := k, pre
									if !c.Item(func() { allOps(c, k, pre, alpha, 2, 1, 16) }) {
										return
									}
								}
							}
						}
					}
				}},
				{"deep", fmt.Sprintf("maps of 6..%d intervals in 7 insertion orders and 5 length profiles: every sequence of 3 operations among wide and narrow removals at every position, additions and lookups", pick(th, 12, 16)), func(c *Ctx) {
					ns := []int{6, 7, 9, 12}
					if th {
						ns = []int{6, 7, 8, 9, 10, 12, 16}
					}
					profiles := []func(i, n int) int{func(i, n int) int { return 1 }, func(i, n int) int { return 1 + i%3*2 }, func(i, n int) int {
						if i == 0 {
							return 2 * n
						}
						return 1
					}, func(i, n int) int { return 2 + (n-i)/2 }, func(i, n int) int {
						if i%4 == 1 {
							return 7
						}
						return 1
					}}
					for _, n := range ns {
						alpha := remOps([]int{0, 1, n / 2, n, n + 2, 2*n - 3}, []int{1}, []int{-1, 2})
						alpha = append(alpha, remOps([]int{2, n, 2*n - 4}, []int{4}, []int{-3, 1})...)
						alpha = append(alpha, iop{kind: 'a', id: 0, low: n, high: n + 1}, iop{kind: 'a', id: 1, low: n + 1, high: n + 4}, iop{kind: 'f', id: 0, low: n}, iop{kind: 'f', id: 0, low: 0}, iop{kind: 'p'})
						for pi, prof := range profiles {
							for oi, ord := range orders(n) {
								if !th && (pi+oi)%2 == 1 && n > 7 {
									continue
								}
								for k := range imapKinds {
									var pre []iop
									for _, i := range ord {
										pre = append(pre, iop{kind: 'a', id: 0, low: 2 * i, high: 2*i + prof(i, n)})
									}
									k, pre := k, pre
									n := n
									for _, first := range alpha {
										first := first
										if !c.Item(func() { allOps(c, k, append(pre[:len(pre):len(pre)], first), alpha, pick(th, 2, 2), 1, 2*n+10) }) {
											return
										}
									}
								}
							}
						}
					}
				}},
				{"drain", "maps of 7..15 intervals emptied by every pair of ranges and refilled, with shifts in between", func(c *Ctx) {
					for _, n := range []int{7, 10, pick(th, 12, 15)} {
						for _, ord := range orders(n) {
							for k := range imapKinds {
								for l1 := 0; l1 <= 2*n; l1 += pick(th, 2, 1) {
									k, n, ord, l1 := k, n, ord, l1
									if !c.Item(func() {
										var pre []iop
										for _, i := range ord {
											pre = append(pre, iop{kind: 'a', id: 0, low: 2 * i, high: 2*i + 1 + i%2})
										}
										cnt := 0
										for h1 := l1 + 1; h1 <= 2*n+2; h1++ {
											for _, a1 := range []int{l1 - h1, 0, 1} {
												for l2 := 0; l2 <= 2*n; l2 += 3 {
													for _, w2 := range []int{1, 5} {
														cnt++
														ops := append(pre[:len(pre):len(pre)], iop{kind: 'r', low: l1, high: h1, amt: a1}, iop{kind: 'r', low: l2, high: l2 + w2, amt: 2 - w2}, iop{kind: 'a', id: 0, low: l2, high: l2 + 3}, iop{kind: 'r', low: 0, high: 1, amt: 1})
														if !runOps(c, k, ops, cnt&3, 0, 2*n+8) {
															return
														}
													}
												}
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}},
			}
		}})
}

func opsString(ops []iop) string {
	var s []string
	for _, o := range ops {
		s = append(s, o.String())
	}
	return strings.Join(s, " ")
}
