package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strconv"
	"strings"
	"syscall"
	"unsafe"

	"github.com/zyedidia/gpeg/input/linerope"
)

func ropeOpts(split, join int, sep string) linerope.Options {
	return linerope.Options{SplitLen: split, JoinLen: join, RebalanceRatio: 1.2, LineSep: []byte(sep)}
}

// A ropeOp acts on the rope with index r of the live ropes.
type ropeOp struct {
	kind byte // 'i'nsert 'd'elete 's'plit 'j'oin 'b' rebuild 'l' rebalance
	r    int
	a, b int
	val  string
}

func (o ropeOp) String() string {
	switch o.kind {
	case 'i':
		return fmt.Sprintf("rope%d.Insert(%d, %q)", o.r, o.a, clip(o.val))
	case 'd':
		return fmt.Sprintf("rope%d.Remove(%d, %d)", o.r, o.a, o.b)
	case 's':
		return fmt.Sprintf("rope%d.SplitAt(%d)", o.r, o.a)
	case 'j':
		return fmt.Sprintf("Join(rope%d, rope%d)", o.r, o.a)
	case 'b':
		return fmt.Sprintf("rope%d.Rebuild()", o.r)
	case 'l':
		return fmt.Sprintf("rope%d.Rebalance()", o.r)
	}
	return "?"
}

// applyModel applies o to the model texts.
func applyModel(ts []string, o ropeOp) []string {
	out := append([]string{}, ts...)
	switch o.kind {
	case 'i':
		out[o.r] = ts[o.r][:o.a] + o.val + ts[o.r][o.a:]
	case 'd':
		out[o.r] = ts[o.r][:o.a] + ts[o.r][o.b:]
	case 's':
		out[o.r] = ts[o.r][:o.a]
		out = append(out, ts[o.r][o.a:])
	case 'j':
		out[o.r] = ts[o.r] + ts[o.a]
		out = append(out[:o.a], out[o.a+1:]...)
	}
	return out
}

func applyRope(rs []*linerope.Node, o ropeOp) []*linerope.Node {
	switch o.kind {
	case 'i':
		v := []byte(o.val)
		rs[o.r].Insert(o.a, v)
		for i := range v {
			v[i] = '!' // the caller may reuse its buffer
		}
	case 'd':
		rs[o.r].Remove(o.a, o.b)
	case 's':
		l, r := rs[o.r].SplitAt(o.a)
		rs[o.r] = l
		rs = append(rs, r)
	case 'j':
		rs[o.r] = linerope.Join(rs[o.r], rs[o.a])
		rs = append(rs[:o.a], rs[o.a+1:]...)
	case 'b':
		rs[o.r].Rebuild()
	case 'l':
		rs[o.r].Rebalance()
	}
	return rs
}

type failWriter struct {
	buf   bytes.Buffer
	limit int
}

var errFull = errors.New("full")

func (w *failWriter) Write(p []byte) (int, error) {
	n := min(len(p), w.limit-w.buf.Len())
	w.buf.Write(p[:n])
	if n < len(p) {
		return n, errFull
	}
	return n, nil
}

// checkText compares every way of reading a rope with the text.
func checkText(r *linerope.Node, want string) string {
	if r.Len() != len(want) {
		return fmt.Sprintf("Len is %d, expected %d", r.Len(), len(want))
	}
	if got := string(r.Value()); got != want {
		return fmt.Sprintf("Value is %q, expected %q", clip(got), clip(want))
	}
	long := len(want) > 64
	near := func(i int) bool {
		return !long || i < 3 || i > len(want)-4 || i%1024 < 2 || i%1024 > 1022 || i%97 == 0
	}
	for i := 0; i < len(want); i++ {
		if near(i) && r.At(i) != want[i] {
			return fmt.Sprintf("At(%d) is %q, expected %q", i, r.At(i), want[i])
		}
	}
	var sb strings.Builder
	leaves := 0
	isLeaf := map[*linerope.Node]int{}
	stopped := r.EachLeaf(func(l *linerope.Node) bool {
		isLeaf[l] = leaves
		leaves++
		sb.Write(l.Value())
		return false
	})
	if sb.String() != want || stopped || leaves == 0 {
		return fmt.Sprintf("the leaves hold %q (stopped %v), expected %q", clip(sb.String()), stopped, clip(want))
	}
	met := map[*linerope.Node]bool{}
	last, twice := -1, false
	r.Each(func(l *linerope.Node) {
		twice = twice || met[l]
		met[l] = true
		if i, ok := isLeaf[l]; ok {
			twice = twice || i != last+1
			last = i
		}
	})
	if len(isLeaf) == leaves && (twice || last != leaves-1 || !met[r]) {
		return "Each did not meet every node of the rope exactly once with the leaves in order"
	}
	k := 0
	if leaves > 1 && !r.EachLeaf(func(l *linerope.Node) bool { k++; return k == 2 }) || leaves > 1 && k != 2 {
		return "EachLeaf did not stop when told to"
	}
	var buf bytes.Buffer
	n, err := r.WriteTo(&buf)
	if err != nil || n != int64(len(want)) || buf.String() != want {
		return fmt.Sprintf("WriteTo wrote %q (%d, %v), expected %q", clip(buf.String()), n, err, clip(want))
	}
	if len(want) > 0 {
		for _, lim := range []int{0, 1, len(want) / 2, len(want) - 1} {
			if lim >= len(want) {
				continue
			}
			fw := &failWriter{limit: lim}
			n, err := r.WriteTo(fw)
			if err != errFull || n != int64(lim) || fw.buf.String() != want[:lim] {
				return fmt.Sprintf("WriteTo into a writer that takes %d bytes returned %d, %v", lim, n, err)
			}
		}
	}
	offs := []int{0, 1, 2, len(want) / 2, len(want) - 1, len(want), len(want) + 1}
	if !long {
		offs = upto(len(want) + 1)
	}
	offs = append(offs, len(want)+7, len(want)+5000, 1<<40)
	for _, o := range offs {
		if o < 0 {
			continue
		}
		lens := []int{0, 1, 2, len(want) - o - 1, len(want) - o, len(want) - o + 1, len(want) + 5}
		for _, l := range lens {
			if l < 0 || o <= len(want)+1 && o+l > len(want)+9 {
				continue
			}
			p := bytes.Repeat([]byte{0xEE}, l)
			n, err := r.ReadAt(p, int64(o))
			exist := max(0, min(l, len(want)-o))
			if n != exist || n < l && err == nil || n > 0 && string(p[:n]) != want[o:o+n] || err != nil && err != io.EOF || err == io.EOF && o+l < len(want) {
				return fmt.Sprintf("ReadAt(%d bytes, %d) returned %d, %v, %q of text %q", l, o, n, err, clip(string(p[:max(0, min(n, l))])), clip(want))
			}
		}
	}
	return ""
}

// straddles reports whether a separator of the text lies across two leaves.
func straddles(r *linerope.Node, text, sep string) bool {
	if len(sep) < 2 {
		return false
	}
	bounds := map[int]bool{}
	off := 0
	r.EachLeaf(func(l *linerope.Node) bool { off += l.Len(); bounds[off] = true; return false })
	for i := 0; ; {
		k := strings.Index(text[i:], sep)
		if k < 0 {
			return false
		}
		for j := 1; j < len(sep); j++ {
			if bounds[i+k+j] {
				return true
			}
		}
		i += k + len(sep)
	}
}

// checkLines compares the line/column view with a plain scan of the text.
func checkLines(r *linerope.Node, text, sep string) string {
	type lc struct{ l, c int }
	n := len(text)
	locs := make([]lc, n+1)
	starts := []int{0}
	for i := 0; ; {
		k := strings.Index(text[i:], sep)
		if k < 0 {
			break
		}
		i += k + len(sep)
		starts = append(starts, i)
	}
	line := 0
	for p := 0; p <= n; p++ {
		for line+1 < len(starts) && starts[line+1] <= p {
			line++
		}
		locs[p] = lc{line, p - starts[line]}
	}
	if r.NumLines() != len(starts)-1 {
		return fmt.Sprintf("NumLines is %d, the text has %d separators", r.NumLines(), len(starts)-1)
	}
	if l, c := r.LLen(); l != locs[n].l || c != locs[n].c {
		return fmt.Sprintf("LLen is (%d, %d), expected (%d, %d)", l, c, locs[n].l, locs[n].c)
	}
	var ps []int
	for p := 0; p <= n; p++ {
		if n <= 64 || p < 3 || p > n-3 || p%1024 < 3 || p%1024 > 1021 || p%211 == 0 {
			ps = append(ps, p)
		}
	}
	for _, p := range ps {
		l, c := r.LineColAt(p)
		if l != locs[p].l || c != locs[p].c {
			return fmt.Sprintf("LineColAt(%d) is (%d, %d), expected (%d, %d)", p, l, c, locs[p].l, locs[p].c)
		}
		if o := r.OffsetAt(locs[p].l, locs[p].c); o != p {
			return fmt.Sprintf("OffsetAt(%d, %d) is %d, expected %d", locs[p].l, locs[p].c, o, p)
		}
	}
	if n > 64 {
		ps = []int{0, 1, n / 3, n / 2, n - 1, n}
	}
	for _, s := range ps {
		for _, e := range ps {
			if e < s {
				continue
			}
			if got := string(r.SliceLC(locs[s].l, locs[s].c, locs[e].l, locs[e].c)); got != text[s:e] {
				return fmt.Sprintf("SliceLC((%d,%d), (%d,%d)) is %q, expected %q", locs[s].l, locs[s].c, locs[e].l, locs[e].c, clip(got), clip(text[s:e]))
			}
		}
	}
	return ""
}

type ropeStart struct {
	opts linerope.Options
	text string
	alt  int // how the rope is built
}

func (s ropeStart) String() string {
	return fmt.Sprintf("SplitLen %d, JoinLen %d, LineSep %q, text %q, construction %d", s.opts.SplitLen, s.opts.JoinLen, s.opts.LineSep, clip(s.text), s.alt)
}

// build returns the live ropes, their texts and the caller's bytes.
func (s ropeStart) build() ([]*linerope.Node, []string, []byte) {
	b := make([]byte, len(s.text), len(s.text)+8) // spare capacity invites sharing
	copy(b, s.text)
	for i := len(b); i < cap(b); i++ {
		b[:cap(b)][i] = '#'
	}
	switch s.alt {
	case 1: // two ropes over the same bytes
		return []*linerope.Node{linerope.NewWithOpts(b, s.opts), linerope.NewWithOpts(b, s.opts)}, []string{s.text, s.text}, b
	case 2: // two ropes over adjacent parts of the same bytes
		k := len(b) / 2
		return []*linerope.Node{linerope.NewWithOpts(b[:k], s.opts), linerope.NewWithOpts(b[k:], s.opts)}, []string{s.text[:k], s.text[k:]}, b
	case 3: // built by joining single bytes
		r := linerope.NewWithOpts(nil, s.opts)
		for i := range b {
			r = linerope.Join(r, linerope.NewWithOpts(b[i:i+1], s.opts))
		}
		return []*linerope.Node{r}, []string{s.text}, b
	}
	return []*linerope.Node{linerope.NewWithOpts(b, s.opts)}, []string{s.text}, b
}

// runRope runs a history and checks the texts (and lines).
func runRope(c *Ctx, st ropeStart, ops []ropeOp, text, lines bool) bool {
	desc := func() string { return fmt.Sprintf("%v: %v", st, ops) }
	return c.Guard(desc, func() {
		rs, ts, b := st.build()
		orig := string(b[:cap(b)])
		for _, o := range ops {
			rs = applyRope(rs, o)
			ts = applyModel(ts, o)
		}
		c.States(1)
		c.Trans(len(ops))
		c.Traces(1)
		c.Outcomes(func() string { return strings.Join(ts, "|") })
		for i := range rs {
			if text {
				if e := checkText(rs[i], ts[i]); e != "" {
					c.Violate("", "%s: rope%d: %s", desc(), i, e)
					return
				}
			}
			if lines {
				sep := string(st.opts.LineSep)
				if e := checkLinesGuard(rs[i], ts[i], sep); e != "" {
					key := ""
					if straddles(rs[i], ts[i], sep) {
						key = "separator-across-leaves"
					}
					c.Violate(key, "%s: rope%d with text %q: %s", desc(), i, clip(ts[i]), e)
					return
				}
			}
		}
		if text && string(b[:cap(b)]) != orig {
			c.Violate("", "%s: the bytes passed in by the caller were changed from %q to %q", desc(), clip(orig), clip(string(b[:cap(b)])))
		}
	}) && !c.itemViol
}

func checkLinesGuard(r *linerope.Node, text, sep string) (bad string) {
	defer func() {
		if e := recover(); e != nil {
			bad = fmt.Sprintf("panic: %v", e)
		}
	}()
	return checkLines(r, text, sep)
}

// ropeOps lists the operations possible on the texts.
func ropeOps(ts []string, vals []string, widths []int, step int) []ropeOp {
	var out []ropeOp
	for r, t := range ts {
		for p := 0; p <= len(t); p += step {
			for _, v := range vals {
				out = append(out, ropeOp{kind: 'i', r: r, a: p, val: v})
			}
			for _, w := range widths {
				if p+w <= len(t) {
					out = append(out, ropeOp{kind: 'd', r: r, a: p, b: p + w})
				}
			}
			if len(ts) < 3 {
				out = append(out, ropeOp{kind: 's', r: r, a: p})
			}
		}
		if len(t) > 1 && step > 1 {
			out = append(out, ropeOp{kind: 'i', r: r, a: len(t), val: vals[0]})
		}
		out = append(out, ropeOp{kind: 'd', r: r, a: 0, b: len(t)}, ropeOp{kind: 'b', r: r}, ropeOp{kind: 'l', r: r})
		for a := range ts {
			if a > r {
				out = append(out, ropeOp{kind: 'j', r: r, a: a})
			}
		}
	}
	return out
}

func allRopes(c *Ctx, st ropeStart, prefix []ropeOp, vals []string, widths []int, step, depth int, text, lines bool) bool {
	_, ts, _ := st.build()
	for _, o := range prefix {
		ts = applyModel(ts, o)
	}
	buf := append([]ropeOp{}, prefix...)
	var rec func(ts []string, d int) bool
	rec = func(ts []string, d int) bool {
		if !runRope(c, st, buf, text, lines) {
			return false
		}
		if d == 0 {
			return true
		}
		for _, o := range ropeOps(ts, vals, widths, step) {
			buf = append(buf, o)
			if !rec(applyModel(ts, o), d-1) {
				return false
			}
			buf = buf[:len(buf)-1]
		}
		return true
	}
	ok := rec(ts, depth)
	c.Sample(func() string { return fmt.Sprintf("%v: %v and on", st, buf) })
	return ok
}

// cpuHelper checks construction with the current number of cores.
func cpuHelper(args []string, out io.Writer) {
	n, _ := strconv.Atoi(args[0])
	if len(args) == 1 {
		runtime.LockOSThread()
		var mask [16]uint64
		for i := 0; i < n; i++ {
			mask[i/64] |= 1 << (i % 64)
		}
		syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, unsafe.Sizeof(mask), uintptr(unsafe.Pointer(&mask)))
		self, err := os.Executable()
		if err == nil {
			err = syscall.Exec(self, []string{self, "helper", "ropecpus", args[0], "go"}, os.Environ())
		}
		fmt.Fprintln(out, "NOEXEC", err)
		return
	}
	cnt := 0
	for split := 1; split <= 5; split++ {
		for l := 0; l <= 60; l++ {
			text := string(docBytes(l))
			text = strings.Map(func(r rune) rune { return 'a' + r%26 }, strings.ReplaceAll(text, "", "\n"))
			text = text[:l]
			for _, opts := range []linerope.Options{ropeOpts(split, 2, "\n"), ropeOpts(split, 0, "\n")} {
				r := linerope.NewWithOpts([]byte(text), opts)
				e := checkText(r, text)
				if e == "" {
					e = checkLines(r, text, "\n")
				}
				if e != "" {
					fmt.Fprintf(out, "BAD %d cores, SplitLen %d, text of %d bytes: %s\n", runtime.NumCPU(), split, l, e)
					return
				}
				cnt++
			}
		}
	}
	fmt.Fprintf(out, "OK %d %d\n", runtime.NumCPU(), cnt)
}

func init() {
	helpers["ropecpus"] = cpuHelper
	sets := []oset{{3, 2}, {1, 0}, {2, 1}, {4, 2}, {2, 4}, {4, 8}, {5, 5}, {8, 4}}
	letters := "abcdefghijklmnopqrstuvwxyz"
	register(&Property{ID: "C18",
		Assume: []string{"the operands of a split or join are not used afterwards", "the leaf size is at least 1", "arguments are within the text"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"ops", fmt.Sprintf("texts of 0..%d bytes, 8 leaf-size settings, 4 ways of construction (plain, two ropes over the same bytes, over adjacent bytes, joined from single bytes): every sequence of <=2 operations (insert 4 values anywhere, remove any range, split, join, rebuild, rebalance)", pick(th, 6, 8)), func(c *Ctx) {
					for n := 0; n <= pick(th, 6, 8); n++ {
						for _, o := range sets {
							for alt := 0; alt < 4; alt++ {
								st := ropeStart{ropeOpts(o.s, o.j, "\n"), letters[:n], alt}
								_, ts, _ := st.build()
								for _, first := range ropeOps(ts, []string{"", "X", "YZ", "PQRSTU"}, upto(n), 1) {
									first := first
									if !c.Item(func() {
										allRopes(c, st, []ropeOp{first}, []string{"", "X", "YZ", "PQRSTU"}, upto(9), 1, 1, true, false)
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"ops-deep", fmt.Sprintf("texts of 3 and 5 bytes, %d leaf-size settings, every sequence of <=%d operations (insert 1 or 4 bytes, remove 1, 2 or all bytes, split, join, rebuild, rebalance)", pick(th, 3, 6), pick(th, 3, 4)), func(c *Ctx) {
					for _, n := range []int{5, 3} {
						for _, o := range sets[:pick(th, 3, 6)] {
							for alt := 0; alt < pick(th, 1, 3); alt++ {
								st := ropeStart{ropeOpts(o.s, o.j, "\n"), letters[:n], alt}
								_, ts, _ := st.build()
								for _, first := range ropeOps(ts, []string{"X", "PQRS"}, []int{1, 2}, 1) {
									ts2 := applyModel(ts, first)
									for _, second := range ropeOps(ts2, []string{"X", "PQRS"}, []int{1, 2}, 1) {
										first, second := first, second
										if !c.Item(func() {
											d := 1
											if th && n == 3 && alt == 0 {
												d = 2
											}
											allRopes(c, st, []ropeOp{first, second}, []string{"X", "PQRS"}, []int{1, 2}, 1, d, true, false)
										}) {
											return
										}
									}
								}
							}
						}
					}
				}},
				{"typing", "inserting 1..24 bytes one at a time at every place of a short text, then removing them again from either side, 8 leaf-size settings, with a rebuild or rebalance at every point", func(c *Ctx) {
					for _, o := range sets {
						for at := 0; at <= 4; at++ {
							for mode := 0; mode < 4; mode++ {
								for re := 0; re <= pick(th, 24, 48); re += pick(th, 2, 1) {
									o, at, mode, re := o, at, mode, re
									if !c.Item(func() {
										st := ropeStart{ropeOpts(o.s, o.j, "\n"), "abcd", 0}
										var ops []ropeOp
										l := 4
										for i := 0; i < pick(th, 12, 24); i++ {
											p := at
											if mode&1 == 1 {
												p = min(at+i, l)
											}
											ops = append(ops, ropeOp{kind: 'i', a: p, val: string(rune('A' + i))})
											l++
											if i == re {
												ops = append(ops, ropeOp{kind: 'b'})
											}
										}
										for i := 0; i < pick(th, 12, 24); i++ {
											p := at
											if mode&2 == 2 {
												p = max(l-1-at, 0)
											}
											p = min(p, l-1)
											ops = append(ops, ropeOp{kind: 'd', a: p, b: p + 1})
											l--
											if i+12 == re {
												ops = append(ops, ropeOp{kind: 'l'})
											}
										}
										for k := 1; k <= len(ops); k++ {
											if !runRope(c, st, ops[:k], true, false) {
												return
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"default-sizes", "texts of 0..3 leaves +-1 byte at the default leaf sizes: every insertion (0, 1, 2047..2049, 4097 bytes), removal and split around leaf edges and the middle, followed by each again, rebuild and rebalance", func(c *Ctx) {
					big := strings.Repeat("Zy\nXw", 1000)
					for _, n := range []int{0, 1, 2047, 2048, 2049, 4095, 4096, 4097, 8192, 8193, 12287} {
						text := string(docBytes(n))
						edges := []int{0, 1, 2048, 4095, 4096, 4097, 8192, n / 2, n - 1, n}
						var ops []ropeOp
						for _, p := range edges {
							if p < 0 || p > n {
								continue
							}
							for _, l := range []int{0, 1, 2049, 4097} {
								ops = append(ops, ropeOp{kind: 'i', a: p, val: big[:l]})
							}
							for _, w := range []int{1, 2049, 4096, n - p} {
								if p+w <= n && w > 0 {
									ops = append(ops, ropeOp{kind: 'd', a: p, b: p + w})
								}
							}
							ops = append(ops, ropeOp{kind: 's', a: p})
						}
						for _, o := range ops {
							n, o, text := n, o, text
							if !c.Item(func() {
								st := ropeStart{linerope.DefaultOptions, text, 0}
								if !runRope(c, st, []ropeOp{o}, true, false) || !runRope(c, st, []ropeOp{o, {kind: 'b'}}, true, false) || !runRope(c, st, []ropeOp{o, {kind: 'l'}}, true, false) {
									return
								}
								l := len(applyModel([]string{text}, o)[0])
								for _, p := range []int{0, l / 2, l - 1, l, 4096, 2048} {
									if p < 0 || p > l {
										continue
									}
									seqs := [][]ropeOp{{o, {kind: 'i', a: p, val: "q"}}, {o, {kind: 'i', a: p, val: big[:2500]}}, {o, {kind: 's', a: p}}}
									if p < l {
										seqs = append(seqs, []ropeOp{o, {kind: 'd', a: p, b: p + 1}}, []ropeOp{o, {kind: 'd', a: p, b: l}, {kind: 'i', a: p, val: "rs"}})
									}
									if o.kind == 's' {
										seqs = append(seqs, []ropeOp{o, {kind: 'i', a: p, val: "q"}, {kind: 'j', r: 0, a: 1}}, []ropeOp{o, {kind: 'j', r: 0, a: 1}, {kind: 'b'}})
									}
									for _, s := range seqs {
										if !runRope(c, st, s, true, false) {
											return
										}
									}
								}
							}) {
								return
							}
							_ = n
						}
					}
				}},
				{"cores", "construction on 1..8 usable cores: leaf sizes 1..5, texts of 0..60 bytes", func(c *Ctx) {
					for n := 1; n <= 8; n++ {
						n := n
						if !c.Item(func() {
							self, err := os.Executable()
							if err != nil {
								c.Note("cores: " + err.Error())
								return
							}
							out, err := exec.Command(self, "helper", "ropecpus", fmt.Sprint(n)).CombinedOutput()
							s := string(out)
							switch {
							case strings.HasPrefix(s, "OK "):
								var cores, cnt int
								fmt.Sscanf(s, "OK %d %d", &cores, &cnt)
								c.States(cnt)
								c.Trans(cnt)
								c.Traces(cnt)
								c.Note(fmt.Sprintf("construction with %d cores", cores))
							case strings.HasPrefix(s, "NOEXEC"):
								c.Note("cores: helper not started")
							default:
								c.Violate("", "construction with %d cores: %s (%v)", n, clip(s), err)
							}
						}) {
							return
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C19",
		Assume: []string{"offsets and positions are within the text"},
		Spaces: func(th bool) []Space {
			run := func(c *Ctx, sep string, alpha string, maxlen int, os []oset, vals []string, depth int, alts int) {
				for _, t := range strs(alpha, maxlen) {
					for _, o := range os {
						for alt := 0; alt < alts; alt++ {
							t, o, alt := t, o, alt
							if alt > 0 && alt < 3 {
								continue
							}
							if !c.Item(func() {
								allRopes(c, ropeStart{ropeOpts(o.s, o.j, sep), t, alt}, nil, vals, []int{1, 2, 3}, 1, depth, false, true)
							}) {
								return
							}
						}
					}
				}
			}
			return []Space{
				{"newline", fmt.Sprintf("all texts over {a, newline} of <=%d bytes, 5 leaf-size settings, 2 constructions, every history of <=1 operation", pick(th, 6, 8)), func(c *Ctx) {
					run(c, "\n", "a\n", pick(th, 6, 8), sets[:5], []string{"\n", "b", "\nb\n", ""}, 1, 4)
				}},
				{"newline-deep", fmt.Sprintf("all texts over {a, newline} of <=%d bytes, 3 leaf-size settings, every history of 2 operations", pick(th, 4, 6)), func(c *Ctx) {
					run(c, "\n", "a\n", pick(th, 4, 6), sets[:3], []string{"\n", "b\n"}, 2, 1)
				}},
				{"two-byte", fmt.Sprintf("all texts over {a, CR, LF} of <=%d bytes with separator CRLF and over {x,y,a} with separator xy, 5 leaf-size settings (one without splits), every history of <=1 operation", pick(th, 5, 6)), func(c *Ctx) {
					os := []oset{{100, 0}, {100, 50}, {3, 2}, {2, 1}, {4, 2}}
					run(c, "\r\n", "a\r\n", pick(th, 5, 6), os, []string{"\r\n", "\n", "b"}, 1, 1)
					run(c, "xy", "axy", pick(th, 5, 6), os[1:3], []string{"xy"}, 1, 1)
				}},
				{"other-separators", fmt.Sprintf("all texts of <=%d bytes with separators that overlap themselves (aa, aba, abab), that are three bytes long, or that are unusual bytes, 4 leaf-size settings (two without splits), every history of <=1 operation", pick(th, 7, 8)), func(c *Ctx) {
					os := []oset{{100, 0}, {100, 50}, {4, 2}, {6, 3}}
					n := pick(th, 7, 8)
					for _, sep := range []string{"aa", "aba", "abab", "abb", "a"} {
						run(c, sep, "ab", n, os, []string{"a", "ab", sep}, 1, 1)
					}
					for _, sep := range []string{"\x00", "\xff", "\x80\x80", "\xc3\xa9"} {
						run(c, sep, sep[:1]+sep[len(sep)-1:], n-2, os, []string{sep}, 1, 1)
					}
				}},
				{"two-byte-deep", fmt.Sprintf("texts of whole CRLF lines of <=%d tokens, histories of <=%d operations", pick(th, 4, 5), 2), func(c *Ctx) {
					for _, t := range strs("an", pick(th, 4, 5)) {
						for _, o := range []oset{{100, 50}, {4, 2}, {2, 0}} {
							t, o := strings.ReplaceAll(t, "n", "\r\n"), o
							if !c.Item(func() {
								allRopes(c, ropeStart{ropeOpts(o.s, o.j, "\r\n"), t, 0}, nil, []string{"\r\n", "b"}, []int{1, 2}, 1, 2, false, true)
							}) {
								return
							}
						}
					}
				}},
				{"default-sizes", "texts of 0..3 default leaves with line lengths 1, 2, 63, 4095..4097 and none: one edit around every leaf edge", func(c *Ctx) {
					for _, n := range []int{0, 4095, 4096, 4097, 8192, 8193, 12300} {
						for _, ll := range []int{1, 2, 63, 4095, 4096, 4097, 100000} {
							n, ll := n, ll
							if !c.Item(func() {
								b := []byte(strings.Repeat("abc", n/3+1))[:n]
								for i := ll - 1; i < n; i += ll {
									b[i] = '\n'
								}
								st := ropeStart{linerope.DefaultOptions, string(b), 0}
								if !runRope(c, st, nil, false, true) {
									return
								}
								for _, p := range []int{0, 1, 4094, 4095, 4096, 4097, 8191, 8192, n / 2, n - 1} {
									if p < 0 || p >= n {
										continue
									}
									for _, o := range []ropeOp{{kind: 'i', a: p, val: "\n"}, {kind: 'i', a: p, val: strings.Repeat("x\n", 2100)}, {kind: 'd', a: p, b: p + 1}, {kind: 'd', a: p, b: min(n, p+3000)}, {kind: 's', a: p}} {
										if !runRope(c, st, []ropeOp{o}, false, true) || !runRope(c, st, []ropeOp{o, {kind: 'b'}}, false, true) {
											return
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
			}
		}})
}
