package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/vm"
)

// docBytes returns n bytes that differ between neighbours and between chunks.
func docBytes(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((i*7 + i/251*3 + 1) % 256)
	}
	return b
}

var errBroken = errors.New("broken")

// readerAts are the ways an io.ReaderAt may behave within its contract.
type eagerEOF struct{ b []byte } // reports end of file together with the last byte

func (r eagerEOF) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 {
		return 0, errBroken
	}
	if off >= int64(len(r.b)) {
		return 0, io.EOF
	}
	n := copy(p, r.b[off:])
	if off+int64(n) == int64(len(r.b)) {
		return n, io.EOF
	}
	return n, nil
}

type scratchAt struct{ b []byte } // uses all of p as scratch space

func (r scratchAt) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = 0xAA
	}
	if off < 0 || off > int64(len(r.b)) {
		return 0, errBroken
	}
	n := copy(p, r.b[off:])
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}

type brokenEnd struct{ b []byte } // ends with an error other than EOF

func (r brokenEnd) ReadAt(p []byte, off int64) (int, error) {
	if off < 0 || off >= int64(len(r.b)) {
		return 0, errBroken
	}
	n := copy(p, r.b[off:])
	if n < len(p) {
		return n, errBroken
	}
	return n, nil
}

var readerKinds = []struct {
	name string
	mk   func(b []byte) io.ReaderAt
}{
	{"bytes.Reader", func(b []byte) io.ReaderAt { return bytes.NewReader(b) }},
	{"eager EOF", func(b []byte) io.ReaderAt { return eagerEOF{b} }},
	{"scratch", func(b []byte) io.ReaderAt { return scratchAt{b} }},
	{"error at end", func(b []byte) io.ReaderAt { return brokenEnd{b} }},
	{"FromReader", func(b []byte) io.ReaderAt { return input.FromReader(bytes.NewReader(b)) }},
	{"rope", func(b []byte) io.ReaderAt {
		return linerope.NewWithOpts(b, linerope.Options{SplitLen: 700, JoinLen: 100, RebalanceRatio: 1.2, LineSep: []byte("\n")})
	}},
}

type inop struct {
	kind byte // 'p'eek, 'b'efore, 'a'dvance, 's'eek, 'l' slice, 'r'eset furthest
	n, m int
}

func (o inop) String() string {
	switch o.kind {
	case 'p':
		return "Peek"
	case 'b':
		return "PeekBefore"
	case 'a':
		return fmt.Sprintf("Advance(%d)", o.n)
	case 's':
		return fmt.Sprintf("SeekTo(%d)", o.n)
	case 'l':
		return fmt.Sprintf("Slice(%d,%d)", o.n, o.m)
	}
	return "ResetFurthest"
}

// inModel is the specification of input.Input.
type inModel struct {
	b    []byte
	pos  int
	lost bool // after a failed advance the position must be sought
	dep  int  // furthest position whose content answers depended on
}

// runInput applies ops; it reports whether the history is meaningful and a
// mismatch, if any.
func runInput(c *Ctx, r io.ReaderAt, b []byte, ops []inop) (valid bool, bad string) {
	in := input.NewInput(r)
	m := inModel{b: b}
	// a slice is the caller's: reading on does not change it
	var slices [][2][]byte
	dep := func(p int) {
		if p > m.dep {
			m.dep = p
		}
	}
	at := func(p int) (byte, bool) {
		if p < 0 || p >= len(b) {
			return 0, false
		}
		return b[p], true
	}
	for i, o := range ops {
		if m.lost && o.kind != 's' && o.kind != 'l' {
			return false, ""
		}
		switch o.kind {
		case 'p':
			g, ok := in.Peek()
			w, wok := at(m.pos)
			dep(min(m.pos, len(b)))
			if ok != wok || ok && g != w {
				bad = fmt.Sprintf("Peek at %d gives %#x, %v; expected %#x, %v", m.pos, g, ok, w, wok)
			}
		case 'b':
			g, ok := in.PeekBefore()
			w, wok := at(m.pos - 1)
			if ok != wok || ok && g != w {
				bad = fmt.Sprintf("PeekBefore at %d gives %#x, %v; expected %#x, %v", m.pos, g, ok, w, wok)
			}
		case 'a':
			ok := in.Advance(o.n)
			wok := o.n == 0 || m.pos+o.n <= len(b)
			if o.n > 0 {
				dep(min(m.pos+o.n-1, len(b)))
			}
			if ok != wok {
				bad = fmt.Sprintf("Advance(%d) at %d of %d gives %v", o.n, m.pos, len(b), ok)
			}
			if wok {
				m.pos += o.n
			} else {
				m.lost = true
			}
		case 's':
			ok := in.SeekTo(o.n)
			if ok != (o.n < len(b)) {
				bad = fmt.Sprintf("SeekTo(%d) of %d gives %v", o.n, len(b), ok)
			}
			m.pos = o.n
			m.lost = false
		case 'l':
			g := in.Slice(o.n, o.m)
			w := []byte{}
			if o.n < len(b) {
				w = b[o.n:min(o.m, len(b))]
			}
			if !bytes.Equal(g, w) {
				bad = fmt.Sprintf("Slice(%d,%d) gives %d bytes, expected %d", o.n, o.m, len(g), len(w))
			}
			slices = append(slices, [2][]byte{g, w})
		case 'r':
			in.ResetFurthest()
			m.dep = 0
		}
		if bad == "" && !m.lost && in.Pos() != m.pos {
			bad = fmt.Sprintf("Pos is %d, expected %d", in.Pos(), m.pos)
		}
		if bad == "" && in.Furthest() < m.dep {
			bad = fmt.Sprintf("Furthest is %d, but the answers depended on position %d", in.Furthest(), m.dep)
		}
		if bad != "" {
			return true, fmt.Sprintf("after operation %d: %s", i+1, bad)
		}
	}
	for i, x := range slices {
		if !bytes.Equal(x[0], x[1]) {
			return true, fmt.Sprintf("the bytes of slice %d were changed by the operations after it", i+1)
		}
	}
	c.Outcomes(func() string { return fmt.Sprint(len(b), m.pos, m.dep, m.lost, in.Furthest()) })
	return true, ""
}

func allInput(c *Ctx, kind int, b []byte, prefix []inop, alpha []inop, depth int) bool {
	rd := readerKinds[kind]
	buf := append([]inop{}, prefix...)
	var rec func(d int) bool
	shared := rd.mk(b)
	rec = func(d int) bool {
		if d == 0 {
			r := shared
			if rd.name == "FromReader" {
				r = rd.mk(b)
			}
			c.Guard(func() string {
				return fmt.Sprintf("document of %d bytes, reader %q, operations %v", len(b), rd.name, buf)
			}, func() {
				valid, bad := runInput(c, r, b, buf)
				if !valid {
					return
				}
				c.States(1)
				c.Trans(len(buf))
				c.Traces(1)
				if bad != "" {
					c.Violate("", "document of %d bytes, reader %q, operations %v: %s", len(b), rd.name, buf, bad)
				}
			})
			return !c.itemViol
		}
		for _, o := range alpha {
			buf = append(buf, o)
			if !rec(d - 1) {
				return false
			}
			buf = buf[:len(buf)-1]
		}
		return true
	}
	ok := rec(depth)
	c.Sample(func() string { return fmt.Sprintf("%d bytes, %s: %v...", len(b), rd.name, buf) })
	return ok
}

// script says how a stream delivers its bytes: each step hands out n bytes
// with an error.
type sstep struct {
	n   int
	err error
}

type scripted struct {
	b      []byte
	steps  []sstep
	final  error
	sticky bool
}

func (s *scripted) Read(p []byte) (int, error) {
	if len(s.steps) == 0 {
		if len(s.b) > 0 {
			n := copy(p, s.b)
			s.b = s.b[n:]
			return n, nil
		}
		return 0, s.final
	}
	st := s.steps[0]
	n := copy(p, s.b[:min(st.n, len(s.b))])
	s.b = s.b[n:]
	if n < st.n && len(s.b) > 0 {
		s.steps[0].n -= n
		return n, nil
	}
	s.steps = s.steps[1:]
	return n, st.err
}

func scriptString(s []sstep) string {
	var o []string
	for _, x := range s {
		if x.err != nil {
			o = append(o, fmt.Sprintf("%d+%v", x.n, x.err))
		} else {
			o = append(o, fmt.Sprint(x.n))
		}
	}
	return "[" + strings.Join(o, " ") + "]"
}

// splits enumerates the delivery scripts of n bytes: all compositions into
// steps, with up to zeros empty reads, the end signalled with the last data or
// afterwards.
func splits(n int, maxstep int, zeros int, fn func([]sstep)) {
	var rec func(left, z int, cur []sstep)
	rec = func(left, z int, cur []sstep) {
		if left == 0 {
			fn(cur)
		}
		if z > 0 {
			rec2 := append(cur[:len(cur):len(cur)], sstep{0, nil})
			if left > 0 {
				rec(left, z-1, rec2)
			}
		}
		for k := 1; k <= left && k <= maxstep; k++ {
			rec(left-k, z, append(cur[:len(cur):len(cur)], sstep{k, nil}))
		}
	}
	rec(n, zeros, nil)
}

func init() {
	register(&Property{ID: "C16",
		Assume: []string{"after a failed advance the position is set by a seek before anything else is asked", "the dependency of an answer means the bytes peeked at or advanced over; looking back, seeking and slicing are not tracked"},
		Spaces: func(th bool) []Space {
			lens := []int{0, 1, 2, 3, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12300}
			near := func(n int) []int {
				set := map[int]bool{}
				var out []int
				add := func(p int) {
					if p >= 0 && !set[p] {
						set[p] = true
						out = append(out, p)
					}
				}
				add(0)
				if n > 4000 {
					add(4095)
					add(4096)
				}
				if n > 8000 {
					add(8192)
				}
				for _, d := range []int{-1, 0, 2} {
					add(n + d)
				}
				return out
			}
			alpha := func(n int) []inop {
				a := []inop{{kind: 'p'}, {kind: 'b'}, {kind: 'r'}, {kind: 'a', n: 1}, {kind: 'a', n: 2}, {kind: 'a', n: 0}, {kind: 'l', n: 0, m: 2}}
				if n > 4000 {
					a = append(a, inop{kind: 'a', n: 255}, inop{kind: 'a', n: 4095}, inop{kind: 'a', n: 4096}, inop{kind: 'a', n: 4097}, inop{kind: 'l', n: 4090, m: 4100}, inop{kind: 'l', n: n - 2, m: n})
				}
				for _, p := range near(n) {
					a = append(a, inop{kind: 's', n: p})
				}
				return a
			}
			return []Space{
				{"ops", fmt.Sprintf("every sequence of 1..4 operations (peek, look back, advance by 8 distances, seek to 8 places, slice, reset) on documents of 12 lengths around multiples of the window size, 6 kinds of reader (length 4 for %s)", map[bool]string{false: "one of them", true: "all of them"}[th]), func(c *Ctx) {
					for _, n := range lens {
						b := docBytes(n)
						al := alpha(n)
						for k := range readerKinds {
							for _, o := range al {
								b, k, o := b, k, o
								if !c.Item(func() {
									for d := 0; d <= 3; d++ {
										if d == 3 && k != 0 && !th {
											break
										}
										if !allInput(c, k, b, []inop{o}, al, d) {
											return
										}
									}
								}) {
									return
								}
							}
						}
					}
				}},
				{"walk", "stepping through documents of 0..3 windows in equal steps of 1..9, 31..33, 255, 2047..2049, 4095..4097, 8191..8193 with a peek and a look back after each step, and back again; each kind of reader", func(c *Ctx) {
					steps := []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 31, 32, 33, 127, 255, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193}
					for _, n := range append(lens, 5000, 9000, 16384) {
						for k := range readerKinds {
							n, k := n, k
							if !c.Item(func() {
								b := docBytes(n)
								for _, s := range steps {
									if s == 1 && k == 5 && !th {
										continue
									}
									var ops []inop
									for p := 0; p+s <= n; p += s {
										ops = append(ops, inop{kind: 'a', n: s}, inop{kind: 'p'}, inop{kind: 'b'})
									}
									ops = append(ops, inop{kind: 'a', n: s}, inop{kind: 's', n: n}, inop{kind: 'p'})
									for p := n; p >= 0; p -= s {
										ops = append(ops, inop{kind: 's', n: p}, inop{kind: 'p'}, inop{kind: 'b'})
									}
									c.Guard(func() string { return fmt.Sprintf("%d bytes, reader %s, steps of %d", n, readerKinds[k].name, s) }, func() {
										_, bad := runInput(c, readerKinds[k].mk(b), b, ops)
										c.States(1)
										c.Trans(len(ops))
										c.Traces(1)
										if bad != "" {
											c.Violate("", "%d bytes, reader %s, steps of %d forward and back: %s", n, readerKinds[k].name, s, bad)
										}
									})
									if c.itemViol {
										return
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"every-position", "seek to every position of documents of 0..3 windows, then peek, look back, advance over every distance to a window edge or the end +-1", func(c *Ctx) {
					for _, n := range lens {
						for k := range readerKinds[:4] {
							for part := 0; part < 8; part++ {
								n, k, part := n, k, part
								if !c.Item(func() {
									b := docBytes(n)
									r := readerKinds[k].mk(b)
									for p := part; p <= n+1; p += 8 {
										if !th && p > 40 && p%4096 > 40 && p%4096 < 4056 && p < n-40 && (p/8)%13 != 0 {
											continue
										}
										for _, e := range []int{p, 4096, 8192, n} {
											for d := -1; d <= 1; d++ {
												if e+d-p < 0 {
													continue
												}
												ops := []inop{{kind: 's', n: p}, {kind: 'p'}, {kind: 'b'}, {kind: 'a', n: e + d - p}, {kind: 'p'}, {kind: 'b'}}
												_, bad := runInput(c, r, b, ops)
												if bad == "" {
													_, bad = runInput(c, r, b, []inop{{kind: 'a', n: p / 2}, {kind: 's', n: p}, {kind: 'a', n: e + d - p}, {kind: 's', n: max(p-1, 0)}, {kind: 'p'}, {kind: 'a', n: 1}, {kind: 'p'}, {kind: 'b'}})
												}
												c.States(2)
												c.Trans(12)
												c.Traces(2)
												if bad != "" {
													c.Violate("", "%d bytes, reader %s, operations %v: %s", n, readerKinds[k].name, ops, bad)
													return
												}
											}
										}
									}
								}) {
									return
								}
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C17",
		Assume: []string{"the stream makes progress (no endless empty reads)", "offsets are not negative"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"scripts", fmt.Sprintf("streams of 0..%d bytes: every split into reads, with up to 2 empty reads, the end signalled with or after the last bytes or by an error; every sequence of 1..3 reads at offsets 0..n+1 of lengths 0..n+1", pick(th, 5, 6)), func(c *Ctx) {
					for n := 0; n <= pick(th, 5, 6); n++ {
						b := docBytes(n)
						var reads [][2]int
						for o := 0; o <= n+1; o++ {
							for l := 0; l <= n+1; l++ {
								if o+l <= n+2 {
									reads = append(reads, [2]int{o, l})
								}
							}
						}
						splits(n, n, 2, func(sc []sstep) {
							if c.stopped {
								return
							}
							for end := 0; end < 4; end++ {
								steps := append([]sstep{}, sc...)
								final := io.EOF
								switch end {
								case 1:
									if len(steps) == 0 {
										continue
									}
									steps[len(steps)-1].err = io.EOF
								case 2:
									final = errBroken
								case 3:
									if len(steps) == 0 {
										continue
									}
									steps[len(steps)-1].err = errBroken
									final = errBroken
								}
								if !c.Item(func() {
									var seqs func(cur [][2]int, d int) bool
									seqs = func(cur [][2]int, d int) bool {
										if len(cur) > 0 && !checkReads(c, b, steps, final, cur) {
											return false
										}
										if d == 0 {
											return true
										}
										for _, r := range reads {
											if !seqs(append(cur[:len(cur):len(cur)], r), d-1) {
												return false
											}
										}
										return true
									}
									depth := 3
									if n > 3 {
										depth = 2
									}
									seqs(nil, depth)
									c.Sample(func() string { return fmt.Sprintf("%d bytes delivered as %s then %v", n, scriptString(steps), final) })
								}) {
									return
								}
							}
						})
						if c.stopped {
							return
						}
					}
				}},
				{"mid-errors", "streams of 3..6 bytes that report an error once at every point (with and without data) and go on: every sequence of 3 reads", func(c *Ctx) {
					for n := 3; n <= pick(th, 6, 7); n++ {
						b := docBytes(n)
						for cut := 0; cut <= n; cut++ {
							for cut2 := cut; cut2 <= n; cut2++ {
								for form := 0; form < 3; form++ {
									n, cut, cut2, form := n, cut, cut2, form
									if !c.Item(func() {
										var steps []sstep
										switch form {
										case 0:
											steps = []sstep{{cut, errBroken}, {cut2 - cut, nil}, {0, errBroken}, {n - cut2, nil}}
										case 1:
											steps = []sstep{{cut, nil}, {0, errBroken}, {cut2 - cut, errBroken}, {n - cut2, io.EOF}}
										case 2:
											steps = []sstep{{cut, io.EOF}, {cut2 - cut, nil}, {n - cut2, nil}}
										}
										for o1 := 0; o1 <= n; o1++ {
											for l1 := 0; l1 <= n-o1+1; l1++ {
												for o2 := 0; o2 <= n; o2++ {
													for l2 := 0; l2 <= n-o2+1; l2++ {
														for _, r3 := range [][2]int{{0, n}, {n - 1, 1}, {0, n + 2}, {cut, 1}} {
															if !checkReads(c, b, steps, io.EOF, [][2]int{{o1, l1}, {o2, l2}, r3}) {
																return
															}
														}
													}
												}
											}
										}
									}) {
										return
									}
								}
							}
						}
					}
				}},
				{"large", "streams of 0..3 internal buffers (4096 bytes) +-1 delivered in steps of 1, 511..513, 4095..4097, 10000 bytes; reads of every length and offset around the buffer edges, in both orders", func(c *Ctx) {
					for _, n := range []int{0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12289} {
						for _, step := range []int{1, 511, 512, 513, 4095, 4096, 4097, 10000} {
							for end := 0; end < 2; end++ {
								n, step, end := n, step, end
								if !c.Item(func() {
									b := docBytes(n)
									var steps []sstep
									for l := n; l > 0; l -= step {
										steps = append(steps, sstep{min(step, l), nil})
									}
									if end == 1 && len(steps) > 0 {
										steps[len(steps)-1].err = io.EOF
									}
									edges := []int{0, 1, 4095, 4096, 4097, 8192, n - 1, n, n + 1}
									for _, a := range edges {
										for _, z := range edges {
											if a < 0 || z < a {
												continue
											}
											if !checkReads(c, b, steps, io.EOF, [][2]int{{a, z - a}, {0, min(n, 4100)}, {a, z - a}}) {
												return
											}
											if !checkReads(c, b, steps, io.EOF, [][2]int{{z, 1}, {a, z - a}, {0, n}, {0, n + 1}}) {
												return
											}
										}
									}
								}) {
									return
								}
							}
						}
					}
				}},
				{"parse", fmt.Sprintf("all patterns of <=%d operators and look-back patterns parsed from a wrapped stream with every delivery split of 3-byte inputs, and behind prefixes that cross the window edges", pick(th, 4, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("ab"), set("b"), any(2)}, unary: []func(*P) *P{star, opt, not, and}, binary: bBasic}
					docs := strs("ab", 3)
					batch(c, a, pick(th, 4, 5), 16, nil, func(p *P) {
						code, err := compileSpec(p)
						if err != nil {
							c.Violate("", "pattern %s does not compile: %v", p, err)
							return
						}
						for _, d := range docs {
							r := ref(p, d)
							if r.undef != "" {
								c.Skip(1)
								continue
							}
							splits(len(d), 3, 1, func(sc []sstep) {
								for end := 0; end < 3; end++ {
									steps := append([]sstep{}, sc...)
									var final error = io.EOF
									if end == 2 {
										final = errBroken
									}
									if end == 1 {
										if len(steps) == 0 {
											continue
										}
										steps[len(steps)-1].err = io.EOF
									}
									checkStream(c, p, &code, d, steps, final, r)
								}
							})
						}
					})
					for _, off := range []int{4094, 4095, 4096, 4097, 8191, 8192} {
						for _, step := range []int{1, 1000, 4095, 4096, 4097, 5000} {
							off, step := off, step
							if !c.Item(func() {
								for _, t := range []string{"", "a", "ab", "abb", "ba"} {
									d := strings.Repeat("b", off) + t
									for _, p := range []*P{seq(star(lit("b")), capt(opt(lit("ab")), 1)), search(capt(lit("ab"), 1)), seq(jump(off), capt(star(any(1)), 1), not(any(1))), seq(star(seq(not(lit("ab")), any(1))), lit("ab"))} {
										code, err := compileSpec(p)
										if err != nil {
											c.Violate("", "pattern %s does not compile: %v", p, err)
											return
										}
										r := refLimit(p, d, 2000000)
										if r.undef != "" {
											c.Skip(1)
											continue
										}
										var steps []sstep
										for l := len(d); l > 0; l -= step {
											steps = append(steps, sstep{min(step, l), nil})
										}
										checkStream(c, p, &code, d, steps, io.EOF, r)
									}
								}
							}) {
								return
							}
						}
					}
				}},
			}
		}})
}

func checkStream(c *Ctx, p *P, code *vm.Code, d string, steps []sstep, final error, r mres) {
	c.Guard(func() string {
		return fmt.Sprintf("pattern %s on %q delivered as %s", p, clip(d), scriptString(steps))
	}, func() {
		rd := input.FromReader(&scripted{b: []byte(d), steps: append([]sstep{}, steps...), final: final})
		ok, pos, capt, errs := code.Exec(rd, memo.NoneTable{})
		c.Outcomes(func() string { return fmt.Sprint(ok, pos, len(errs), len(d)) })
		c.States(1)
		c.Traces(1)
		c.Trans(r.steps)
		if s := diff(r, ires{ok, pos, capt, errs}, false); s != "" {
			c.Violate("", "pattern %s on %q delivered as %s then %v: %s", p, clip(d), scriptString(steps), final, s)
		}
	})
}

func checkReads(c *Ctx, b []byte, steps []sstep, final error, reads [][2]int) bool {
	desc := func() string {
		return fmt.Sprintf("%d bytes delivered as %s then %v, reads (offset, length) %v", len(b), clip(scriptString(steps)), final, reads)
	}
	hasErr := false
	for i, s := range steps {
		if s.err != nil && i != len(steps)-1 {
			hasErr = true
		}
	}
	return c.Guard(desc, func() {
		out := ""
		rd := input.FromReader(&scripted{b: b, steps: append([]sstep{}, steps...), final: final})
		for i, r := range reads {
			buf := bytes.Repeat([]byte{0xEE}, r[1])
			n, err := rd.ReadAt(buf, int64(r[0]))
			out += fmt.Sprint(n, err != nil, " ")
			exist := max(0, min(r[1], len(b)-r[0]))
			bad := ""
			switch {
			case n < 0 || n > r[1]:
				bad = fmt.Sprintf("returned count %d", n)
			case n > exist:
				bad = fmt.Sprintf("returned %d bytes, only %d exist", n, exist)
			case n < exist && !hasErr:
				bad = fmt.Sprintf("returned %d bytes (%v), %d exist", n, err, exist)
			case n < r[1] && err == nil:
				bad = fmt.Sprintf("returned %d of %d bytes without an error", n, r[1])
			case n > 0 && !bytes.Equal(buf[:n], b[r[0]:r[0]+n]):
				bad = fmt.Sprintf("returned wrong bytes %v, expected %v", clip(string(buf[:n])), clip(string(b[r[0]:r[0]+n])))
			}
			if bad != "" {
				c.Violate("", "%s: read %d: %s", desc(), i+1, bad)
				return
			}
		}
		c.Outcomes(func() string { return fmt.Sprint(len(b), out) })
		c.States(1)
		c.Trans(len(reads))
		c.Traces(1)
	}) && !c.itemViol
}
