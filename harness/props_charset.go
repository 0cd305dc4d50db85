package main

// C25: the charset package against a plain 256-element table.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"

	"github.com/zyedidia/gpeg/charset"
)

type model [4]uint64

func (m *model) add(b int)      { m[b>>6] |= 1 << (b & 63) }
func (m *model) has(b int) bool { return m[b>>6]>>(b&63)&1 != 0 }
func (m *model) size() (n int) {
	for _, w := range m {
		n += bits.OnesCount64(w)
	}
	return
}

func (m *model) members() (bs []byte) {
	for b := 0; b < 256; b++ {
		if m.has(b) {
			bs = append(bs, byte(b))
		}
	}
	return
}

// parseSetString reads the printed form of a set: quoted characters and
// first..last ranges, separated by commas, in braces.
func parseSetString(s string) (m model, err error) {
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return m, fmt.Errorf("no braces")
	}
	s = s[1 : len(s)-1]
	char := func() (int, error) {
		q, err := strconv.QuotedPrefix(s)
		if err != nil {
			return 0, err
		}
		r, _, tail, err := strconv.UnquoteChar(q[1:], '\'')
		if err != nil || tail != "'" || r > 255 || q[0] != '\'' {
			return 0, fmt.Errorf("bad character %s", q)
		}
		s = s[len(q):]
		return int(r), nil
	}
	for first := true; s != ""; first = false {
		if !first {
			if s[0] != ',' {
				return m, fmt.Errorf("expected a comma at %q", s)
			}
			s = s[1:]
		}
		lo, err := char()
		if err != nil {
			return m, err
		}
		hi := lo
		if strings.HasPrefix(s, "..") {
			s = s[2:]
			if hi, err = char(); err != nil {
				return m, err
			}
		}
		for b := lo; b <= hi; b++ {
			m.add(b)
		}
	}
	return m, nil
}

// checkSet compares a set with the model.
func checkSet(c *Ctx, s charset.Set, m *model, print bool, how func() string) bool {
	c.States(1)
	c.Traces(1)
	c.Trans(256)
	for b := 0; b < 256; b++ {
		if s.Has(byte(b)) != m.has(b) {
			c.Violate("", "%s: Has(%d) = %v", how(), b, s.Has(byte(b)))
			return false
		}
	}
	if s.Size() != m.size() {
		c.Violate("", "%s: Size() = %d, expected %d", how(), s.Size(), m.size())
		return false
	}
	small := m[2] == 0 && m[3] == 0
	if s.IsSmall() != small {
		c.Violate("", "%s: IsSmall() = %v", how(), s.IsSmall())
		return false
	}
	if small {
		ss := s.SmallSet()
		if ss.Size() != m.size() {
			c.Violate("", "%s: SmallSet().Size() = %d, expected %d", how(), ss.Size(), m.size())
			return false
		}
		for b := 0; b < 128; b++ {
			if ss.Has(byte(b)) != m.has(b) {
				c.Violate("", "%s: SmallSet().Has(%d) = %v", how(), b, ss.Has(byte(b)))
				return false
			}
		}
	}
	if print {
		str := s.String()
		got, err := parseSetString(str)
		if err != nil || got != *m {
			c.Violate("", "%s: String() = %s, which lists %v instead of %v (%v)", how(), str, got.members(), m.members(), err)
			return false
		}
		c.Outcome(str)
	}
	return true
}

func newSet(bs []byte) (charset.Set, *model) {
	m := &model{}
	for _, b := range bs {
		m.add(int(b))
	}
	return charset.New(bs), m
}

func rangeSet(lo, hi int) (charset.Set, *model) {
	m := &model{}
	for b := lo; b <= hi; b++ {
		m.add(b)
	}
	return charset.Range(byte(lo), byte(hi)), m
}

// pairOps checks the operations of two sets.
func pairOps(c *Ctx, a, b charset.Set, ma, mb *model, print bool, how func() string) bool {
	var add, sub, sub2, compl model
	for i := range add {
		add[i] = ma[i] | mb[i]
		sub[i] = ma[i] &^ mb[i]
		sub2[i] = mb[i] &^ ma[i]
		compl[i] = ^ma[i]
	}
	return checkSet(c, a.Add(b), &add, print, func() string { return how() + " Add" }) &&
		checkSet(c, b.Add(a), &add, false, func() string { return how() + " Add swapped" }) &&
		checkSet(c, a.Sub(b), &sub, print, func() string { return how() + " Sub" }) &&
		checkSet(c, b.Sub(a), &sub2, false, func() string { return how() + " Sub swapped" }) &&
		checkSet(c, a.Complement(), &compl, print, func() string { return how() + " Complement" }) &&
		checkSet(c, a.Complement().Complement(), ma, false, func() string { return how() + " Complement twice" }) &&
		checkSet(c, a, ma, false, func() string { return how() + " (first operand afterwards)" }) &&
		checkSet(c, b, mb, false, func() string { return how() + " (second operand afterwards)" })
}

func init() {
	register(&Property{ID: "C25", Assume: nil,
		Spaces: func(th bool) []Space {
			edges := []int{0, 1, 31, 32, 62, 63, 64, 65, 97, 126, 127, 128, 129, 190, 191, 192, 193, 253, 254, 255}
			return []Space{
				{"ranges", "all 65536 ranges (also empty ones), their complement and printed form, and all pairs of bytes given to New in both orders, and twice", func(c *Ctx) {
					for lo := 0; lo < 256; lo++ {
						lo := lo
						if !c.Item(func() {
							for hi := 0; hi < 256; hi++ {
								hi := hi
								s, m := rangeSet(lo, hi)
								how := func() string { return fmt.Sprintf("Range(%d, %d)", lo, hi) }
								if !checkSet(c, s, m, true, how) {
									return
								}
								var cm model
								for i := range cm {
									cm[i] = ^m[i]
								}
								if !checkSet(c, s.Complement(), &cm, true, func() string { return how() + ".Complement()" }) {
									return
								}
								bs := []byte{byte(lo), byte(hi), byte(lo)}
								s, m = newSet(bs)
								if !checkSet(c, s, m, true, func() string { return fmt.Sprintf("New(%v)", bs) }) {
									return
								}
							}
							c.Sample(func() string { return fmt.Sprintf("Range(%d, hi) and New({%d, hi}) for all hi", lo, lo) })
						}) {
							return
						}
					}
				}},
				{"pairs", fmt.Sprintf("union, difference and complement of all pairs of ranges with ends in %v%s", edges, map[bool]string{true: " and all pairs of a range with any other range of length <=3", false: ""}[th]), func(c *Ctx) {
					type sm struct {
						s charset.Set
						m *model
						n string
					}
					var fam []sm
					for i, lo := range edges {
						for _, hi := range edges[i:] {
							s, m := rangeSet(lo, hi)
							fam = append(fam, sm{s, m, fmt.Sprintf("Range(%d, %d)", lo, hi)})
						}
					}
					s, m := newSet(nil)
					fam = append(fam, sm{s, m, "New(nil)"})
					base := len(fam)
					if th {
						for lo := 0; lo < 256; lo++ {
							for hi := lo; hi < lo+3 && hi < 256; hi++ {
								s, m := rangeSet(lo, hi)
								fam = append(fam, sm{s, m, fmt.Sprintf("Range(%d, %d)", lo, hi)})
							}
						}
					}
					for i := 0; i < base; i++ {
						i := i
						if !c.Item(func() {
							for j := range fam {
								if j < base && j < i {
									continue
								}
								x, y := fam[i], fam[j]
								if !pairOps(c, x.s, y.s, x.m, y.m, th || (i+j)%4 == 0, func() string { return x.n + ", " + y.n }) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"subsets", "all subsets of the 12 bytes at word edges {0,1,63,64,65,127,128,191,192,253,254,255}, and all pairs of subsets of the 6 bytes {0,63,64,127,128,255}", func(c *Ctx) {
					e := []byte{0, 1, 63, 64, 65, 127, 128, 191, 192, 253, 254, 255}
					sub := func(e []byte, k int) (bs []byte) {
						for i := range e {
							if k>>i&1 != 0 {
								bs = append(bs, e[i])
							}
						}
						return
					}
					for hi := 0; hi < 64; hi++ {
						hi := hi
						if !c.Item(func() {
							for lo := 0; lo < 64; lo++ {
								bs := sub(e, hi<<6|lo)
								s, m := newSet(bs)
								if !checkSet(c, s, m, true, func() string { return fmt.Sprintf("New(%v)", bs) }) {
									return
								}
								bs = append(bs[:len(bs):len(bs)], 'k')
								s2, m2 := newSet(bs)
								if !pairOps(c, s, s2, m, m2, true, func() string { return fmt.Sprintf("New(%v) with and without 'k'", bs) }) {
									return
								}
								x, y := sub([]byte{0, 63, 64, 127, 128, 255}, hi), sub([]byte{0, 63, 64, 127, 128, 255}, lo)
								s, m = newSet(x)
								s2, m2 = newSet(y)
								if !pairOps(c, s, s2, m, m2, true, func() string { return fmt.Sprintf("New(%v), New(%v)", x, y) }) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
			}
		}})
}
