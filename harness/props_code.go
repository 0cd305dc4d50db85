package main

// C20 (serialization), C21 (damaged serialized parsers) and C26 (operand
// limits of the encoding).

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"regexp/syntax"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// UserChecker is a checker a user could write and register with gob.
type UserChecker struct {
	Max  int
	Skip int
}

func (u *UserChecker) Check(b []byte, src *input.Input, id, flag int) int {
	if len(b)+id > u.Max {
		return -1
	}
	return u.Skip
}

// UserValueChecker is one with a value receiver.
type UserValueChecker struct{ Words []string }

func (u UserValueChecker) Check(b []byte, src *input.Input, id, flag int) int {
	for _, w := range u.Words {
		if w == string(b) {
			return 0
		}
	}
	return -1
}

func init() {
	gob.Register(&UserChecker{})
	gob.Register(UserValueChecker{})
}

type codeRoute struct {
	name string
	code vm.Code
}

// otherCode is saved and loaded in between.
var otherCode = vm.Encode(pattern.MustCompile(star(or(capt(lit("zz"), 77), set("yz"), errp("zz", nil))).build()))

// copies returns all serialized copies of a parser, and the parser itself.
func copies(code *vm.Code, json bool) (rs []codeRoute, err error) {
	b, err := code.ToBytes()
	if err != nil {
		return nil, fmt.Errorf("ToBytes: %v", err)
	}
	if ob, err := otherCode.ToBytes(); err == nil {
		vm.FromBytes(ob)
	}
	c1, err := vm.FromBytes(b)
	if err != nil {
		return nil, fmt.Errorf("FromBytes: %v", err)
	}
	for i := range b {
		b[i] ^= 0x55 // a loaded parser does not depend on the data
	}
	rs = append(rs, codeRoute{"the parser itself after it was saved", *code}, codeRoute{"binary copy", c1})
	b2, err := c1.ToBytes()
	if err != nil {
		return nil, fmt.Errorf("ToBytes of the loaded parser: %v", err)
	}
	c2, err := vm.FromBytes(b2)
	if err != nil {
		return nil, fmt.Errorf("FromBytes of a copy of a copy: %v", err)
	}
	rs = append(rs, codeRoute{"binary copy of a binary copy", c2})
	if json {
		j, err := code.ToJson()
		if err != nil {
			return nil, fmt.Errorf("ToJson: %v", err)
		}
		if oj, err := otherCode.ToJson(); err == nil {
			vm.FromJson(oj)
		}
		c3, err := vm.FromJson(j)
		if err != nil {
			return nil, fmt.Errorf("FromJson: %v", err)
		}
		for i := range j {
			j[i] ^= 0x15
		}
		rs = append(rs, codeRoute{"JSON copy", c3})
		b, err := c3.ToBytes()
		if err != nil {
			return nil, fmt.Errorf("ToBytes of a JSON copy: %v", err)
		}
		c4, err := vm.FromBytes(b)
		if err != nil {
			return nil, fmt.Errorf("FromBytes of a JSON copy: %v", err)
		}
		rs = append(rs, codeRoute{"binary copy of a JSON copy", c4})
	}
	return rs, nil
}

// checkCopies compares a parser, and all of its serialized copies, with each
// other on all docs, with and without a memo table.
func checkCopies(c *Ctx, name func() string, code *vm.Code, docs []string, json bool, skip func(string) bool) bool {
	var rs []codeRoute
	var err error
	wants := make([]ires, len(docs))
	if !c.Guard(name, func() {
		for i, d := range docs {
			if skip == nil || !skip(d) {
				wants[i] = run(code, d, memo.NoneTable{})
			}
		}
	}) {
		return false
	}
	if !c.Guard(func() string { return name() + "\nsaving and loading" }, func() { rs, err = copies(code, json) }) {
		return false
	}
	if err != nil {
		c.Violate("", "pattern: %s\n%v", name(), err)
		return false
	}
	return c.Guard(func() string { return name() + "\nrunning a loaded parser" }, func() {
		for i, d := range docs {
			if skip != nil && skip(d) {
				c.Skip(1)
				continue
			}
			want := wants[i]
			c.Outcome(want.String())
			for _, r := range rs {
				for k := 0; k < 2; k++ {
					var got ires
					if k == 0 {
						got = run(&r.code, d, memo.NoneTable{})
					} else {
						tbl := memo.NewTreeTable(0)
						run(&r.code, d, tbl)
						got = run(&r.code, d, tbl)
						if len(want.errs) > 0 {
							break // memoized results do not report errors again
						}
					}
					c.States(1)
					c.Traces(1)
					c.Trans(len(d) + 1)
					if e := same(want, got, true); e != "" {
						key := ""
						if strings.Contains(r.name, "JSON") && jsonInvalidUTF8(want, got) {
							key = "json-invalid-utf8-message"
						}
						c.Violate(key, "pattern: %s\ninput: %q\n%s: %s", name(), clip(d), r.name, e)
						if key == "" {
							return
						}
					}
				}
			}
		}
		c.Sample(func() string { return name() + fmt.Sprintf(": %d copies agree on %d inputs", len(rs), len(docs)) })
	}) && !c.itemViol
}

// jsonInvalidUTF8 reports whether the results differ only in that invalid
// UTF-8 in messages was replaced.
func jsonInvalidUTF8(want, got ires) bool {
	if same(want, got, false) != "" || len(want.errs) != len(got.errs) {
		return false
	}
	for i, e := range want.errs {
		if got.errs[i].Pos != e.Pos || got.errs[i].Message != string([]rune(e.Message)) {
			return false
		}
	}
	return true
}

func isCheckFree(p *P) bool { return !p.has(oCheck) }

func copiesOf(c *Ctx, p *P, docs []string) bool {
	refs := map[string]bool{}
	any := false
	for _, d := range docs {
		r := ref(p, d)
		refs[d] = r.undef != ""
		any = any || r.undef == ""
	}
	if !any {
		c.Skip(len(docs))
		return true
	}
	var code vm.Code
	var err error
	if !c.Guard(func() string { return "compiling " + p.String() }, func() { code, err = compileSpec(p) }) {
		return false
	}
	if err != nil {
		c.Violate("", "pattern: %s\ncompilation failed: %v", p, err)
		return false
	}
	return checkCopies(c, p.String, &code, docs, isCheckFree(p), func(d string) bool { return refs[d] })
}

var chkMap = &chkSpec{Kind: "map", Words: []string{"a", "bb", ""}}
var chkRef = &chkSpec{Kind: "ref"}

// refChk is a pattern that uses a back-reference: remember x, then match it.
func refChk(x *P, id int, rest *P) *P {
	return seq(check(x, chkRef, id, int(isa.RefDef)), rest, check(empty(), chkRef, id, int(isa.RefUse)))
}

func init() {
	register(&Property{ID: "C20",
		Assume: []string{"gob registration of user-defined checker types is up to the user, as usual"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"patterns", fmt.Sprintf("all patterns of <=%d operators over {'a','ab',[ab],any1,any2,empty,error,word boundary,map check} with star opt not and capture memo seq or, x {binary, binary twice, JSON, JSON then binary} x {no memo table, reparse with table}, all inputs over {a,b} of length <=3", pick(th, 3, 4)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("ab"), set("ab"), any(1), any(2), empty(), errp("msg", nil), errp("rec", lit("b")), assertp(syntax.EmptyWordBoundary), check(plus(set("ab")), chkMap, 1, 2)},
						unary:  []func(*P) *P{star, opt, not, and, func(p *P) *P { return capt(p, 1) }, memoP},
						binary: bBasic}
					docs := strs("ab", 3)
					batch(c, a, pick(th, 3, 4), 16, nil, func(p *P) { copiesOf(c, p, docs) })
				}},
				{"all-operators", fmt.Sprintf("all patterns of <=%d operators over every operator of the library (with a map checker), same routes, inputs over {a,b} of length <=3", pick(th, 4, 4)), func(c *Ctx) {
					a := everything(true, true)
					a.unary[3] = func(p *P) *P { return check(p, chkMap, 1, 2) }
					docs := strs("ab", 3)
					batch(c, a, pick(th, 4, 4), 16, nil, func(p *P) { copiesOf(c, p, docs) })
				}},
				{"grammars", "all 2-rule grammars with rule bodies of <=2 operators (captures, memo, recursion)", func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("b"), nt("A"), nt("S")}, unary: []func(*P) *P{star, memoP, func(p *P) *P { return capt(p, 1) }}, binary: bBasic}
					docs := strs("ab", 3)
					grammars2(c, a, pick(th, 3, 4), 2, nil, func(g *P) { copiesOf(c, g, docs) })
				}},
				{"checkers", "back-references (defined, used, blocked, shared and separate symbol tables, several ids), map checkers (empty, with odd words) and user-registered checkers, alone and in pairs; all inputs over {a,b} of length <=5", func(c *Ctx) {
					docs := strs("ab", 5)
					var ps []*P
					for _, x := range []*P{lit("a"), plus(lit("a")), set("ab"), star(any(1)), empty(), seq(any(1), any(1))} {
						for _, y := range []*P{empty(), lit("b"), star(lit("b")), opt(lit("a"))} {
							ps = append(ps, refChk(x, 1, y), star(refChk(x, 2, y)), capt(refChk(x, -3, y), 4), seq(refChk(x, 1, y), refChk(y, 2, x)),
								or(seq(refChk(x, 1, y), lit("b")), seq(check(y, chkRef, 1, int(isa.RefBlock)), any(1))))
						}
					}
					for _, w := range [][]string{{}, {""}, {"a"}, {"a", "bb"}, {"ab", "b", "a"}} {
						k := &chkSpec{Kind: "map", Words: w}
						for _, x := range []*P{set("ab"), plus(lit("a")), empty(), seq(any(1), any(1)), star(set("ab"))} {
							ps = append(ps, check(x, k, 0, 0), star(seq(check(x, k, 5, -1), lit("b"))), or(check(x, k, 1, 1), check(x, chkMap, 2, 2), lit("b")),
								seq(check(x, chkMap, 1, 1), check(star(lit("b")), k, 3, 3)), check(check(x, k, 1, 1), chkMap, 2, 2))
						}
					}
					for _, p := range ps {
						p := p
						if !c.Item(func() {
							var code vm.Code
							var err error
							if p.has(oStar) && p.Op == oStar {
								// repetition of something that may match empty
								undef := true
								for _, d := range docs {
									undef = undef && ref(p, d).undef != ""
								}
								if undef {
									c.Skip(len(docs))
									return
								}
							}
							if code, err = compileSpec(p); err != nil {
								c.Violate("", "pattern: %s\ncompilation failed: %v", p, err)
								return
							}
							checkCopies(c, p.String, &code, docs, false, func(d string) bool { return ref(p, d).undef != "" })
						}) {
							return
						}
					}
					// two symbol tables, and user-defined checkers
					mk := []struct {
						n string
						p func() pattern.Pattern
					}{
						{"two separate back-reference tables", func() pattern.Pattern {
							r1, r2 := isa.NewBackRef(), isa.NewBackRef()
							return pattern.Concat(pattern.CheckFlags(pattern.Plus(pattern.Literal("a")), r1, 1, 0), pattern.CheckFlags(pattern.Plus(pattern.Literal("b")), r2, 1, 0),
								pattern.CheckFlags(&pattern.EmptyNode{}, r1, 1, 1), pattern.CheckFlags(&pattern.EmptyNode{}, r2, 1, 1))
						}},
						{"one back-reference table", func() pattern.Pattern {
							r1 := isa.NewBackRef()
							return pattern.Concat(pattern.CheckFlags(pattern.Plus(pattern.Literal("a")), r1, 1, 0), pattern.CheckFlags(pattern.Plus(pattern.Literal("b")), r1, 1, 0),
								pattern.CheckFlags(&pattern.EmptyNode{}, r1, 1, 1))
						}},
						{"back-reference used before it is defined", func() pattern.Pattern {
							r1 := isa.NewBackRef()
							return pattern.Concat(pattern.CheckFlags(&pattern.EmptyNode{}, r1, 1, 1), pattern.Any(1), pattern.CheckFlags(pattern.Any(1), r1, 1, 0), pattern.CheckFlags(&pattern.EmptyNode{}, r1, 1, 1))
						}},
						{"user pointer checker", func() pattern.Pattern {
							return pattern.Concat(pattern.Check(pattern.Star(pattern.Literal("a")), &UserChecker{2, 1}), pattern.Star(pattern.Literal("b")))
						}},
						{"user value checker", func() pattern.Pattern {
							return pattern.Star(pattern.Check(pattern.Any(1), UserValueChecker{[]string{"a", "c"}}))
						}},
						{"several kinds", func() pattern.Pattern {
							u := &UserChecker{3, 0}
							return pattern.Concat(pattern.CheckFlags(pattern.Star(pattern.Literal("a")), u, 1, 0), pattern.Check(pattern.Star(pattern.Literal("b")), isa.NewMapChecker([]string{"b", ""})),
								pattern.CheckFlags(pattern.Star(pattern.Literal("a")), u, 2, 0), pattern.Check(pattern.Optional(pattern.Any(1)), UserValueChecker{[]string{"", "b"}}))
						}},
					}
					for _, m := range mk {
						m := m
						if !c.Item(func() {
							code := vm.Encode(pattern.MustCompile(m.p()))
							checkCopies(c, func() string { return m.n }, &code, docs, false, nil)
						}) {
							return
						}
					}
				}},
				{"operands", "every byte as character, set member and error message; capture, memo and check ids at the edges of 16 bits; any-counts 0..255; programs with 1..256 sets, 1..300 errors and checkers, and of 64 KiB", func(c *Ctx) {
					var one []string
					one = append(one, "")
					for b := 0; b < 256; b++ {
						one = append(one, string([]byte{byte(b)}))
					}
					for b := 0; b < 256; b++ {
						s := string([]byte{byte(b)})
						if !c.Item(func() {
							for _, p := range []*P{lit(s), nset(s), or(lit(s), errp(s, nil)), seq(opt(set(s)), errp("x"+s+"y", empty())), any(b), or(seq(any(b), lit("x")), errp("\x00", empty()))} {
								docs := one
								if p.has(oAny) {
									docs = []string{"", strings.Repeat("x", b), strings.Repeat("x", b+1)}
								}
								if !copiesOf(c, p, docs) {
									return
								}
							}
						}) {
							return
						}
					}
					for _, id := range []int{-32768, -32767, -257, -256, -255, -129, -128, -1, 0, 1, 127, 128, 255, 256, 32766, 32767} {
						id := id
						if !c.Item(func() {
							for _, p := range []*P{capt(lit("a"), id), capt(star(lit("a")), id), seq(lit("a"), capt(star(lit("b")), id)), check(plus(lit("a")), chkMap, id, -id/2), check(lit("a"), chkMap, id/3, id)} {
								if !copiesOf(c, p, strs("ab", 3)) {
									return
								}
							}
						}) {
							return
						}
					}
					for _, k := range []int{1, 2, 3, 100, 127, 128, 129, 200, 255, 256} {
						k := k
						if !c.Item(func() {
							p := manySets(k)
							var docs []string
							for i := 0; i < k; i++ {
								docs = append(docs, setDoc(i))
							}
							copiesOf(c, p, append(docs, setDoc(k), ""))
						}) {
							return
						}
					}
					for _, k := range []int{1, 2, 100, 255, 256, 257, 300} {
						k := k
						if !c.Item(func() {
							copiesOf(c, manyErrors(k), []string{"", strings.Repeat("a", k/2), strings.Repeat("a", k)})
							copiesOf(c, manyChecks(k), []string{"", "0;", fmt.Sprint(k-1) + ";", fmt.Sprint(k/2) + ";", fmt.Sprint(k) + ";"})
							copiesOf(c, seq(lit(strings.Repeat("ab", k*128)), or(capt(seq(lit("c"), star(any(1))), 1), lit("d"))), []string{"", strings.Repeat("ab", k*128) + "c", strings.Repeat("ab", k*128) + "d"})
						}) {
							return
						}
					}
				}},
				{"near-equal", "programs with every pair and triple of error messages out of 24 that are nearly equal (case, spaces, prefixes, control and markup characters, non-ASCII), every pair of word lists out of 12, and pairs of sets out of 60 that differ in few bits (all pairs in thorough)", func(c *Ctx) {
					msgs := []string{"", "a", "A", "ab", "aB", "b", "a ", " a", "a\x00", "\x00", "a\n", "a\t", "<a>", "&lt;a>", "\"a\"", "\\a", "'a'", "\u00e9", "e\u0301", "\u2028", "\u212a", "k", "null", "%s"}
					at := func(i int, m string) *P { return or(lit(string([]byte{byte('0' + i)})), errp(m, empty())) }
					for _, x := range msgs {
						x := x
						if !c.Item(func() {
							for _, y := range msgs {
								if !copiesOf(c, seq(at(0, x), at(1, y)), []string{"", "0", "1", "01"}) {
									return
								}
								for _, z := range msgs {
									if !copiesOf(c, seq(at(0, x), at(1, y), at(2, z)), []string{"", "1"}) {
										return
									}
								}
							}
						}) {
							return
						}
					}
					words := [][]string{{}, {""}, {"a"}, {"A"}, {"a", ""}, {"a", "b"}, {"b", "a"}, {"ab"}, {"aa", "a"}, {"a", "a"}, {"a\xff"}, {"a\ufffd"}}
					for _, x := range words {
						x := x
						if !c.Item(func() {
							for _, y := range words {
								if !copiesOf(c, or(capt(check(star(set("aAb\xff\xef\xbf\xbd")), &chkSpec{Kind: "map", Words: x}, 1, 2), 1), capt(check(star(set("ab\xff\xef\xbf\xbd")), &chkSpec{Kind: "map", Words: y}, 1, 2), 2)), []string{"", "a", "A", "b", "ab", "aa", "a\xff", "a\ufffd"}) {
									return
								}
							}
						}) {
							return
						}
					}
					nearSets(c, th, func(p *P, docs []string) bool { return copiesOf(c, p, docs) })
				}},
			}
		}})

	register(&Property{ID: "C21",
		Assume: []string{"equality of parsers is judged by their JSON form and their results on a set of inputs"},
		Spaces: func(th bool) []Space {
			type prog struct {
				n    string
				p    *P
				docs []string
			}
			progs := []prog{
				{"one literal", lit("ab"), strs("ab", 3)},
				{"empty", empty(), strs("ab", 2)},
				{"captures and sets", star(or(capt(set("ab"), 1), seq(nset("ab"), opt(lit("a"))))), strs("abc", 4)},
				{"grammar", parensG(), strs("()", 4)},
				{"errors", or(seq(lit("a"), errp("expected a", star(lit("b")))), errp("no a at all", any(1))), strs("ab", 3)},
				{"checkers", seq(check(plus(set("ab")), chkMap, 1, 2), opt(refChk(lit("a"), 7, lit("b")))), strs("ab", 4)},
				{"arithmetic", arithG(), []string{"1", "1+2", "(1)", "1+(2*3)", "+", ""}},
			}
			build := func(p *P) vm.Code {
				code, err := compileSpec(p)
				if err != nil {
					panic(err)
				}
				return code
			}
			// forms are the JSON forms of the parser, and of an intact copy
			forms := func(code *vm.Code) (js [2][]byte, b []byte) {
				js[0], _ = code.ToJson()
				b, err := code.ToBytes()
				if err != nil {
					panic(err)
				}
				cp, err := vm.FromBytes(b)
				if err != nil {
					panic(err)
				}
				js[1], _ = cp.ToJson()
				return js, b
			}
			// judge loads damaged data
			judge := func(c *Ctx, pr *prog, code *vm.Code, json [2][]byte, damaged []byte, load func([]byte) (vm.Code, error), how string) bool {
				return c.Guard(func() string { return pr.n + ": " + how }, func() {
					c.States(1)
					c.Trans(1)
					got, err := load(damaged)
					if err != nil {
						c.Outcome("error: " + err.Error())
						return
					}
					c.Traces(1)
					c.Note("loads")
					j, err := got.ToJson()
					if err != nil || !bytes.Equal(j, json[0]) && !bytes.Equal(j, json[1]) {
						c.Violate("", "parser %q (%s), %s: loaded without an error, but as a different parser: %s instead of %s", pr.n, pr.p, how, clip(string(j)), clip(string(json[0])))
						return
					}
					for _, d := range pr.docs {
						if e := same(run(code, d, memo.NoneTable{}), run(&got, d, memo.NoneTable{}), true); e != "" {
							c.Violate("", "parser %q (%s), %s: loaded without an error, but on %q: %s", pr.n, pr.p, how, d, e)
							return
						}
					}
				}) && !c.itemViol
			}
			return []Space{
				{"truncation", "every proper prefix of the binary and JSON forms of 7 parsers", func(c *Ctx) {
					for i := range progs {
						pr := &progs[i]
						if !c.Item(func() {
							code := build(pr.p)
							js, b := forms(&code)
							for n := 0; n < len(b); n++ {
								if !judge(c, pr, &code, js, b[:n:n], vm.FromBytes, fmt.Sprintf("first %d of %d bytes", n, len(b))) {
									return
								}
							}
							for n := 0; n < len(js[0]); n++ {
								if !judge(c, pr, &code, js, js[0][:n:n], vm.FromJson, fmt.Sprintf("first %d of %d bytes of the JSON form", n, len(js[0]))) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"appended", "the binary and JSON forms of 7 parsers followed by each single byte, by each other's forms, and by parts of themselves", func(c *Ctx) {
					for i := range progs {
						pr := &progs[i]
						if !c.Item(func() {
							code := build(pr.p)
							js, b := forms(&code)
							var ext [][]byte
							for v := 0; v < 256; v++ {
								ext = append(ext, []byte{byte(v)})
							}
							for k := 1; k <= len(b); k += 7 {
								ext = append(ext, b[:k], b[len(b)-k:])
							}
							for k := 1; k <= len(js[0]); k += 7 {
								ext = append(ext, js[0][:k], js[0][len(js[0])-k:])
							}
							for k := range progs {
								o := build(progs[k].p)
								oj, ob := forms(&o)
								ext = append(ext, oj[0], ob)
							}
							for _, e := range ext {
								x := append(b[:len(b):len(b)], e...)
								y := append(js[0][:len(js[0]):len(js[0])], e...)
								if !judge(c, pr, &code, js, x, vm.FromBytes, fmt.Sprintf("%q appended to the binary form", clip(string(e)))) ||
									!judge(c, pr, &code, js, y, vm.FromJson, fmt.Sprintf("%q appended to the JSON form", clip(string(e)))) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"byte-damage", "every byte of the binary form of 7 parsers replaced by " + map[bool]string{false: "8 single-bit flips, 0 and 255 (all 255 other values for the first two parsers)", true: "all 255 other values"}[th], func(c *Ctx) {
					for i := range progs {
						i, pr := i, &progs[i]
						code := build(pr.p)
						js, b := forms(&code)
						for pos := range b {
							pos := pos
							if !c.Item(func() {
								d := append([]byte(nil), b...)
								try := func(v byte) bool {
									if v == b[pos] {
										return true
									}
									d[pos] = v
									return judge(c, pr, &code, js, d, vm.FromBytes, fmt.Sprintf("byte %d of %d changed from %#x to %#x", pos, len(b), b[pos], v))
								}
								if th || i < 2 {
									for v := 0; v < 256; v++ {
										if !try(byte(v)) {
											return
										}
									}
									return
								}
								for k := 0; k < 8; k++ {
									if !try(b[pos] ^ 1<<k) {
										return
									}
								}
								_ = try(0) && try(255)
							}) {
								return
							}
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C26",
		Assume: []string{"a compile-time panic or error counts as visible failure where a limit is exceeded, and as a violation below the limit"},
		Spaces: func(th bool) []Space { return limitSpaces(th) }})
}

// setDoc is the input that the i'th alternative of manySets matches.
func setDoc(i int) string {
	return string([]byte{byte(i & 0xff), byte(i >> 8), 'x'})
}

// manySets is a choice between k alternatives with k distinct sets. The sets
// are singletons plus a distinguishing pair of other bytes.
func manySets(k int) *P {
	var alts []*P
	for i := 0; i < k; i++ {
		alts = append(alts, capt(seq(distinctSet(i), lit(setDoc(i)[1:])), i))
	}
	return or(alts...)
}

// distinctSet contains byte(i) and one more byte that depends on i>>8.
func distinctSet(i int) *P {
	var b bset
	b[i&0xff] = true
	b[(i&0xff+1+i>>8)&0xff] = true
	return &P{Op: oSet, Set: &b}
}

func manyErrors(k int) *P {
	var ks []*P
	for i := 0; i < k; i++ {
		ks = append(ks, or(lit("a"), errp(fmt.Sprintf("message %d", i), empty())))
	}
	return balanced(ks, seq)
}

func manyChecks(k int) *P {
	var ks []*P
	for i := 0; i < k; i++ {
		ks = append(ks, capt(seq(check(plus(set("0123456789")), &chkSpec{Kind: "map", Words: []string{fmt.Sprint(i)}}, i&0x7fff, 0), lit(";")), i&0x7fff))
	}
	return balanced(ks, or)
}

// balanced nests a long list, to avoid quadratic compile times.
func balanced(ks []*P, f func(...*P) *P) *P {
	if len(ks) <= 1000 {
		return f(ks...)
	}
	return f(balanced(ks[:len(ks)/2], f), balanced(ks[len(ks)/2:], f))
}

// tryCompile compiles and encodes, turning panics into errors.
func tryCompile(f func() pattern.Pattern) (code vm.Code, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	prog, err := pattern.Compile(f())
	if err != nil {
		return vm.Code{}, err
	}
	return vm.Encode(prog), nil
}

// limit checks p, which must compile if within is set, and else may instead
// be rejected.
func limit(c *Ctx, p *P, docs []string, within bool) bool {
	code, err := tryCompile(p.build)
	if err != nil {
		if within {
			c.Violate("", "pattern: %s\nis within the limits, but was rejected: %v", clip(p.String()), err)
			return false
		}
		c.States(1)
		c.Note("rejected")
		return true
	}
	refs := make([]mres, len(docs))
	for i, d := range docs {
		refs[i] = refLimit(p, d, 20000000)
	}
	if !checkCode(c, p, &code, docs, refs, true, "") {
		return false
	}
	if !p.has(oMemo) {
		return true
	}
	for i, d := range docs {
		if refs[i].undef != "" {
			continue
		}
		tbl := memo.NewTreeTable(0)
		for k := 0; k < 2; k++ {
			c.States(1)
			c.Traces(1)
			if e := diff(refs[i], run(&code, d, tbl), false); e != "" {
				c.Violate("", "pattern: %s\ninput %q, parse %d with a table\n%s", clip(p.String()), clip(d), k+1, e)
				return false
			}
		}
	}
	return true
}

func limitSpaces(th bool) []Space {
	near := func(xs ...int) (out []int) {
		seen := map[int]bool{}
		for _, x := range xs {
			for d := -2; d <= 2; d++ {
				if x+d >= 0 && !seen[x+d] {
					seen[x+d] = true
					out = append(out, x+d)
				}
			}
		}
		return out
	}
	return []Space{
		{"ids", "captures in all three instruction forms with every id in [-32768,32767], and ids beyond that range", func(c *Ctx) {
			docs := []string{"aab", "b"}
			for base := -32768; base < 32768; base += 256 {
				base := base
				if !c.Item(func() {
					for id := base; id < base+256; id++ {
						if !limit(c, seq(opt(capt(lit("aa"), id)), capt(star(lit("b")), id)), docs, true) {
							return
						}
						if id%16 == 0 || th {
							if !limit(c, seq(star(lit("a")), capt(plus(lit("b")), id)), docs, true) || !limit(c, seq(set("ab"), capt(star(any(1)), id)), docs, true) {
								return
							}
						}
					}
				}) {
					return
				}
			}
			for _, id := range []int{32768, 32769, 65535, 65536, 65537, 1 << 20, 1 << 31, 1 << 32, -32769, -32770, -65536, -65537, -1 << 31} {
				id := id
				if !c.Item(func() {
					_ = limit(c, capt(lit("aa"), id), docs, false) && limit(c, capt(star(lit("a")), id), docs, false) && limit(c, seq(lit("a"), capt(star(any(1)), id)), docs, false)
				}) {
					return
				}
			}
		}},
		{"check-ids", "checker ids and flags at every byte boundary of 16 bits (all pairs), and beyond", func(c *Ctx) {
			vals := []int{-32768, -32767, -256, -255, -129, -128, -127, -1, 0, 1, 127, 128, 129, 255, 256, 257, 32767}
			beyond := []int{32768, 65536, -32769, 1 << 20}
			docs := strs("ab", 2)
			rec := &chkSpec{Kind: "rec", Fn: func(b, rest string, id, flag int) int {
				if b == "a" {
					return 0
				}
				return -1
			}}
			for _, x := range vals {
				x := x
				if !c.Item(func() {
					for _, y := range vals {
						if !checkLogged(c, check(set("ab"), rec, x, y), docs) {
							return
						}
					}
				}) {
					return
				}
			}
			for _, x := range beyond {
				x := x
				if !c.Item(func() {
					for _, p := range []*P{check(set("ab"), rec, x, 0), check(set("ab"), rec, 0, x)} {
						if _, err := tryCompile(p.build); err != nil {
							c.States(1)
							continue
						}
						if !checkLogged(c, p, docs) {
							return
						}
					}
				}) {
					return
				}
			}
		}},
		{"memo-ids", "memoized patterns and repetitions with ids at the edges of 16 bits and beyond, parsed twice with one table", func(c *Ctx) {
			for _, id := range []int{-32768, -256, -1, 0, 1, 127, 128, 255, 256, 32766, 32767, 32768, 65535, 65536, -32769, 1 << 20} {
				id := id
				if !c.Item(func() {
					within := id >= -32768 && id <= 32767
					for k := 0; k < 2; k++ {
						other := id ^ 1<<8
						if other < -32768 || other > 32767 {
							other = id ^ 1
						}
						code, err := tryCompile(func() pattern.Pattern {
							m := &pattern.MemoNode{Patt: pattern.Cap(pattern.Plus(pattern.Literal("a")), 1), Id: id}
							if k == 1 {
								m = &pattern.MemoNode{Patt: pattern.Concat(pattern.Literal("a"), pattern.Cap(pattern.Star(pattern.Set(charset.Range('a', 'b'))), 1)), Id: id}
							}
							n := &pattern.MemoNode{Patt: pattern.Cap(pattern.Literal("a"), 2), Id: other}
							return pattern.Or(pattern.Concat(m, pattern.Literal("c")), pattern.Concat(n, m, pattern.Literal("c")), pattern.Concat(m, pattern.Literal("b")), n)
						})
						if err != nil {
							if within {
								c.Violate("", "memo id %d was rejected: %v", id, err)
							}
							c.States(1)
							continue
						}
						for _, d := range strs("abc", 4) {
							want := run(&code, d, memo.NoneTable{})
							tbl := memo.NewTreeTable(0)
							for i := 0; i < 2; i++ {
								c.States(1)
								c.Traces(1)
								if e := same(want, run(&code, d, tbl), false); e != "" {
									c.Violate("", "memo ids %d and %d (variant %d), input %q, parse %d with a table: %s", id, other, k, d, i+1, e)
									return
								}
							}
						}
					}
				}) {
					return
				}
			}
		}},
		{"counts", "any-counts 0..600 (one or several instructions) and repeat counts 0..300, as a prefix, as an alternative, captured, in predicates; documents one shorter, exact and longer", func(c *Ctx) {
			for n := 0; n <= 600; n++ {
				n := n
				if !c.Item(func() {
					s := strings.Repeat("ab", 301)[:n]
					docs := []string{s, s + "a", s + "b"}
					if n > 0 {
						docs = append(docs, s[:n-1])
					}
					x := repeatAny(n)
					ps := []*P{seq(x, lit("a")), or(seq(x, lit("a")), lit("a")), or(x, lit("")), capt(x, 1), seq(x, capt(star(any(1)), 2)), not(x), and(seq(x, any(1))), seq(capt(seq(x, lit("a")), 1), empty()), opt(seq(x, lit("b"))), or(seq(x, lit("b")), seq(x, lit("a")))}
					if n <= 300 {
						y := repeat(set("ab"), n)
						ps = append(ps, capt(y, 1), seq(y, lit("a")), or(seq(repeat(lit("ab"), n/2), lit("a")), lit("ab")), repeat(opt(lit("a")), n))
					}
					for _, p := range ps {
						if !limit(c, p, docs, true) {
							return
						}
					}
				}) {
					return
				}
			}
		}},
		{"literals", "literals and captures of every length 0..600 and around 4096, 32768 and 65536, alone, as alternative, captured, late captured, in predicates", func(c *Ctx) {
			var ns []int
			for n := 0; n <= 600; n += 1 {
				ns = append(ns, n)
			}
			ns = append(ns, near(1024, 4096, 8192, 32768, 65536)...)
			for _, n := range ns {
				n := n
				if !c.Item(func() {
					s := strings.Repeat("abcdefg", n/7+1)[:n]
					docs := []string{s, s + "x", s + "y"}
					if n > 0 {
						docs = append(docs, s[:n-1], s[:n-1]+"z")
					}
					for _, p := range []*P{capt(lit(s), 1), seq(lit(s), capt(star(any(1)), 2)), capt(seq(lit(s), star(lit("x"))), 3), or(seq(lit(s), lit("x")), seq(lit(s), capt(opt(lit("y")), 4))), seq(not(seq(lit(s), lit("x"))), star(any(1)))} {
						if !limit(c, p, docs, true) {
							return
						}
					}
				}) {
					return
				}
			}
		}},
		{"sets", "programs with k distinct sets, k in 1..256 (must work) and 257..520 (may be rejected), in set, span and test instructions; every alternative is tried", func(c *Ctx) {
			ks := append([]int{1, 2, 64, 127, 128, 129, 200}, 250, 251, 252, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 520)
			for _, k := range ks {
				k := k
				if !c.Item(func() {
					var docs []string
					for i := 0; i <= k; i++ {
						docs = append(docs, setDoc(i))
					}
					var spans, tests []*P
					for i := 0; i < k; i++ {
						spans = append(spans, seq(lit(fmt.Sprintf("%d;", i)), star(distinctSet(i)), lit("x")))
						tests = append(tests, or(seq(distinctSet(i), lit("x")), lit("q")))
					}
					if !limit(c, manySets(k), docs, k <= 256) {
						return
					}
					var d2 []string
					for _, i := range []int{0, 1, k / 2, k - 2, k - 1, k} {
						d2 = append(d2, fmt.Sprintf("%d;", i)+strings.Repeat(setDoc(i)[:1], 3)+"x", fmt.Sprintf("%d;", i)+setDoc(i + 1)[:1]+setDoc(i + 2)[:1]+"x")
					}
					if !limit(c, or(spans...), d2, k <= 256) {
						return
					}
					full := ""
					for i := 0; i < k; i++ {
						full += setDoc(i)[:1] + "x"
					}
					limit(c, seq(tests...), []string{full, full[:len(full)-2] + "q", full[:len(full)-1] + "y"}, k <= 256)
				}) {
					return
				}
			}
		}},
		{"near-equal-sets", "programs with every pair of sets out of 60 (each with a partner that differs in one or two bits of one 64-bit word, of sizes 0..256), in set, span, test and search instructions", func(c *Ctx) {
			nearSets(c, true, func(p *P, docs []string) bool { return limit(c, p, docs, true) })
		}},
		{"tables", "programs with k distinct errors and k distinct checkers, k around 1, 128, 256, 1000 (and 65536, thorough)", func(c *Ctx) {
			ks := near(2, 128, 256, 1000)
			for _, k := range ks {
				k := k
				if k == 0 {
					continue
				}
				if !c.Item(func() {
					_ = limit(c, manyErrors(k), []string{"", strings.Repeat("a", k/2), strings.Repeat("a", k-1), strings.Repeat("a", k)}, true) &&
						limit(c, manyChecks(k), []string{"0;", fmt.Sprint(k/2) + ";", fmt.Sprint(k-1) + ";", fmt.Sprint(k) + ";", ""}, true)
				}) {
					return
				}
			}
			for _, k := range []int{65535, 65536, 65537, 65800} {
				k := k
				if !c.Item(func() {
					if !limit(c, manyChecks(k), []string{"0;", "255;", fmt.Sprint(k-1) + ";", fmt.Sprint(k) + ";"}, true) {
						return
					}
					if th {
						limit(c, manyErrors(k), []string{strings.Repeat("a", k-3), ""}, true)
					}
				}) {
					return
				}
			}
		}},
		{"program-size", "every instruction that holds a jump target, with targets and program sizes crossing 2^8, 2^16, 2^17 and 2^18 bytes at every instruction boundary", func(c *Ctx) {
			var ns []int
			for n := 0; n <= 140; n++ {
				ns = append(ns, n)
			}
			for _, e := range []int{15, 16, 17} {
				for d := -24; d <= 4; d++ {
					ns = append(ns, 1<<e+d)
				}
			}
			for _, n := range ns {
				n := n
				if !c.Item(func() {
					f := strings.Repeat("abcdefg", n/7+1)[:n]
					bad := f + "!"
					if n > 0 {
						bad = f[:n-1] + "!"
					}
					x := lit(f)
					for _, p := range []*P{
						or(seq(x, lit("1")), lit("2"), seq(x, lit("3"))),
						or(seq(lit("1"), x), seq(lit("2"), x), lit("3")),
						or(seq(set("1a"), x), lit("a")),
						seq(star(seq(x, lit("1"))), lit("2")),
						seq(opt(seq(x, lit("1"))), capt(star(any(1)), 1)),
						seq(not(seq(x, lit("1"))), capt(any(1), 1)),
						seq(and(seq(x, lit("1"))), capt(any(1), 1)),
						seq(memoP(seq(x, lit("1"))), lit("2")),
						star(or(memoP(seq(capt(lit("1"), 1), x)), lit("2"))),
						gram("S", map[string]*P{"S": or(seq(x, nt("A"), nt("B")), nt("A")), "A": or(seq(lit("1"), nt("B")), lit("3")), "B": or(seq(lit("2"), nt("A")), empty())}),
						or(seq(any(2), x, lit("1")), capt(any(1), 2)),
						seq(capt(seq(x, opt(lit("1"))), 7), capt(star(set("123")), 8)),
						or(seq(any(2), x, lit("1")), capt(lit("2"), 2), capt(any(1), 3)),
						or(seq(set("12"), x), lit("3")),
						or(seq(lit("1"), x), set("23")),
						seq(opt(x), opt(set("12")), opt(lit("3")), star(seq(set("1"), any(1))), capt(star(any(1)), 1)),
						star(memoP(or(seq(lit("1"), x), capt(lit("2"), 1)))),
						seq(opt(x), star(memoP(capt(lit("1"), 1))), memoP(opt(lit("2"))), star(any(1))),
						or(seq(x, memoP(capt(lit("1"), 1)), lit("2")), seq(x, star(or(memoP(capt(lit("1"), 1)), lit("3"))), capt(star(any(1)), 2))),
					} {
						docs := []string{f + "1", f + "12", f + "3", bad, "1" + f, "2" + f, "2", "3", f + "1" + f + "12", "1" + f + "1" + f + "2", "ab" + f + "1"}
						if !limit(c, p, docs, true) {
							return
						}
					}
				}) {
					return
				}
			}
		}},
		{"24-bit", "a choice whose alternative lies around 2^24 bytes into the program (may be rejected from 2^24 on)", func(c *Ctx) {
			ns := []int{1<<23 - 8, 1<<23 - 1, 1<<23 + 1}
			if th {
				ns = []int{1<<22 + 3, 1<<23 - 32, 1<<23 - 8, 1<<23 - 4, 1<<23 - 3, 1<<23 - 2, 1<<23 - 1, 1 << 23, 1<<23 + 1, 1<<23 + 100}
			}
			for _, n := range ns {
				n := n
				if !c.Item(func() {
					f := strings.Repeat("abcdefg", n/7+1)[:n]
					limit(c, or(seq(lit(f), lit("1")), capt(lit("ab"), 1), lit("x")), []string{f + "1", "ab", f[:n-1], "x"}, n <= 1<<23-16)
				}) {
					return
				}
			}
		}},
	}
}

// nearSets runs fn on programs with pairs of sets that are nearly equal.
func nearSets(c *Ctx, all bool, fn func(p *P, docs []string) bool) {
	var fam []*bset
	add := func(f func(i int) bool) {
		for v := 0; v < 10; v++ {
			var b bset
			for i := range b {
				b[i] = f(i)
			}
			switch {
			case v == 0:
			case v <= 4: // one bit of one word
				b[(v-1)*64+7] = !b[(v-1)*64+7]
			case v <= 8: // one bit moved within a word
				b[(v-5)*64+3] = !b[(v-5)*64+3]
				b[(v-5)*64+50] = !b[(v-5)*64+50]
			case v == 9:
				b[255] = !b[255]
			}
			fam = append(fam, &b)
		}
	}
	add(func(i int) bool { return false })
	add(func(i int) bool { return true })
	add(func(i int) bool { return i%64 < 40 })
	add(func(i int) bool { return i%64 == 3 || i%64 == 62 })
	add(func(i int) bool { return i < 128 })
	add(func(i int) bool { return i >= 'a' && i <= 'z' })
	for x, a := range fam {
		x, a := x, a
		if !c.Item(func() {
			for y, b := range fam {
				if x == y || !all && x/10 != y/10 {
					continue
				}
				sa, sb := &P{Op: oSet, Set: a}, &P{Op: oSet, Set: b}
				var docs []string
				for i := 0; i < 256; i++ {
					if a[i] != b[i] {
						docs = append(docs, string([]byte{byte(i)}), string([]byte{byte(i), byte(i)}))
					}
				}
				docs = append(docs, "", "a", "\xff\x00")
				for _, p := range []*P{seq(opt(capt(sa, 1)), opt(capt(sb, 2))), or(seq(sa, lit("x")), capt(sb, 1), any(1)), seq(capt(star(sa), 1), capt(star(sb), 2)), seq(not(sa), sb), or(capt(search(seq(sa, sa)), 1), capt(search(sb), 2))} {
					if !fn(p, docs) {
						return
					}
				}
			}
		}) {
			return
		}
	}
}
