package main

// Pattern specifications: a small AST from which both the real gpeg pattern
// and the reference interpretation are derived.

import (
	"fmt"
	"regexp/syntax"
	"sort"
	"strings"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/pattern"
)

type Op int

const (
	oLit Op = iota
	oSet
	oAny
	oEmpty
	oSeq
	oOr
	oStar
	oPlus
	oOpt
	oNot
	oAnd
	oRepeat
	oCap
	oMemo
	oSearch
	oNT
	oGram
	oErr
	oAssert
	oCheck
)

// P is a pattern specification. Values are immutable and may be shared.
type P struct {
	Op   Op
	Kids []*P
	S    string // literal, non-terminal name, message, start rule
	Set  *bset
	N    int // any/repeat count, capture id, check id
	Flag int
	Defs map[string]*P
	Chk  *chkSpec
	size int
}

type bset [256]bool

func setOf(s string) *bset {
	var b bset
	for i := 0; i < len(s); i++ {
		b[s[i]] = true
	}
	return &b
}

func (b *bset) charset() charset.Set {
	var cs []byte
	for i := 0; i < 256; i++ {
		if b[i] {
			cs = append(cs, byte(i))
		}
	}
	return charset.New(cs)
}

func (b *bset) String() string {
	var in, out []byte
	for i := 0; i < 256; i++ {
		if b[i] {
			in = append(in, byte(i))
		} else {
			out = append(out, byte(i))
		}
	}
	if len(in) > 128 {
		return fmt.Sprintf("charset.New([]byte(%q)).Complement()", out)
	}
	return fmt.Sprintf("charset.New([]byte(%q))", in)
}

// chkSpec describes a user-supplied checker.
type chkSpec struct {
	Kind  string // "rec" (recording), "map", "ref"
	Words []string
	// Fn is the pure decision of a recording checker.
	Fn func(b string, rest string, id, flag int) int
}

func lit(s string) *P { return &P{Op: oLit, S: s} }
func set(s string) *P { return &P{Op: oSet, Set: setOf(s)} }
func nset(s string) *P {
	b := *setOf(s)
	for i := range b {
		b[i] = !b[i]
	}
	return &P{Op: oSet, Set: &b}
}
func any(n int) *P          { return &P{Op: oAny, N: n} }
func empty() *P             { return &P{Op: oEmpty} }
func seq(k ...*P) *P        { return &P{Op: oSeq, Kids: k} }
func or(k ...*P) *P         { return &P{Op: oOr, Kids: k} }
func star(p *P) *P          { return &P{Op: oStar, Kids: []*P{p}} }
func plus(p *P) *P          { return &P{Op: oPlus, Kids: []*P{p}} }
func opt(p *P) *P           { return &P{Op: oOpt, Kids: []*P{p}} }
func not(p *P) *P           { return &P{Op: oNot, Kids: []*P{p}} }
func and(p *P) *P           { return &P{Op: oAnd, Kids: []*P{p}} }
func repeat(p *P, n int) *P { return &P{Op: oRepeat, Kids: []*P{p}, N: n} }
func capt(p *P, id int) *P  { return &P{Op: oCap, Kids: []*P{p}, N: id} }
func memoP(p *P) *P         { return &P{Op: oMemo, Kids: []*P{p}} }
func search(p *P) *P        { return &P{Op: oSearch, Kids: []*P{p}} }
func nt(s string) *P        { return &P{Op: oNT, S: s} }
func gram(start string, defs map[string]*P) *P {
	return &P{Op: oGram, S: start, Defs: defs}
}
func errp(msg string, rec *P) *P {
	p := &P{Op: oErr, S: msg}
	if rec != nil {
		p.Kids = []*P{rec}
	}
	return p
}
func assertp(op syntax.EmptyOp) *P { return &P{Op: oAssert, N: int(op)} }
func check(p *P, c *chkSpec, id, flag int) *P {
	return &P{Op: oCheck, Kids: []*P{p}, Chk: c, N: id, Flag: flag}
}

func (p *P) defNames() []string {
	var ns []string
	for n := range p.Defs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	return ns
}

// String prints the pattern as a Go expression over package pattern.
func (p *P) String() string {
	var sb strings.Builder
	p.write(&sb)
	return sb.String()
}

func (p *P) write(sb *strings.Builder) {
	fn := func(name string) {
		sb.WriteString(name + "(")
		for i, k := range p.Kids {
			if i > 0 {
				sb.WriteString(", ")
			}
			k.write(sb)
		}
	}
	switch p.Op {
	case oLit:
		if len(p.S) > 200 {
			fmt.Fprintf(sb, "Literal(strings.Repeat(%q..., len %d))", p.S[:8], len(p.S))
		} else {
			fmt.Fprintf(sb, "Literal(%q)", p.S)
		}
	case oSet:
		fmt.Fprintf(sb, "Set(%s)", p.Set)
	case oAny:
		fmt.Fprintf(sb, "Any(%d)", p.N)
	case oEmpty:
		sb.WriteString("&EmptyNode{}")
	case oSeq:
		fn("Concat")
		sb.WriteString(")")
	case oOr:
		fn("Or")
		sb.WriteString(")")
	case oStar:
		fn("Star")
		sb.WriteString(")")
	case oPlus:
		fn("Plus")
		sb.WriteString(")")
	case oOpt:
		fn("Optional")
		sb.WriteString(")")
	case oNot:
		fn("Not")
		sb.WriteString(")")
	case oAnd:
		fn("And")
		sb.WriteString(")")
	case oMemo:
		fn("Memo")
		sb.WriteString(")")
	case oSearch:
		fn("Search")
		sb.WriteString(")")
	case oRepeat:
		fn("Repeat")
		fmt.Fprintf(sb, ", %d)", p.N)
	case oCap:
		fn("Cap")
		fmt.Fprintf(sb, ", %d)", p.N)
	case oNT:
		fmt.Fprintf(sb, "NonTerm(%q)", p.S)
	case oGram:
		fmt.Fprintf(sb, "Grammar(%q, map[string]Pattern{", p.S)
		for i, n := range p.defNames() {
			if i > 0 {
				sb.WriteString(", ")
			}
			fmt.Fprintf(sb, "%q: ", n)
			p.Defs[n].write(sb)
		}
		sb.WriteString("})")
	case oErr:
		fmt.Fprintf(sb, "Error(%q, ", p.S)
		if len(p.Kids) == 0 {
			sb.WriteString("nil)")
		} else {
			p.Kids[0].write(sb)
			sb.WriteString(")")
		}
	case oAssert:
		fmt.Fprintf(sb, "EmptyOp(%d)", p.N)
	case oCheck:
		sb.WriteString("CheckFlags(")
		p.Kids[0].write(sb)
		fmt.Fprintf(sb, ", %s%v, %d, %d)", p.Chk.Kind, p.Chk.Words, p.N, p.Flag)
	}
}

// builder turns specifications into gpeg patterns.
type builder struct {
	// one back-reference table per specification of one
	refs map[*chkSpec]*isa.BackReference
	// log of recording checkers
	log *[]chkCall
	// doc gives recording checkers access to the whole document
	share map[*P]pattern.Pattern // if non-nil, shared specs become shared patterns
	// if non-nil, equal specifications become one pattern value
	cons map[string]pattern.Pattern
}

func (p *P) build() pattern.Pattern { return (&builder{}).build(p) }

func (b *builder) build(p *P) pattern.Pattern {
	if b.share != nil {
		if q, ok := b.share[p]; ok {
			return q
		}
	}
	key := ""
	if b.cons != nil && !p.has(oCheck) {
		key = p.String()
		if q, ok := b.cons[key]; ok {
			return q
		}
	}
	q := b.build1(p)
	if b.share != nil {
		b.share[p] = q
	}
	if key != "" {
		b.cons[key] = q
	}
	return q
}

func (b *builder) build1(p *P) pattern.Pattern {
	kids := make([]pattern.Pattern, len(p.Kids))
	for i, k := range p.Kids {
		kids[i] = b.build(k)
	}
	switch p.Op {
	case oLit:
		return pattern.Literal(p.S)
	case oSet:
		return pattern.Set(p.Set.charset())
	case oAny:
		return pattern.Any(uint8(p.N))
	case oEmpty:
		return &pattern.EmptyNode{}
	case oSeq:
		return pattern.Concat(kids...)
	case oOr:
		return pattern.Or(kids...)
	case oStar:
		return pattern.Star(kids[0])
	case oPlus:
		return pattern.Plus(kids[0])
	case oOpt:
		return pattern.Optional(kids[0])
	case oNot:
		return pattern.Not(kids[0])
	case oAnd:
		return pattern.And(kids[0])
	case oRepeat:
		return pattern.Repeat(kids[0], p.N)
	case oCap:
		return pattern.Cap(kids[0], p.N)
	case oMemo:
		return pattern.Memo(kids[0])
	case oSearch:
		return pattern.Search(kids[0])
	case oNT:
		return pattern.NonTerm(p.S)
	case oGram:
		m := map[string]pattern.Pattern{}
		for _, n := range p.defNames() {
			m[n] = b.build(p.Defs[n])
		}
		return pattern.Grammar(p.S, m)
	case oErr:
		if len(kids) == 0 {
			return pattern.Error(p.S, nil)
		}
		return pattern.Error(p.S, kids[0])
	case oAssert:
		return pattern.EmptyOp(syntax.EmptyOp(p.N))
	case oCheck:
		switch p.Chk.Kind {
		case "map":
			return pattern.CheckFlags(kids[0], isa.NewMapChecker(p.Chk.Words), p.N, p.Flag)
		case "ref":
			r := b.refs[p.Chk]
			if r == nil {
				if b.refs == nil {
					b.refs = map[*chkSpec]*isa.BackReference{}
				}
				r = isa.NewBackRef()
				b.refs[p.Chk] = r
			}
			return pattern.CheckFlags(kids[0], r, p.N, p.Flag)
		}
		return pattern.CheckFlags(kids[0], &recChecker{spec: p.Chk, log: b.log}, p.N, p.Flag)
	}
	panic("build")
}

func (p *P) has(op Op) bool {
	if p.Op == op {
		return true
	}
	for _, k := range p.Kids {
		if k.has(op) {
			return true
		}
	}
	for _, d := range p.Defs {
		if d.has(op) {
			return true
		}
	}
	return false
}

func (p *P) count() int {
	n := 1
	for _, k := range p.Kids {
		n += k.count()
	}
	for _, d := range p.Defs {
		n += d.count()
	}
	return n
}

// An alphabet generates patterns by size.
type alphabet struct {
	leaves []*P
	unary  []func(*P) *P
	binary []func(a, b *P) *P
	bySize [][]*P
}

// ofSize returns all patterns of exactly n operators.
func (a *alphabet) ofSize(n int) []*P {
	for len(a.bySize) <= n {
		a.bySize = append(a.bySize, nil)
	}
	if a.bySize[n] != nil {
		return a.bySize[n]
	}
	var out []*P
	a.each(n, func(p *P) bool { out = append(out, p); return true })
	a.bySize[n] = out
	return out
}

// each enumerates patterns of exactly n operators without storing them.
func (a *alphabet) each(n int, fn func(*P) bool) bool {
	if n <= 0 {
		return true
	}
	if n == 1 {
		for _, l := range a.leaves {
			if !fn(l) {
				return false
			}
		}
		return true
	}
	for _, k := range a.ofSize(n - 1) {
		for _, u := range a.unary {
			if !fn(u(k)) {
				return false
			}
		}
	}
	for i := 1; i < n-1; i++ {
		l, r := a.ofSize(i), a.ofSize(n-1-i)
		for _, x := range l {
			for _, y := range r {
				for _, b := range a.binary {
					if !fn(b(x, y)) {
						return false
					}
				}
			}
		}
	}
	return true
}

// upTo enumerates all patterns of at most n operators, smallest first.
func (a *alphabet) upTo(n int, fn func(*P) bool) {
	for i := 1; i <= n; i++ {
		if !a.each(i, fn) {
			return
		}
	}
}

// pure is everything that may be memoized: no errors and no checkers; with
// assertions that look at both sides of their position.
func pure() *alphabet {
	a := everything(false, true)
	a.unary = append(a.unary[:3:3], a.unary[4:]...)
	a.leaves = append(a.leaves, assertp(syntax.EmptyBeginLine), assertp(syntax.EmptyWordBoundary))
	return a
}

// everything is the alphabet of all operators over the letters a and b.
func everything(errs, memos bool) *alphabet {
	a := &alphabet{leaves: []*P{lit("a"), lit("b"), lit("ab"), set("ab"), any(1), any(2), empty(), assertp(syntax.EmptyEndText)}, binary: bBasic,
		unary: append([]func(*P) *P{func(p *P) *P { return capt(p, 1) }, search, func(p *P) *P { return repeat(p, 2) },
			func(p *P) *P { return check(p, even, 3, 4) },
			func(p *P) *P { return gram("S", map[string]*P{"S": p}) },
			func(p *P) *P { return gram("S", map[string]*P{"S": or(seq(lit("a"), nt("S")), p)}) }}, uBasic...)}
	if errs {
		a.leaves = append(a.leaves, errp("e", nil))
		a.unary = append(a.unary, func(p *P) *P { return errp("w", p) })
	}
	if memos {
		a.unary = append(a.unary, memoP)
	}
	return a
}

// even accepts text of even length and then takes one more b.
var even = &chkSpec{Kind: "rec", Words: []string{"even"}, Fn: func(b, rest string, id, flag int) int {
	if len(b)%2 != 0 {
		return -1
	}
	if strings.HasPrefix(rest, "b") {
		return 1
	}
	return 0
}}

func binSeq(a, b *P) *P { return seq(a, b) }
func binOr(a, b *P) *P  { return or(a, b) }

// strs returns all strings over alpha of length <= n, shortest first.
func strs(alpha string, n int) []string {
	out := []string{""}
	last := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, c := range []byte(alpha) {
				next = append(next, s+string([]byte{c}))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}
