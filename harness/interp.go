package main

// The reference semantics: a direct recursive interpreter of pattern
// specifications, deliberately simple.

import (
	"regexp/syntax"
	"strconv"
	"strings"
)

// A cnode is a capture in the reference tree.
type cnode struct {
	id, start, end int
	kids           []*cnode
}

func writeSpan(sb *strings.Builder, id, start, end int) {
	var a [64]byte
	b := append(strconv.AppendInt(a[:0], int64(id), 10), '[')
	b = append(strconv.AppendInt(b, int64(start), 10), ',')
	b = append(strconv.AppendInt(b, int64(end), 10), ')')
	sb.Write(b)
}

func (c *cnode) write(sb *strings.Builder) {
	writeSpan(sb, c.id, c.start, c.end)
	if len(c.kids) > 0 {
		sb.WriteByte('{')
		for i, k := range c.kids {
			if i > 0 {
				sb.WriteByte(' ')
			}
			k.write(sb)
		}
		sb.WriteByte('}')
	}
}

func capsString(cs []*cnode) string {
	var sb strings.Builder
	for i, c := range cs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		c.write(&sb)
	}
	return sb.String()
}

type perr struct {
	pos int
	msg string
}

type chkCall struct {
	b        string
	pos      int
	id, flag int
}

// mres is the outcome of a parse.
type mres struct {
	ok    bool
	pos   int
	caps  []*cnode
	errs  []perr
	abort bool // an error node without recovery was reached
	calls []chkCall
	steps int
	// undef: the parse is outside the properties (left recursion, repetition
	// of an empty match, resource limits)
	undef  string
	depend int // furthest byte position examined (for information)
}

type undefined string
type aborted struct{ pos int }

type interp struct {
	doc   string
	steps int
	limit int
	errs  []perr
	calls []chkCall
	syms  map[symKey]string
	env   *scope
	act   map[actKey]bool
}

type symKey struct {
	chk *chkSpec
	id  int
}

type actKey struct {
	def *P
	pos int
}

type scope struct {
	defs map[string]*P
	up   *scope
}

func (s *scope) find(name string) (*P, *scope) {
	for ; s != nil; s = s.up {
		if d, ok := s.defs[name]; ok {
			return d, s
		}
	}
	return nil, nil
}

// ref runs the reference semantics of p on doc.
func ref(p *P, doc string) mres { return refLimit(p, doc, refSteps) }

// refSteps bounds the steps of the reference interpreter.
var refSteps = 200000

// withSteps runs fn with another bound.
func withSteps(n int, fn func()) {
	old := refSteps
	refSteps = n
	defer func() { refSteps = old }()
	fn()
}

func refLimit(p *P, doc string, limit int) (r mres) {
	in := &interp{doc: doc, limit: limit, syms: map[symKey]string{}, act: map[actKey]bool{}}
	defer func() {
		r.steps = in.steps
		if e := recover(); e != nil {
			switch t := e.(type) {
			case undefined:
				r.undef = string(t)
			case aborted:
				r.abort = true
				r.pos = t.pos
				r.errs = in.errs
				r.calls = in.calls
			default:
				panic(e)
			}
		}
	}()
	pos, caps, ok := in.match(p, 0)
	r.ok, r.errs, r.calls = ok, in.errs, in.calls
	if ok {
		r.pos, r.caps = pos, caps
	}
	return r
}

func (in *interp) match(p *P, pos int) (int, []*cnode, bool) {
	in.steps++
	if in.steps > in.limit {
		panic(undefined("step limit"))
	}
	switch p.Op {
	case oLit:
		if strings.HasPrefix(in.doc[pos:], p.S) {
			return pos + len(p.S), nil, true
		}
		return 0, nil, false
	case oSet:
		if pos < len(in.doc) && p.Set[in.doc[pos]] {
			return pos + 1, nil, true
		}
		return 0, nil, false
	case oAny:
		if pos+p.N <= len(in.doc) {
			return pos + p.N, nil, true
		}
		return 0, nil, false
	case oEmpty:
		return pos, nil, true
	case oSeq:
		var caps []*cnode
		for _, k := range p.Kids {
			np, c, ok := in.match(k, pos)
			if !ok {
				return 0, nil, false
			}
			pos, caps = np, append(caps, c...)
		}
		return pos, caps, true
	case oOr:
		if len(p.Kids) == 0 {
			return pos, nil, true
		}
		for _, k := range p.Kids {
			if np, c, ok := in.match(k, pos); ok {
				return np, c, true
			}
		}
		return 0, nil, false
	case oStar, oPlus:
		var caps []*cnode
		n := 0
		for {
			np, c, ok := in.match(p.Kids[0], pos)
			if !ok {
				break
			}
			if np == pos {
				panic(undefined("repetition of an empty match"))
			}
			pos, caps = np, append(caps, c...)
			n++
		}
		if p.Op == oPlus && n == 0 {
			return 0, nil, false
		}
		return pos, caps, true
	case oOpt:
		if np, c, ok := in.match(p.Kids[0], pos); ok {
			return np, c, true
		}
		return pos, nil, true
	case oNot:
		if _, _, ok := in.match(p.Kids[0], pos); ok {
			return 0, nil, false
		}
		return pos, nil, true
	case oAnd:
		_, c, ok := in.match(p.Kids[0], pos)
		if !ok {
			return 0, nil, false
		}
		return pos, c, true
	case oRepeat:
		var caps []*cnode
		for i := 0; i < p.N; i++ {
			np, c, ok := in.match(p.Kids[0], pos)
			if !ok {
				return 0, nil, false
			}
			pos, caps = np, append(caps, c...)
		}
		return pos, caps, true
	case oCap:
		np, c, ok := in.match(p.Kids[0], pos)
		if !ok {
			return 0, nil, false
		}
		return np, []*cnode{{id: p.N, start: pos, end: np, kids: c}}, true
	case oMemo:
		return in.match(p.Kids[0], pos)
	case oSearch:
		for s := pos; s <= len(in.doc); s++ {
			if np, c, ok := in.match(p.Kids[0], s); ok {
				return np, c, true
			}
		}
		return 0, nil, false
	case oGram:
		sc := &scope{defs: p.Defs, up: in.env}
		return in.call(p.S, sc, pos)
	case oNT:
		return in.call(p.S, in.env, pos)
	case oErr:
		in.errs = append(in.errs, perr{pos, p.S})
		if len(p.Kids) == 0 {
			panic(aborted{pos})
		}
		return in.match(p.Kids[0], pos)
	case oAssert:
		r1, r2 := rune(-1), rune(-1)
		if pos > 0 {
			r1 = rune(in.doc[pos-1])
		}
		if pos < len(in.doc) {
			r2 = rune(in.doc[pos])
		}
		if syntax.EmptyOpContext(r1, r2)&syntax.EmptyOp(p.N) != 0 {
			return pos, nil, true
		}
		return 0, nil, false
	case oCheck:
		np, c, ok := in.match(p.Kids[0], pos)
		if !ok {
			return 0, nil, false
		}
		b := in.doc[pos:np]
		n := 0
		switch p.Chk.Kind {
		case "map":
			n = -1
			for _, w := range p.Chk.Words {
				if w == b {
					n = 0
				}
			}
		case "ref":
			switch p.Flag {
			case 0:
				in.syms[symKey{p.Chk, p.N}] = b
			case 1:
				if strings.HasPrefix(in.doc[np:], in.syms[symKey{p.Chk, p.N}]) {
					n = len(in.syms[symKey{p.Chk, p.N}])
				} else {
					n = -1
				}
			}
		default:
			in.calls = append(in.calls, chkCall{b, np, p.N, p.Flag})
			n = p.Chk.Fn(b, in.doc[np:], p.N, p.Flag)
		}
		if n < 0 || np+n > len(in.doc) {
			return 0, nil, false
		}
		return np + n, c, true
	}
	panic("match")
}

func (in *interp) call(name string, env *scope, pos int) (int, []*cnode, bool) {
	d, sc := env.find(name)
	if d == nil {
		panic(undefined("undefined non-terminal"))
	}
	k := actKey{d, pos}
	if in.act[k] {
		panic(undefined("left recursion"))
	}
	in.act[k] = true
	save := in.env
	in.env = sc
	np, c, ok := in.match(d, pos)
	in.env = save
	delete(in.act, k)
	return np, c, ok
}
