package main

// C22 (meaning of textual PEGs) and C23 (malformed patterns are errors). The
// oracle is a recursive-descent reader of the documented syntax that produces
// pattern specifications, which the reference interpreter runs.

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/vm"
)

// A reader follows the grammar in the comment of re/grammar.go, rule by rule,
// with the ordered choice of PEGs.
type reader struct {
	s string
	// dup: a rule is defined twice
	dup bool
}

// readPEG returns the meaning of a text, or nil if it is not valid syntax.
func readPEG(s string) (p *P, dup bool) {
	r := &reader{s: s}
	i := r.spacing(0)
	p, j, ok := r.grammar(i)
	if !ok {
		p, j, _ = r.expression(i)
	}
	if j != len(s) {
		return nil, false
	}
	return p, r.dup
}

func (r *reader) eol(i int) (int, bool) {
	switch {
	case strings.HasPrefix(r.s[i:], "\r\n"):
		return i + 2, true
	case i < len(r.s) && (r.s[i] == '\n' || r.s[i] == '\r'):
		return i + 1, true
	}
	return i, false
}

func (r *reader) spacing(i int) int {
	for i < len(r.s) {
		if j, ok := r.eol(i); ok {
			i = j
			continue
		}
		if r.s[i] == ' ' || r.s[i] == '\t' {
			i++
			continue
		}
		if r.s[i] == '#' {
			j := i + 1
			for j < len(r.s) && r.s[j] != '\n' && r.s[j] != '\r' {
				j++
			}
			j, ok := r.eol(j)
			if !ok {
				return i // a comment needs its end of line
			}
			i = j
			continue
		}
		break
	}
	return i
}

// token reads a literal token and the spacing after it.
func (r *reader) token(i int, t string) (int, bool) {
	if strings.HasPrefix(r.s[i:], t) {
		return r.spacing(i + len(t)), true
	}
	return i, false
}

func (r *reader) grammar(i int) (*P, int, bool) {
	defs := map[string]*P{}
	start := ""
	for {
		name, j, ok := r.identifier(i)
		if !ok {
			break
		}
		j, ok = r.token(j, "<-")
		if !ok {
			break
		}
		body, j, ok := r.expression(j)
		if !ok {
			break
		}
		if start == "" {
			start = name
		}
		if defs[name] != nil {
			r.dup = true
		}
		defs[name] = body
		i = j
	}
	if start == "" {
		return nil, i, false
	}
	return gram(start, defs), i, true
}

func (r *reader) identifier(i int) (string, int, bool) {
	letter := func(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' }
	j := i
	for j < len(r.s) && (letter(r.s[j]) || j > i && r.s[j] >= '0' && r.s[j] <= '9') {
		j++
	}
	if j == i {
		return "", i, false
	}
	return r.s[i:j], r.spacing(j), true
}

func (r *reader) expression(i int) (*P, int, bool) {
	p, i := r.sequence(i)
	alts := []*P{p}
	for {
		j, ok := r.token(i, "/")
		if !ok {
			break
		}
		p, i = r.sequence(j)
		alts = append(alts, p)
	}
	if len(alts) == 1 {
		return alts[0], i, true
	}
	return or(alts...), i, true
}

func (r *reader) sequence(i int) (*P, int) {
	var ks []*P
	for {
		p, j, ok := r.prefix(i)
		if !ok {
			break
		}
		ks, i = append(ks, p), j
	}
	switch len(ks) {
	case 0:
		return empty(), i
	case 1:
		return ks[0], i
	}
	return seq(ks...), i
}

func (r *reader) prefix(i int) (*P, int, bool) {
	wrap := func(p *P) *P { return p }
	j := i
	if k, ok := r.token(i, "&"); ok {
		wrap, j = and, k
	} else if k, ok := r.token(i, "!"); ok {
		wrap, j = not, k
	}
	p, j, ok := r.suffix(j)
	if !ok {
		return nil, i, false
	}
	return wrap(p), j, true
}

func (r *reader) suffix(i int) (*P, int, bool) {
	p, j, ok := r.primary(i)
	if !ok {
		return nil, i, false
	}
	if k, ok := r.token(j, "?"); ok {
		return opt(p), k, true
	}
	if k, ok := r.token(j, "*"); ok {
		return star(p), k, true
	}
	if k, ok := r.token(j, "+"); ok {
		return plus(p), k, true
	}
	return p, j, true
}

func (r *reader) primary(i int) (*P, int, bool) {
	if name, j, ok := r.identifier(i); ok {
		if _, arrow := r.token(j, "<-"); !arrow {
			return nt(name), j, true
		}
		return nil, i, false
	}
	for _, b := range [][2]string{{"(", ")"}, {"{{", "}}"}} {
		if j, ok := r.token(i, b[0]); ok {
			p, j, _ := r.expression(j)
			if j, ok = r.token(j, b[1]); !ok {
				return nil, i, false
			}
			if b[0] == "{{" {
				p = memoP(p)
			}
			return p, j, true
		}
	}
	if j, ok := r.token(i, "."); ok {
		return any(1), j, true
	}
	if i < len(r.s) && (r.s[i] == '\'' || r.s[i] == '"') {
		q := r.s[i]
		j := i + 1
		var b []byte
		for j < len(r.s) && r.s[j] != q {
			ch, k, ok := r.char(j)
			if !ok {
				return nil, i, false
			}
			b, j = append(b, ch), k
		}
		if j >= len(r.s) {
			return nil, i, false
		}
		return lit(string(b)), r.spacing(j + 1), true
	}
	if i < len(r.s) && r.s[i] == '[' {
		return r.class(i + 1)
	}
	return nil, i, false
}

func (r *reader) class(i int) (*P, int, bool) {
	j, neg := r.token(i, "^")
	var b bset
	for j < len(r.s) && r.s[j] != ']' {
		lo, k, ok := r.char(j)
		if !ok {
			return nil, i, false
		}
		hi := lo
		if k < len(r.s) && r.s[k] == '-' {
			if h, k2, ok := r.char(k + 1); ok {
				hi, k = h, k2
			}
		}
		for x := int(lo); x <= int(hi); x++ {
			b[x] = true
		}
		j = k
	}
	if j >= len(r.s) {
		return nil, i, false
	}
	if neg {
		for x := range b {
			b[x] = !b[x]
		}
	}
	return &P{Op: oSet, Set: &b}, r.spacing(j + 1), true
}

func (r *reader) char(i int) (byte, int, bool) {
	if i >= len(r.s) {
		return 0, i, false
	}
	if r.s[i] != '\\' {
		return r.s[i], i + 1, true
	}
	i++
	if i >= len(r.s) {
		return 0, i, false
	}
	switch r.s[i] {
	case 'n':
		return '\n', i + 1, true
	case 'r':
		return '\r', i + 1, true
	case 't':
		return '\t', i + 1, true
	case '\'', '"', '[', ']', '\\', '-':
		return r.s[i], i + 1, true
	}
	oct := func(k int, max byte) bool { return k < len(r.s) && r.s[k] >= '0' && r.s[k] <= max }
	switch {
	case oct(i, '2') && oct(i+1, '7') && oct(i+2, '7'):
		return (r.s[i]-'0')<<6 | (r.s[i+1]-'0')<<3 | (r.s[i+2] - '0'), i + 3, true
	case oct(i, '7') && oct(i+1, '7'):
		return (r.s[i]-'0')<<3 | (r.s[i+1] - '0'), i + 2, true
	case oct(i, '7'):
		return r.s[i] - '0', i + 1, true
	}
	return 0, i, false
}

// undefined reports whether the pattern mentions a non-terminal that no
// enclosing grammar defines.
func (p *P) undefined(env *scope) bool {
	if p.Op == oNT {
		d, _ := env.find(p.S)
		return d == nil
	}
	if p.Op == oGram {
		env = &scope{defs: p.Defs, up: env}
		if p.Defs[p.S] == nil {
			return true
		}
		for _, d := range p.Defs {
			if d.undefined(env) {
				return true
			}
		}
		return false
	}
	for _, k := range p.Kids {
		if k.undefined(env) {
			return true
		}
	}
	return false
}

// infallible reports patterns that obviously match everywhere.
func (p *P) infallible() bool {
	switch p.Op {
	case oEmpty, oStar, oOpt:
		return true
	case oLit:
		return p.S == ""
	case oAny, oRepeat:
		return p.N == 0
	case oSeq:
		for _, k := range p.Kids {
			if !k.infallible() {
				return false
			}
		}
		return true
	case oOr:
		for _, k := range p.Kids {
			if k.infallible() {
				return true
			}
		}
		return len(p.Kids) == 0
	case oPlus, oAnd, oCap, oMemo:
		return p.Kids[0].infallible()
	}
	return false
}

// live returns p without the alternatives that can never be tried and the
// rules that the start rule does not use. An undefined non-terminal may but
// need not be reported if it occurs only there.
func (p *P) live() *P {
	q := *p
	q.Kids = nil
	for _, k := range p.Kids {
		q.Kids = append(q.Kids, k.live())
		if p.Op == oOr && k.infallible() {
			break
		}
	}
	if p.Defs != nil {
		q.Defs = map[string]*P{}
		var visit func(n string)
		visit = func(n string) {
			if d := p.Defs[n]; d != nil && q.Defs[n] == nil {
				q.Defs[n] = d.live()
				q.Defs[n].free(visit)
			}
		}
		visit(p.S)
	}
	return &q
}

// free calls fn for all non-terminals that p uses but does not define.
func (p *P) free(fn func(string)) {
	if p.Op == oNT {
		fn(p.S)
	}
	for _, k := range p.Kids {
		k.free(fn)
	}
	for _, d := range p.Defs {
		d.free(func(n string) {
			if p.Defs[n] == nil {
				fn(n)
			}
		})
	}
}

// checkPEG decides both properties for one text: which is reported depends
// on meaning: true for C22 (what valid texts mean), false for C23 (what is
// accepted).
func checkPEG(c *Ctx, text string, docs []string, meaning bool) bool {
	want, dup := readPEG(text)
	if meaning && (want == nil || dup || want.undefined(nil)) {
		c.Skip(1)
		return true
	}
	return c.Guard(func() string { return fmt.Sprintf("PEG text: %q", clip(text)) }, func() {
		c.States(1)
		p, err := re.Compile(text)
		ids := map[string]int{}
		pc, errc := re.CompileCap(text, ids)
		if (err == nil) != (want != nil) || (errc == nil) != (want != nil) {
			if want != nil {
				c.Violate("", "PEG text: %q\nis valid syntax, but was rejected (Compile: %v, CompileCap: %v)", text, err, errc)
			} else {
				c.Violate("", "PEG text: %q\nis not valid syntax, but was accepted (Compile: %v, CompileCap: %v)", text, err, errc)
			}
			return
		}
		if want == nil {
			if !meaning {
				c.Outcome(err.Error())
			}
			return
		}
		undef := want.undefined(nil)
		ps := []pattern.Pattern{p, pc}
		ref := want
		for i := range ps {
			how := []string{"", " [CompileCap]"}[i]
			if i == 1 {
				if want.Op != oGram {
					break
				}
				if e := capRules(want, ids, &ref); e != "" {
					c.Violate("", "PEG text: %q\nCompileCap: %s", text, e)
					return
				}
			}
			prog, err := pattern.Compile(ps[i])
			if err != nil && !undef {
				c.Violate("", "PEG text: %q%s\ncompilation failed: %v", text, how, err)
				return
			}
			if undef {
				if err == nil && want.live().undefined(nil) {
					c.Violate("", "PEG text: %q%s\nuses an undefined non-terminal, but compiled without an error", text, how)
					return
				}
				if err != nil {
					c.Outcome(err.Error())
				}
				continue
			}
			if dup {
				continue
			}
			code := vm.Encode(prog)
			refs := make([]mres, len(docs))
			for k, d := range docs {
				refs[k] = refLimit(ref, d, 5000+20*(len(text)+len(d)))
			}
			if meaning {
				if !checkCode(c, ref, &code, docs, refs, true, fmt.Sprintf("%s, from PEG text %q", how, text)) {
					return
				}
			} else {
				for k, d := range docs {
					if refs[k].undef == "" {
						run(&code, d, memo.NoneTable{})
						c.Traces(1)
					}
				}
			}
		}
		c.Trans(len(text))
	}) && !c.itemViol
}

// capRules wraps the rules of g in captures with the ids reported for them.
func capRules(g *P, ids map[string]int, out **P) string {
	if len(ids) != len(g.Defs) {
		return fmt.Sprintf("ids for %d names reported, the grammar has %d rules: %v", len(ids), len(g.Defs), ids)
	}
	defs := map[string]*P{}
	seen := map[int]string{}
	for _, n := range g.defNames() {
		id, ok := ids[n]
		if !ok {
			return fmt.Sprintf("no id reported for rule %s: %v", n, ids)
		}
		if o, ok := seen[id]; ok {
			return fmt.Sprintf("rules %s and %s have the same id %d", o, n, id)
		}
		seen[id] = n
		defs[n] = capt(g.Defs[n], id)
	}
	*out = gram(g.S, defs)
	return ""
}

// toText prints a specification as a PEG text with few parentheses.
// prec: 0 choice, 1 sequence, 2 prefix, 3 suffix, 4 primary.
func (p *P) toText(prec int) string {
	paren := func(own int, s string) string {
		if own < prec {
			return "(" + s + ")"
		}
		return s
	}
	join := func(sep string, own int) string {
		var ss []string
		for _, k := range p.Kids {
			ss = append(ss, k.toText(own+1))
		}
		return paren(own, strings.Join(ss, sep))
	}
	switch p.Op {
	case oLit:
		return quotePEG(p.S, '\'')
	case oSet:
		return classPEG(p.Set)
	case oAny:
		return "."
	case oEmpty:
		return "''"
	case oNT:
		return p.S
	case oMemo:
		return "{{" + p.Kids[0].toText(0) + "}}"
	case oSeq:
		return join(" ", 1)
	case oOr:
		return join("/", 0)
	case oStar:
		return paren(3, p.Kids[0].toText(4)+"*")
	case oPlus:
		return paren(3, p.Kids[0].toText(4)+"+")
	case oOpt:
		return paren(3, p.Kids[0].toText(4)+"?")
	case oNot:
		return paren(2, "!"+p.Kids[0].toText(3))
	case oAnd:
		return paren(2, "&"+p.Kids[0].toText(3))
	case oGram:
		s := p.S + "<-" + p.Defs[p.S].toText(0)
		for _, n := range p.defNames() {
			if n != p.S {
				s += " " + n + "<-" + p.Defs[n].toText(0)
			}
		}
		return s
	}
	panic("toText")
}

func quotePEG(s string, q byte) string {
	var sb strings.Builder
	sb.WriteByte(q)
	for i := 0; i < len(s); i++ {
		if s[i] == q || s[i] == '\\' {
			sb.WriteByte('\\')
		}
		sb.WriteByte(s[i])
	}
	sb.WriteByte(q)
	return sb.String()
}

func classPEG(b *bset) string {
	s := "["
	for i := 0; i < 256; i++ {
		if b[i] {
			s += fmt.Sprintf("\\%03o", i)
		}
	}
	return s + "]"
}

// texts enumerates all sequences of at most n tokens.
func texts(c *Ctx, tokens []string, n, perItem int, fn func(string)) {
	full := n - perItem
	var short, heads []string
	var gen func(s string, k int)
	gen = func(s string, k int) {
		if k == full {
			heads = append(heads, s)
			return
		}
		short = append(short, s)
		for _, t := range tokens {
			gen(s+t, k+1)
		}
	}
	gen("", 0)
	if !c.Item(func() {
		for _, s := range short {
			fn(s)
			if c.itemViol {
				return
			}
		}
	}) {
		return
	}
	for _, h := range heads {
		h := h
		if !c.Item(func() {
			var rec func(s string, k int)
			rec = func(s string, k int) {
				if c.itemViol {
					return
				}
				fn(s)
				if k == 0 {
					return
				}
				for _, t := range tokens {
					rec(s+t, k-1)
				}
			}
			rec(h, perItem)
		}) {
			return
		}
	}
}

// oneByte is a text whose class or literal c is applied to all bytes at once.
func oneByteText(prim string) string { return "S<-(A/.)* A<-" + prim }

// allBytes has every byte value, each followed by the bytes 'a' and 'b'.
func allBytes() string {
	var b []byte
	for i := 0; i < 256; i++ {
		b = append(b, byte(i), 'a', byte(255-i))
	}
	return string(b)
}

var peGrammars = []string{
	"S <- 'a' S / [b-d]+ !. # x\n",
	"E<-T('+'T)*\nT<-F('*'F)*\nF<-[0-9]+/'('E')'",
	"A <- &B {{ 'a'? }} B\nB <- \"b\"* '' / .",
	"'if' !([a-z_0-9] / '\\'') / \"\\\\\\n\\042\"",
	"S<-'x'/() Q<-[^\\]\\-a]\t",
	"L <- '[' (V (',' V)*)? ']'\r\nV <- [0-9]+ / L",
}

var peSpacings = []string{" ", "\t", "\n", "\r", "\r\n", "#\n", "# <- 'x'\r", "#a#b\r\n", "\n \t", "#c\n#d\n"}

func repoDir() string {
	if d := os.Getenv("GPEG_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// fileGrammars returns the grammars that come with the repository.
func fileGrammars() (names []string, texts []string) {
	fs, _ := filepath.Glob(filepath.Join(repoDir(), "grammars", "*.peg"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := ioutil.ReadFile(f)
		if err == nil {
			names, texts = append(names, filepath.Base(f)), append(texts, string(b))
		}
	}
	return
}

// tokenStarts returns the positions in a valid text between tokens, found by
// putting a blank there and looking whether the meaning is the same.
func tokenGaps(text string) (gaps []int) {
	want, _ := readPEG(text)
	for i := 0; i <= len(text); i++ {
		ok := true
		for _, sp := range []string{" ", "#'\"\n"} {
			p, _ := readPEG(text[:i] + sp + text[i:])
			if p == nil || want == nil || p.String() != want.String() {
				ok = false
			}
		}
		if ok {
			gaps = append(gaps, i)
		}
	}
	return
}

var tokens = []string{"'a'", "\"b\"", ".", "[ab]", "/", "(", ")", "*", "?", "!", "&", "+", "{{", "}}", "A", "<-", "B ", "''"}

func init() {
	register(&Property{ID: "C22",
		Assume: []string{"the grammar in the comment of re/grammar.go is the documented syntax; texts that define a rule twice are outside the property", "repetitions of empty matches and left recursion are excluded"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"token-sequences", fmt.Sprintf("all valid texts among all sequences of <=%d of the 18 tokens %v, on all inputs over {a,b} of length <=3", pick(th, 5, 6), tokens), func(c *Ctx) {
					docs := strs("ab", 3)
					texts(c, tokens, pick(th, 5, 6), pick(th, 2, 3), func(s string) { checkPEG(c, s, docs, true) })
				}},
				{"grammar-texts", fmt.Sprintf("all texts 'A<-X B<-Y' with X, Y sequences of <=%d tokens, on all inputs over {a,b} of length <=3, plain and capturing", pick(th, 3, 3)), func(c *Ctx) {
					docs := strs("ab", 3)
					toks := []string{"'a'", "[ab]", "/", "*", "!", "&", "A", "B", "(", ")"}
					var ys []string
					var rec func(s string, k int)
					rec = func(s string, k int) {
						if p, _ := readPEG("X<-" + s); p != nil {
							ys = append(ys, s)
						}
						if k > 0 {
							for _, t := range toks {
								rec(s+" "+t, k-1)
							}
						}
					}
					rec("", 3)
					for _, x := range ys {
						x := x
						if !c.Item(func() {
							for _, y := range ys {
								if !th && len(x)+len(y) > 18 {
									continue
								}
								if !checkPEG(c, "A<-"+x+"\nB<-"+y, docs, true) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"printed-patterns", fmt.Sprintf("all patterns of <=%d operators printed with as few parentheses as the precedences allow, on all inputs over {a,b} of length <=4", pick(th, 4, 5)), func(c *Ctx) {
					a := &alphabet{leaves: []*P{lit("a"), lit("ab"), set("b"), any(1), empty()}, unary: []func(*P) *P{star, plus, opt, not, and, memoP}, binary: bBasic}
					docs := strs("ab", 4)
					batch(c, a, pick(th, 4, 5), 32, nil, func(p *P) {
						text := p.toText(0)
						c.Guard(func() string { return fmt.Sprintf("PEG text: %q", text) }, func() {
							q, err := re.Compile(text)
							if err != nil {
								c.Violate("", "PEG text: %q\nis valid syntax, but was rejected: %v", text, err)
								return
							}
							code := vm.Encode(pattern.MustCompile(q))
							refs := make([]mres, len(docs))
							for k, d := range docs {
								refs[k] = ref(p, d)
							}
							checkCode(c, p, &code, docs, refs, true, fmt.Sprintf(", from PEG text %q", text))
						})
					})
				}},
				{"escapes", "all literals (both quotes) and classes (plain and negated) of <=" + fmt.Sprint(pick(th, 3, 4)) + " characters of \"ab-^][\\'\\\"n0127 \\n\", applied to every byte value", func(c *Ctx) {
					chars := []string{"a", "b", "-", "^", "]", "[", "\\", "'", "\"", "n", "0", "1", "2", "7", "8", " ", "\n"}
					doc := []string{allBytes()}
					texts(c, chars, pick(th, 3, 4), pick(th, 1, 2), func(s string) {
						_ = checkPEG(c, oneByteText("["+s+"]"), doc, true) && checkPEG(c, oneByteText("[^"+s+"]"), doc, true) &&
							checkPEG(c, oneByteText("'"+s+"'"), litDocs(s), true) && checkPEG(c, oneByteText("\""+s+"\""), litDocs(s), true)
					})
				}},
				{"octal", "every octal escape of 1 to 4 digits and every other escaped byte in literals, classes and as both ends of ranges, applied to every byte value", func(c *Ctx) {
					var es []string
					for i := 0; i < 512; i++ {
						es = append(es, fmt.Sprintf("%o", i), fmt.Sprintf("%02o", i), fmt.Sprintf("%03o", i), fmt.Sprintf("%03o", i)+"1")
					}
					for b := 0; b < 256; b++ {
						es = append(es, string([]byte{byte(b)}))
					}
					doc := []string{allBytes()}
					seen := map[string]bool{}
					for _, e := range es {
						if seen[e] {
							continue
						}
						seen[e] = true
						e := "\\" + e
						if !c.Item(func() {
							for _, t := range []string{"[" + e + "]", "[^" + e + "]", "[" + e + "-\\277]", "[\\001-" + e + "]", "['-" + e + "]", "'" + e + "'", "\"" + e + "\"", "!'" + e + "' .", "[" + e[1:] + "]", "'" + e[1:] + "'", "[a-" + e[1:] + "]", "[" + e[1:] + "-z]"} {
								if !checkPEG(c, oneByteText(t), doc, true) {
									return
								}
							}
						}) {
							return
						}
					}
				}},
				{"spacing", fmt.Sprintf("6 grammars with every spacing (blanks, every line end, comments) at every gap between tokens%s", map[bool]string{true: ", at every pair of gaps", false: ""}[th]), func(c *Ctx) {
					docs := append(strs("ab1", 3), "1+2*(3)", "[1,[2]]", "if", "if_", "\\\n\"", "bdc", "x", "acb")
					for _, g := range peGrammars {
						gaps := tokenGaps(g)
						for gi, gap := range gaps {
							g, gap, gi := g, gap, gi
							if !c.Item(func() {
								for _, sp := range peSpacings {
									t := g[:gap] + sp + g[gap:]
									if !checkPEG(c, t, docs, true) {
										return
									}
									if th {
										for _, g2 := range gaps[gi:] {
											for _, sp2 := range peSpacings[:7] {
												if !checkPEG(c, t[:g2+len(sp)]+sp2+t[g2+len(sp):], docs[:16], true) {
													return
												}
											}
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"identifiers", "rule names of every first and following byte, and names that are prefixes of each other", func(c *Ctx) {
					docs := strs("ab", 3)
					for b := 0; b < 256; b++ {
						b := string([]byte{byte(b)})
						if !c.Item(func() {
							for _, n := range []string{b, b + "x", "x" + b, "x" + b + "9", "A" + b + b} {
								for _, t := range []string{"S <- " + n + " 'b'* " + n + " <- 'a'", n + "<-'a'" + n + "/'b'", "S<-" + n + "/A/Ab A<-'b' " + n + "<-'ab' Ab<-'a'"} {
									if !checkPEG(c, t, docs, true) {
										return
									}
								}
							}
						}) {
							return
						}
					}
				}},
				{"bundled-grammars", "the grammars of the repository, on their own texts (for those that describe PEGs) and on a few short inputs, compared with the reference reading", func(c *Ctx) {
					names, ts := fileGrammars()
					for i := range names {
						i := i
						if !c.Item(func() {
							docs := []string{"", "1+2*(3-4)", "[1,2]", "{\"a\":[1,{}]}", "class A { int x = 1; }", "int x;", "S <- 'a' / [b-c]*", "a <- b # x\n", "x", "import a.b;"}
							want, dup := readPEG(ts[i])
							if want == nil || dup {
								c.Note("not in the documented syntax: " + names[i])
								if p, err := re.Compile(ts[i]); want == nil && err == nil {
									c.Violate("", "%s is not valid syntax, but was accepted as %v", names[i], p)
								}
								return
							}
							checkPEG(c, ts[i], docs, true)
						}) {
							return
						}
					}
				}},
			}
		}})

	register(&Property{ID: "C23",
		Assume: []string{"the grammar in the comment of re/grammar.go is the documented syntax"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"short-texts", fmt.Sprintf("all texts of <=%d characters of the syntax's own alphabet", pick(th, 4, 5)), func(c *Ctx) {
					chars := []string{"a", "B", "0", "'", "\"", "[", "]", "^", "\\", "<", "-", "<-", "/", "{", "}", "(", ")", "*", "?", "!", "&", ".", "#", "\n", " ", "\xff"}
					docs := []string{"", "a", "ab"}
					texts(c, chars, pick(th, 4, 5), pick(th, 1, 2), func(s string) { checkPEG(c, s, docs, false) })
				}},
				{"token-sequences", fmt.Sprintf("all sequences of <=%d of the 18 tokens", pick(th, 5, 6)), func(c *Ctx) {
					docs := []string{"", "ab"}
					texts(c, tokens, pick(th, 5, 6), pick(th, 2, 3), func(s string) { checkPEG(c, s, docs, false) })
				}},
				{"damage", "every deletion, replacement, insertion of one character, every truncation and every swap of neighbours in 6 grammars", func(c *Ctx) {
					var chars []string
					for _, s := range []string{"a", "S", "0", "'", "\"", "[", "]", "^", "\\", "<", "-", "/", "{", "}", "(", ")", "*", "?", "+", "!", "&", ".", "#", "\n", "\r", " ", "\x00", "\x80", "\xff"} {
						chars = append(chars, s)
					}
					for _, g := range peGrammars {
						for i := 0; i <= len(g); i++ {
							g, i := g, i
							if !c.Item(func() {
								docs := []string{"", "ab1"}
								try := func(s string) bool { return checkPEG(c, s, docs, false) }
								if !try(g[:i]) || !try(g[i:]) {
									return
								}
								if i < len(g) && !try(g[:i]+g[i+1:]) {
									return
								}
								if i+1 < len(g) && !try(g[:i]+g[i+1:i+2]+g[i:i+1]+g[i+2:]) {
									return
								}
								for _, ch := range chars {
									if !try(g[:i]+ch+g[i:]) || i < len(g) && !try(g[:i]+ch+g[i+1:]) {
										return
									}
									if th {
										for j := i; j <= len(g); j++ {
											for _, ch2 := range chars {
												if !try(g[:i] + ch + g[i:j] + ch2 + g[j:]) {
													return
												}
											}
										}
									}
								}
							}) {
								return
							}
						}
					}
				}},
				{"nesting", "every bracket, prefix and suffix repeated up to 40 times, unclosed, closed and mixed, and 2000 times", func(c *Ctx) {
					opens := []string{"(", "{{", "[", "'", "\"", "!", "&", "{", "[^", "\\", "'a'/", "(a/", "{{a ", "!(", "&{{", "A<-", "A<-(", "(('a'", "#", "[a-", "'a'*", "({", "{{{"}
					closes := map[string]string{"(": ")", "{{": "}}", "{": "}", "(a/": ")", "{{a ": "}}", "!(": ")", "&{{": "}}", "A<-(": ")", "(('a'": "))", "({": "})", "{{{": "}}}"}
					for _, o := range opens {
						o := o
						if !c.Item(func() {
							for n := 1; n <= 42; n++ {
								if n > 40 {
									n = 2000
								}
								for _, t := range []string{strings.Repeat(o, n), strings.Repeat(o, n) + "'a'" + strings.Repeat(closes[o], n), strings.Repeat(o, n) + strings.Repeat(closes[o], n-1), strings.Repeat(o, n) + "'a'" + strings.Repeat(closes[o], n+1), "S<-" + strings.Repeat(o, n) + "S" + strings.Repeat(closes[o], n)} {
									if n > 40 && (strings.Contains(o, "!") || strings.Contains(o, "&")) {
										continue
									}
									if !checkPEG(c, t, nil, false) {
										return
									}
								}
							}
						}) {
							return
						}
					}
				}},
				{"missing-rules", "every grammar value of 3 rules with bodies that use defined and undefined rules in every operator, reachable or not, with defined or undefined start, plain and nested; reported by pattern.Compile", func(c *Ctx) {
					leaf := []*P{lit("a"), nt("S"), nt("A"), nt("B"), nt("X"), nt("")}
					wrap := []func(*P) *P{func(p *P) *P { return p }, star, opt, not, and, func(p *P) *P { return seq(lit("a"), p) }, func(p *P) *P { return or(lit("a"), p) }, func(p *P) *P { return or(seq(p, lit("b")), empty()) },
						func(p *P) *P { return capt(p, 1) }, memoP, search, func(p *P) *P { return errp("e", p) }, func(p *P) *P { return check(p, chkMap, 1, 1) }, func(p *P) *P { return repeat(p, 2) }, func(p *P) *P { return gram("B", map[string]*P{"B": p}) },
						func(p *P) *P { return gram("Q", map[string]*P{"B": p, "Q": lit("b")}) }}
					var bodies []*P
					for _, l := range leaf {
						for _, w := range wrap {
							bodies = append(bodies, w(l))
						}
					}
					bodies = append(bodies, nil)
					for _, s := range bodies {
						s := s
						if !c.Item(func() {
							for _, a := range bodies {
								for _, start := range []string{"S", "A", "X", ""} {
									defs := map[string]*P{}
									if s != nil {
										defs["S"] = s
									}
									if a != nil {
										defs["A"] = a
									}
									if !checkMissing(c, gram(start, defs)) {
										return
									}
									if th || start == "S" {
										for _, w := range wrap[5:] {
											if !checkMissing(c, w(gram(start, defs))) {
												return
											}
										}
									}
								}
							}
						}) {
							return
						}
					}
				}},
			}
		}})
}

// checkMissing compiles a pattern that may use undefined rules.
func checkMissing(c *Ctx, p *P) bool {
	return c.Guard(func() string { return "pattern: " + p.String() }, func() {
		c.States(1)
		c.Traces(1)
		undef := p.undefined(nil)
		_, err := pattern.Compile(p.build())
		if undef && err == nil && p.live().undefined(nil) {
			c.Violate("", "pattern: %s\nuses an undefined non-terminal or start rule, but compiled without an error", p)
		} else if !undef && err != nil {
			c.Violate("", "pattern: %s\nis well-formed, but: %v", p, err)
		}
		if err != nil {
			c.Outcome(err.Error())
		}
		c.Trans(p.count())
	}) && !c.itemViol
}

// litDocs are inputs for a literal written with the characters s.
func litDocs(s string) []string {
	if p, _ := readPEG("'" + s + "'"); p != nil {
		if l := p.S; l != "" {
			return []string{l, "x" + l + l + "y", l[:len(l)-1], l[1:], s}
		}
	}
	return []string{"", "a", s}
}
