PRE='''package main

import (
	"fmt"
	"os"
	"strings"
%s)

func check(ok bool, format string, args ...interface{}) {
	if !ok {
		fmt.Printf(format+"\\n", args...)
		os.Exit(1)
	}
}

func run(p Pattern, s string) (bool, int, *memo.Capture) {
	code := vm.Encode(MustCompile(p))
	ok, n, c, _ := code.Exec(strings.NewReader(s), memo.NoneTable{})
	return ok, n, c
}

'''
def D(body, extra=(), std=('charset','memo','.pattern','vm'), stdlib=()):
    imps=''
    for x in stdlib: imps+='\t"%s"\n'%x
    for x in list(std)+list(extra):
        if x.startswith('.'): imps+='\t. "github.com/zyedidia/gpeg/%s"\n'%x[1:]
        else: imps+='\t"github.com/zyedidia/gpeg/%s"\n'%x
    return PRE%imps+'var _ = charset.New\n\nfunc main() {\n'+body+'\n}\n'
BUGS=[
dict(id='alt-disjoint-sets',prop='C01',edits=[('pattern/compile.go','''			case isa.Char:
				disjoint = !lt.Chars.Has(rt.Byte)
			}''','''			case isa.Char:
				disjoint = !lt.Chars.Has(rt.Byte)
			case isa.Set:
				disjoint = lt.Chars != rt.Chars
			}''')],
 needs='an ordered choice whose alternatives begin with different but overlapping byte sets, on an input whose first byte is in both and that only the second alternative matches',
 breaks='the choice commits to its first alternative on the first byte although the second may match too, so the second is never tried',
 demo=D('''	p := Or(Concat(Set(charset.Range('a', 'c')), Literal("x")), Concat(Set(charset.Range('b', 'd')), Literal("y")))
	ok, n, _ := run(p, "by")
	check(ok && n == 2, "[a-c]x / [b-d]y on by: %v %d", ok, n)
	ok, n, _ = run(p, "dy")
	check(ok && n == 2, "on dy: %v %d", ok, n)''')),
dict(id='not-then-dots',prop='C01',edits=[('pattern/optimize.go','if rt.N == 1 {','if rt.N >= 1 {')],
 needs='a negative lookahead on one byte followed by Any(n) with n other than 1',
 breaks='!a followed by Any(2) consumes a single byte',
 demo=D('''	ok, n, _ := run(Optional(Concat(Not(Literal("a")), Any(2))), "bcd")
	check(ok && n == 2, "!a .. on bcd: %v %d", ok, n)
	ok, n, _ = run(Optional(Concat(Not(Literal("a")), Any(2))), "b")
	check(n == 0, "!a .. on b: %v %d", ok, n)''')),
dict(id='capture-back-256',prop='C02',edits=[('pattern/compile.go','if i == 0 || back >= 256 {','if i == 0 || back > 256 {'),('pattern/compile.go','} else if i == len(sub) && back < 256 {','} else if i == len(sub) && back <= 256 {')],
 needs='a capture whose pattern begins with exactly 256 bytes of fixed width',
 breaks='the capture starts at its end and is empty: the width is truncated to one byte',
 demo=D('''	s := strings.Repeat("x", 256)
	ok, n, c := run(Cap(Literal(s), 1), s)
	check(ok && n == 256 && c.NumChildren() == 1, "no match")
	check(c.Child(0).Start() == 0 && c.Child(0).Len() == 256, "capture [%d,%d)", c.Child(0).Start(), c.Child(0).End())''')),
dict(id='capture-late-optional',prop='C02',edits=[('pattern/compile.go','''		case isa.Any:
			back += int(t.N)
		default:''','''		case isa.Any:
			back += int(t.N)
		case isa.TestCharNoChoice:
			// an optional char that is followed by its own label
			back++
			if i+1 < len(sub) {
				if lbl, ok := sub[i+1].(isa.Label); ok && lbl == t.Lbl {
					break
				}
			}
			back--
			break loop
		case isa.Label:
		default:''')],
 needs='a capture that begins with an optional single character which is absent from the input',
 breaks='the capture starts one byte too early when the optional character is absent',
 demo=D('''	p := Concat(Literal("x"), Cap(Concat(Optional(Literal("-")), Plus(Set(charset.Range('0', '9')))), 1))
	_, _, c := run(p, "x12")
	check(c.Child(0).Start() == 1 && c.Child(0).End() == 3, "capture [%d,%d)", c.Child(0).Start(), c.Child(0).End())
	_, _, c = run(p, "x-12")
	check(c.Child(0).Start() == 1 && c.Child(0).End() == 4, "capture [%d,%d)", c.Child(0).Start(), c.Child(0).End())''')),
dict(id='partial-commit-deep',prop='C02',edits=[('vm/stack.go','''			s.entries[len(s.entries)-2].addCapt(top.capt)''','''			if parent := &s.entries[len(s.entries)-2]; len(parent.capt) == 0 {
				parent.capt = top.capt
			} else {
				s.entries[len(s.entries)-2].addCapt(top.capt[len(top.capt)-1:])
			}''')],
 needs='a repetition nested in another construct whose body makes more than one capture, on its second or later iteration',
 breaks='only the last capture of each iteration but the first is kept',
 demo=D('''	p := Cap(Star(Concat(Cap(Literal("a"), 1), Cap(Literal("b"), 2))), 3)
	ok, n, c := run(p, "abab")
	check(ok && n == 4, "no match")
	check(c.Child(0).NumChildren() == 4, "%d captures", c.Child(0).NumChildren())''')),
dict(id='inline-self',prop='C03',edits=[('pattern/optimize.go','''				if t.Inlined == nil {
					leaf = false
				}''','''				if _, ok := p.Defs[t.Name]; ok && t.Inlined == nil {
					leaf = false
				}'''),('pattern/compile.go','''	used := make(map[string]bool)
	for _, v := range p.Defs {
		WalkPattern(v, true, func(sub Pattern) {''','''	used := make(map[string]bool)
	for _, v := range p.Defs {
		WalkPattern(v, len(p.Defs) > 1, func(sub Pattern) {''')],
 needs='x', breaks='x', demo=D('')),
dict(id='tailcall-drops-return',prop='C03',edits=[('pattern/compile.go','''					if !hadlbl {
						code[i+1+retidx] = isa.Nop{}''','''					if !hadlbl || i+1+retidx == len(code)-1 {
						code[i+1+retidx] = isa.Nop{}''')],
 needs='a rule that comes last in the compiled code (rules are laid out in random order) and ends in an alternative whose last item is a call',
 breaks='the return of the last rule is dropped although other alternatives jump to it, so they fall off the end of the grammar',
 demo=D('''	p := Grammar("A", map[string]Pattern{"A": Or(Concat(Literal("("), NonTerm("A"), Literal(")")), Concat(Literal("x"), Optional(NonTerm("A"))))})
	_ = p
	g := func() Pattern {
		return Grammar("S", map[string]Pattern{
			"S": Concat(NonTerm("A"), Literal(";")),
			"A": Or(Concat(Literal("("), NonTerm("S"), Literal(")")), Literal("z"), Concat(Literal("x"), NonTerm("A"))),
		})
	}
	for i := 0; i < 200; i++ {
		ok, n, _ := run(g(), "xz;")
		check(ok && n == 3, "xz;: %v %d", ok, n)
		ok, n, _ = run(g(), "z")
		check(!ok, "z: %v %d", ok, n)
		ok, n, _ = run(g(), "x(z;)")
		check(!ok, "x(z;): %v %d", ok, n)
		ok, n, _ = run(g(), "z!")
		check(!ok, "z!: %v %d", ok, n)
	}''')),
dict(id='search-skip-span',prop='C05',edits=[('pattern/compile.go','''		case isa.Set:
			// Heuristic''','''		case isa.Span:
			// the run of chars before the rest of the match
			set = t.Chars.Complement()
			opt = true
		case isa.Set:
			// Heuristic''')],
 needs='a search for a pattern that begins with a possibly empty repetition, on a text in which the leftmost match does not begin with the repeated bytes and is not at the start',
 breaks='the search skips over the leftmost match',
 demo=D('''	ok, n, _ := run(Search(Concat(Star(Set(charset.New([]byte("a")))), Literal("b"))), "xxbab")
	check(ok && n == 3, "search for a*b in xxbab: %v %d", ok, n)''')),
dict(id='error-dedupe',prop='C06',edits=[('vm/vm.go','''			errs = append(errs, ParseError{
				Pos:     src.Pos(),
				Message: msg,
			})''','''			if n := len(errs); n == 0 || errs[n-1].Message != msg || errs[n-1].Pos > src.Pos() {
				errs = append(errs, ParseError{
					Pos:     src.Pos(),
					Message: msg,
				})
			}''')],
 needs='the same error node reporting twice in a row at increasing positions',
 breaks='the second and later reports of the same message are lost',
 demo=D('''	p := Star(Or(Literal("a"), Error("bad", Set(charset.New([]byte("xy"))))))
	code := vm.Encode(MustCompile(p))
	_, _, _, errs := code.Exec(strings.NewReader("axya"), memo.NoneTable{})
	check(len(errs) >= 2 && errs[0].Pos == 1 && errs[1].Pos == 2, "errors: %v", errs)''')),
dict(id='backref-empty',prop='C07',edits=[('isa/checker.go','''		back := r.Symbols[id]
		buf''','''		back := r.Symbols[id]
		if len(back) == 0 {
			// nothing to refer to
			return -1
		}
		buf''')],
 needs='a back-reference to a definition that matched the empty string',
 breaks='the reference fails instead of matching the empty string',
 demo=D('''	ref := isa.NewBackRef()
	p := Concat(CheckFlags(Star(Literal("a")), ref, 0, int(isa.RefDef)), Literal("-"), CheckFlags(Literal(""), ref, 0, int(isa.RefUse)), Literal("."))
	ok, n, _ := run(p, "aa-aa.")
	check(ok && n == 6, "aa-aa.: %v %d", ok, n)
	ok, n, _ = run(p, "-.")
	check(ok && n == 2, "-.: %v %d", ok, n)''',extra=['isa'])),
dict(id='checker-slice-input-pos',prop='C07',edits=[('vm/vm.go','n := checker.Check(src.Slice(int(ent.memo.pos), src.Pos()), src, id, flag)','n := checker.Check(src.Slice(int(ent.memo.pos), max(src.Pos(), src.Furthest())), src, id, flag)')],
 needs='a checked pattern that looks ahead beyond its end',
 breaks='the checker is given text beyond the match when the match looked further ahead',
 demo=D('''	word := Concat(Plus(Set(charset.Range('a', 'z'))), Not(Literal("!!")))
	ok, n, _ := run(Concat(Check(word, isa.NewMapChecker([]string{"if"})), Literal("!x")), "if!x")
	check(ok && n == 4, "if!x: %v %d", ok, n)''',extra=['isa'])),
dict(id='peekbefore-chunk',prop='C08',edits=[('input/input.go','''	n, _ := i.r.ReadAt(i.b[:], int64(i.base+i.coff-1))
	return i.b[0], n == 1''','''	if i.nchunk == 0 {
		return 0, false
	}
	n, _ := i.r.ReadAt(i.b[:], int64(i.base+i.coff-1))
	return i.b[0], n == 1''')],
 needs='a word-boundary or line assertion at the very end of the input, reached through a refill (the read position runs off the window, e.g. after an exact multiple or the end of the text)',
 breaks='at the end of the text the preceding byte is reported missing, so \\b and $ assertions there go wrong',
 demo=D('''	p := Concat(Literal("ab"), EmptyOp(syntax.EmptyWordBoundary))
	ok, n, _ := run(p, "ab")
	check(ok && n == 2, "ab\\\\b at the end: %v %d", ok, n)''',stdlib=['regexp/syntax'])),
dict(id='peekbefore-window',prop='C08',edits=[('input/input.go','''	if i.base+i.coff-1 < 0 {
		return 0, false
	}
	if i.coff >= 1 {
		return i.chunk[i.coff-1], i.nchunk != 0
	}
	n, _ := i.r.ReadAt(i.b[:], int64(i.base+i.coff-1))
	return i.b[0], n == 1''','''	if i.coff >= 1 {
		return i.chunk[i.coff-1], i.nchunk != 0
	}
	// first byte of the window: everything before the window has been
	// consumed already, ask the reader only at the end of the input
	if i.nchunk == bufsz || i.base == 0 {
		return 0, false
	}
	n, _ := i.r.ReadAt(i.b[:], int64(i.base-1))
	return i.b[0], n == 1''')],
 needs='a zero-width assertion evaluated at the first byte of a full 4096-byte window other than the first',
 breaks='the byte before the window is reported missing, so \\b and ^ assertions there see the start of the text',
 demo=D('''	s := strings.Repeat("a", 4096) + "b" + strings.Repeat("c", 5000)
	p := Concat(Star(Literal("a")), EmptyOp(syntax.EmptyWordBoundary), Literal("b"))
	ok, n, _ := run(p, s)
	check(!ok, "word boundary inside a word: %v %d", ok, n)
	p = Concat(Star(Literal("a")), EmptyOp(syntax.EmptyNoWordBoundary), Literal("b"))
	ok, n, _ = run(p, s)
	check(ok && n == 4097, "no word boundary inside a word: %v %d", ok, n)''',stdlib=['regexp/syntax'])),
]
BUGS=[b for b in BUGS if b['id']!='inline-self']
