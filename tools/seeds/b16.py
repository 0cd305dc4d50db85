from b1 import D,PRE
BUGS=[
dict(id='stack-ring',prop='C27',edits=[('vm/stack.go','''func newStack() *stack {
	return &stack{
		entries: make([]stackEntry, 0, 4),
		capt:    make([]*memo.Capture, 0),
	}
}''','''// stacks are used in turn, so that they need not be allocated for every parse.
var (
	stacks [256]stack
	nstack uint32
)

func newStack() *stack {
	st := &stacks[atomic.AddUint32(&nstack, 1)%uint32(len(stacks))]
	st.entries = st.entries[:0]
	st.capt = make([]*memo.Capture, 0)
	return st
}'''),('vm/stack.go','''import (
''','''import (
	"sync/atomic"

''')],
 needs='a parse during which 256 others start, as from one of its checkers',
 breaks='the parse loses its stack to a later one',
 demo=D('''	inner := vm.Encode(MustCompile(Concat(Optional(Literal("zz")), Star(Literal("x")))))
	p := Grammar("S", map[string]Pattern{"S": Or(Concat(Literal("a"), Check(Literal("b"), nest{&inner}), NonTerm("S"), Literal("c")), Literal("d"))})
	ok, n, _ := run(p, "ababdcc")
	check(ok && n == 7, "%v %d", ok, n)
}

type nest struct{ code *vm.Code }

func (c nest) Check(b []byte, src *input.Input, id, flag int) int {
	for i := 0; i < 400; i++ {
		c.code.Exec(strings.NewReader("xx"), memo.NoneTable{})
	}
	return 0
''',extra=['input'])),
dict(id='reader-limit',prop='C17',edits=[('input/reader.go','''	for int64(len(r.buf))-off < blen {
		n, err = r.reader.Read(tmp)''','''	for reads := 0; int64(len(r.buf))-off < blen; reads++ {
		if reads == 1<<10 {
			// a stream this slow may never end
			err = io.ErrNoProgress
			break
		}
		n, err = r.reader.Read(tmp)''')],
 needs='one ReadAt that needs more than 1024 reads of the stream, as a seek far ahead or a reader that returns a byte at a time',
 breaks='the bytes past the 1024 reads are reported as missing',
 demo=D('''	d := strings.Repeat("0123456789", 1<<20)
	r := input.FromReader(strings.NewReader(d))
	b := make([]byte, 10)
	n, _ := r.ReadAt(b, 9<<20)
	check(n == 10 && string(b) == d[9<<20:9<<20+10], "%d %q", n, b)''',extra=['input'])),
dict(id='rx-uniq-wrap',prop='C24',edits=[('rxconv/rxconv.go','return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)','return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1)%512, 10)')],
 needs='a repetition of more than 512 repetitions',
 breaks='two of its repetitions have the same name, one inside the other',
 demo=D('''	re := "(?:" + strings.Repeat("a*b", 600) + ")*"
	p, err := rxconv.FromRegexp(re, syntax.Perl)
	check(err == nil, "%v", err)
	in := strings.Repeat("aab", 1800)
	ok, n, _ := run(p, in)
	check(ok && n == len(in), "%v %d", ok, n)''',extra=['rxconv'],stdlib=['regexp/syntax'])),
dict(id='backref-long',prop='C07',edits=[('isa/checker.go','''		buf := make([]byte, len(back))
		n, _ := src.ReadAt(buf, int64(src.Pos()))''','''		buf := make([]byte, len(back))
		if len(buf) > 1<<16 {
			// compare long texts by their ends
			buf, back = buf[:1<<16], back[:1<<16]
		}
		n, _ := src.ReadAt(buf, int64(src.Pos()))''')],
 needs='a remembered text of more than 65536 bytes',
 breaks='only its first 65536 bytes are compared and consumed',
 demo=D('''	p := Concat(CheckFlags(Star(Literal("x")), isa.NewBackRef(), 1, int(isa.RefDef)), Literal(";"), CheckFlags(&EmptyNode{}, isa.NewBackRef(), 1, int(isa.RefUse)))
	br := isa.NewBackRef()
	p = Concat(CheckFlags(Star(Literal("x")), br, 1, int(isa.RefDef)), Literal(";"), CheckFlags(&EmptyNode{}, br, 1, int(isa.RefUse)))
	d := strings.Repeat("x", 100000)
	ok, n, _ := run(p, d+";"+d)
	check(ok && n == 200001, "%v %d", ok, n)
	ok, _, _ = run(p, d+";"+d[1:])
	check(!ok, "short text accepted")''',extra=['isa'])),
dict(id='peek-furthest-window',prop='C16',edits=[('input/input.go','''	if pos > i.furthest {
		i.furthest = pos
	}

	return i.chunk[i.coff], i.nchunk != 0''','''	if uint32(pos) > uint32(i.furthest)&0xffffff {
		i.furthest = pos
	}

	return i.chunk[i.coff], i.nchunk != 0''')],
 needs='a document of more than 16 MB that is read to the end and then again from an earlier place',
 breaks='the furthest position goes back',
 demo=D('''	in := input.NewInput(strings.NewReader(strings.Repeat("x", 17<<20)))
	in.SeekTo(17<<20 - 5)
	in.Peek()
	in.SeekTo(2 << 20)
	in.Peek()
	check(in.Furthest() == 17<<20-5, "%d", in.Furthest())''',extra=['input'])),
]
