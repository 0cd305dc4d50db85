from b1 import D,PRE
BUGS=[
dict(id='tobytes-shared-buffer',prop='C20',edits=[('vm/code.go','''	var buf bytes.Buffer
	fz := gzip.NewWriter(&buf)
''','''	bufLock.Lock()
	defer bufLock.Unlock()
	buf.Reset()
	fz := gzip.NewWriter(&buf)
'''),('vm/code.go','''// ToBytes serializes''','''// saving a parser reuses the memory of the last time
var (
	buf     bytes.Buffer
	bufLock sync.Mutex
)

// ToBytes serializes'''),('vm/code.go','''	"reflect"
''','''	"reflect"
	"sync"
''')],
 needs='two parsers saved one after the other, the first one loaded after that',
 breaks='the bytes of the first are overwritten by those of the second',
 demo=D('''	c1 := vm.Encode(MustCompile(Literal("hello")))
	c2 := vm.Encode(MustCompile(Literal("world")))
	b1, _ := c1.ToBytes()
	c2.ToBytes()
	l, err := vm.FromBytes(b1)
	check(err == nil, "%v", err)
	ok, n, _, _ := l.Exec(strings.NewReader("hello"), memo.NoneTable{})
	check(ok && n == 5, "%v %d", ok, n)''')),
dict(id='or-many-literals',prop='C01',edits=[('pattern/pattern.go','''	// optimization: make or right associative
''','''	// optimization: try long literals first, they are the least likely to be
	// worth backtracking to
	if len(patts) > 8 {
		words := true
		for _, p := range patts {
			if _, ok := p.(*LiteralNode); !ok {
				words = false
			}
		}
		if words {
			patts = append([]Pattern{}, patts...)
			sort.SliceStable(patts, func(i, j int) bool {
				return len(patts[i].(*LiteralNode).Str) > len(patts[j].(*LiteralNode).Str)
			})
		}
	}

	// optimization: make or right associative
'''),('pattern/pattern.go','''	"regexp/syntax"
''','''	"regexp/syntax"
	"sort"
''')],
 needs='a choice of nine or more literals, one of which is a prefix of a later one',
 breaks='the later, longer one is tried first',
 demo=D('''	var k []Pattern
	for _, w := range strings.Fields("q w in int e r t y u i") {
		k = append(k, Literal(w))
	}
	ok, n, _ := run(Or(k...), "int")
	check(ok && n == 2, "%v %d", ok, n)''')),
dict(id='setment-depth',prop='C10',edits=[('memo/entry.go','''		e.captures[i].setMEnt(e)
''','''		e.captures[i].setMEnt(e, 0)
'''),('memo/capture.go','''func (c *Capture) setMEnt(e *Entry) {
	if c.ment != nil {
		return
	}
''','''func (c *Capture) setMEnt(e *Entry, depth int) {
	if c.ment != nil || depth > 64 {
		return
	}
'''),('memo/capture.go','''		c.setMEnt(e)
''','''		c.setMEnt(e, depth+1)
''')],
 needs='captures nested more than 64 deep within one memoized result, which is moved by an edit before it',
 breaks='the innermost captures stay where they were',
 demo=D('''	p := Cap(Literal("a"), 100)
	for i := 0; i < 80; i++ {
		p = Cap(Concat(p, Optional(Literal("!"))), i)
	}
	code := vm.Encode(MustCompile(Concat(Star(Literal("x")), Memo(p))))
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader("xxxa"), tbl)
	tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 2})
	_, _, c, _ := code.Exec(strings.NewReader("xxxxxa"), tbl)
	for c.NumChildren() > 0 {
		c = c.Child(0)
	}
	check(c.Start() == 5, "%d", c.Start())''')),
dict(id='rope-value-stack',prop='C18',edits=[('input/linerope/rope.go','''	default: // case tNode
		return concat(n.left.Value(), n.right.Value())
	}
}

// Remove''','''	default: // case tNode
		// one pass over the leaves instead of copying at every level
		var stack [48]*Node
		val := make([]byte, 0, n.length)
		sp := 0
		stack[0] = n
		for sp >= 0 {
			it := stack[sp]
			sp--
			for it.kind == tNode {
				if sp < len(stack)-1 {
					sp++
				}
				stack[sp] = it.right
				it = it.left
			}
			val = append(val, it.value...)
		}
		return val
	}
}

// Remove''')],
 needs='a rope more than 48 levels deep on its left side, from many joins or appends',
 breaks='parts of the text are missing from its value',
 demo=D('''	o := linerope.Options{SplitLen: 8, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte("\\n")}
	r := linerope.NewWithOpts([]byte("start---"), o)
	want := "start---"
	for i := 0; i < 100; i++ {
		s := fmt.Sprintf("%08d", i)
		r = linerope.Join(r, linerope.NewWithOpts([]byte(s), o))
		want += s
	}
	check(string(r.Value()) == want, "%d bytes of %d", len(r.Value()), len(want))''',extra=["input/linerope"])),
dict(id='capgrammar-ids-byte',prop='C02',edits=[('pattern/pattern.go','''		m[k] = Cap(v, id)
		ids[k] = id
''','''		m[k] = Cap(v, id&0xff)
		ids[k] = id
''')],
 needs='a capturing grammar of more than 256 rules',
 breaks='rules are captured under the ids of others',
 demo=D('''	g := map[string]Pattern{"S": Optional(Literal("zz"))}
	var k []Pattern
	for i := 0; i < 300; i++ {
		n := fmt.Sprintf("R%d", i)
		g[n] = Literal(fmt.Sprintf("%03d", i))
		k = append(k, NonTerm(n))
	}
	g["S"] = Concat(k...)
	ids := map[string]int{}
	p := CapGrammar("S", g, ids)
	doc := ""
	for i := 0; i < 300; i++ {
		doc += fmt.Sprintf("%03d", i)
	}
	ok, _, c := run(p, doc)
	check(ok, "no match")
	s := c.Child(0)
	check(s.Id() == ids["S"], "S")
	for i := 0; i < 300; i++ {
		check(s.Child(i).Id() == ids[fmt.Sprintf("R%d", i)], "rule %d", i)
	}''')),
dict(id='interval-inclusive-overflow',prop='C12',edits=[('vm/vm.go','''	return i.Low < high2 && i.High > low2
''','''	return i.Low <= high2-1 && i.High+1 > low2+1
''')],
 needs='an interval whose end is the largest integer',
 breaks='the comparison overflows and there are no captures',
 demo=D('''	code := vm.Encode(MustCompile(Star(Cap(Literal("a"), 1))))
	_, _, c, _ := code.ExecInterval(strings.NewReader("aaa"), memo.NoneTable{}, &vm.Interval{Low: 1, High: int(^uint(0) >> 1)})
	check(c.NumChildren() == 2, "%d", c.NumChildren())''')),
dict(id='lazy-rotate-parent',prop='C13',edits=[('memo/interval/lazy/tree.go','''	n.right = newRoot.left
	if newRoot.left != nil {
		newRoot.left.parent = n
	}
''','''	n.right = newRoot.left
''')],
 needs='a rotation that moves a subtree, a shift, and asking the handle of a value in it',
 breaks='the handle does not find the shifts that wait above it',
 demo=PRE%'\t"github.com/zyedidia/gpeg/memo/interval"\n\t"github.com/zyedidia/gpeg/memo/interval/lazy"\n'.replace('"strings"','')+'''
var _ = strings.Repeat

func main() {
	for n := 4; n < 40; n++ {
		var t lazy.Tree
		var hs []interval.Pos
		for i := 0; i < n; i++ {
			hs = append(hs, t.Add(1, 10*i, 10*i+1, i))
		}
		t.RemoveAndShift(5, 6, 100)
		for i := 1; i < n; i++ {
			check(hs[i].Pos() == 10*i+100, "%d of %d: %d", i, n, hs[i].Pos())
		}
	}
}
'''),
dict(id='check-nested-slice',prop='C07',edits=[('vm/vm.go','''			n := checker.Check(src.Slice(int(ent.memo.pos), src.Pos()), src, id, flag)
''','''			text := src.Slice(int(ent.memo.pos), src.Pos())
			if len(text) > 1<<15 {
				// long texts are not worth keeping twice
				text = text[:1<<15]
			}
			n := checker.Check(text, src, id, flag)
''')],
 needs='a checked match of more than 32768 bytes',
 breaks='the checker gets only its first part',
 demo=D('''	w := strings.Repeat("ab", 20000)
	ok, n, _ := run(Check(Star(Any(1)), isa.NewMapChecker([]string{w})), w)
	check(ok && n == 40000, "%v %d", ok, n)''',extra=["isa"])),
dict(id='table-put-same-pos',prop='C14',edits=[('memo/tree.go','''	e.setPos(t.Map.Add(id, start, start+examined, e))
''','''	if id < 0 || id > 1<<14 {
		id &= 1<<14 - 1
	}
	e.setPos(t.Map.Add(id, start, start+examined, e))
'''),('memo/tree.go','''	t.lock.Lock()
	entry := t.Map''','''	if id < 0 || id > 1<<14 {
		id &= 1<<14 - 1
	}
	t.lock.Lock()
	entry := t.Map''')],
 needs='results of two ids at one place that are equal modulo 16384',
 breaks='one is returned for the other',
 demo=D('''	tbl := memo.NewTreeTable(0)
	tbl.Put(20000, 5, 3, 3, 1, nil)
	_, ok := tbl.Get(20000-1<<14, 5)
	check(!ok, "found under another id")''')),
dict(id='edit-coalesce',prop='C10',edits=[('memo/tree.go','''	t.lock.Lock()
	t.Map.RemoveAndShift(low, high, amt)
	t.lock.Unlock()
''','''	t.lock.Lock()
	defer t.lock.Unlock()
	// typing: an insertion right behind the last one only moves what the
	// last one has moved
	if e.Start == e.End && t.typed > 8 && e.Start == t.last {
		t.Map.RemoveAndShift(low, low, amt)
	} else {
		t.Map.RemoveAndShift(low, high, amt)
	}
	if e.Start == e.End && (e.Start == t.last || t.typed == 0) {
		t.typed++
		t.last = e.Start + e.Len
	} else {
		t.typed = 0
	}
'''),('memo/tree.go','''	threshold int
''','''	threshold int
	last      int // where the last of several insertions in a row ended
	typed     int // how many there were
''')],
 needs='more than eight insertions in a row, each behind the last',
 breaks='nothing perhaps: the result right behind the insertion is kept if it is not touched',
 demo=D('''	code := vm.Encode(MustCompile(Star(Memo(Cap(Or(Concat(Literal("x"), Not(Literal("y"))), Any(1)), 1)))))
	_ = code
	tbl := memo.NewTreeTable(0)
	for i := 0; i < 12; i++ {
		tbl.ApplyEdit(memo.Edit{Start: i, End: i, Len: 1})
	}
	tbl.Put(1, 13, 2, 2, 1, nil)
	tbl.ApplyEdit(memo.Edit{Start: 12, End: 12, Len: 1})
	_, ok := tbl.Get(1, 14)
	_, ok2 := tbl.Get(1, 13)
	check(!ok && !ok2, "%v %v", ok, ok2)''')),
dict(id='charset-string-wide',prop='C25',edits=[]),
dict(id='error-repeat-pos',prop='C06',edits=[('vm/vm.go','''			errs = append(errs, ParseError{
				Pos:     src.Pos(),
				Message: msg,
			})
''','''			if n := len(errs); n < 2 || errs[n-1].Pos != src.Pos() || errs[n-2].Pos != src.Pos() || errs[n-1].Message != msg || errs[n-2].Message != msg {
				errs = append(errs, ParseError{
					Pos:     src.Pos(),
					Message: msg,
				})
			}
''')],
 needs='the same error at the same position three times in a row',
 breaks='only two are reported',
 demo=D('''	e := Error("e", &EmptyNode{})
	code := vm.Encode(MustCompile(Concat(e, e, e)))
	_, _, _, errs := code.Exec(strings.NewReader(""), memo.NoneTable{})
	check(len(errs) == 3, "%d", len(errs))''')),
dict(id='read-after-error',prop='C17',edits=[('input/reader.go','''	for int64(len(r.buf))-off < blen {
''','''	for int64(len(r.buf))-off < blen && !r.done {
'''),('input/reader.go','''		if err != nil {
			break
		}
''','''		if err != nil {
			r.done = true
			break
		}
'''),('input/reader.go','''	lock   sync.Mutex
''','''	lock   sync.Mutex
	done   bool // there is no more to read
''')],
 needs='a read past the end of the stream after another one',
 breaks='it returns fewer bytes than asked for and no error',
 demo=D('''	r := input.FromReader(strings.NewReader("abc"))
	b := make([]byte, 10)
	n, err := r.ReadAt(b, 0)
	check(n == 3 && err != nil, "%d %v", n, err)
	n, err = r.ReadAt(b, 1)
	check(n == 2 && err != nil, "%d %v", n, err)''',extra=["input"])),
]
BUGS=[b for b in BUGS if b['edits'] and b['demo']]
