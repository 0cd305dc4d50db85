from b1 import D,PRE
LR=['input/linerope']
BUGS=[
dict(id='overlaps-strict',prop='C10',edits=[('memo/interval/lazylog/interval.go','return i1.Low() <= high &&','return i1.Low() < high &&')],
 needs='a memoized pattern that begins with an assertion about the byte before it, and an edit that changes just that byte',
 breaks='a result that depends on the byte before it survives an edit of that byte',
 demo=D('''	p := Star(Or(Memo(Cap(Concat(EmptyOp(syntax.EmptyWordBoundary), Literal("bb")), 1)), Any(1)))
	code := vm.Encode(MustCompile(p))
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader("a bb"), tbl)
	tbl.ApplyEdit(memo.Edit{Start: 1, End: 2, Len: 0})
	_, _, c, _ := code.Exec(strings.NewReader("abb"), tbl)
	check(c.NumChildren() == 0, "captures %d", c.NumChildren())''',stdlib=['regexp/syntax'])),
dict(id='peekbefore-global',prop='C27',race=True,edits=[('input/input.go','''	n, _ := i.r.ReadAt(i.b[:], int64(i.base+i.coff-1))
	return i.b[0], n == 1''','''	n, _ := i.r.ReadAt(before[:], int64(i.base+i.coff-1))
	return before[0], n == 1'''),('input/input.go','''const bufsz = 4096
''','''const bufsz = 4096

// room for the byte before the cache
var before [1]byte
''')],
 needs='two parses at once that both look at the byte before the position while it is the first of the cache, for instance at the end of the input',
 breaks='the parses share the buffer for that byte',
 demo=D('''	code := vm.Encode(MustCompile(Concat(Literal("ab"), EmptyOp(syntax.EmptyWordBoundary))))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 200; j++ {
				ok, _, _, _ := code.Exec(strings.NewReader("ab"), memo.NoneTable{})
				check(ok, "no match")
			}
		}()
	}
	wg.Wait()''',stdlib=['regexp/syntax','sync'])),
dict(id='reader-want-blen',prop='C17',edits=[('input/reader.go','''	for int64(len(r.buf))-off < blen {''','''	for int64(len(r.buf)) < blen {''')],
 needs='a stream read at an offset beyond what has been received',
 breaks='the read returns nothing although the stream has more',
 demo=D('''	s := strings.Repeat("a", 5000)
	r := input.FromReader(strings.NewReader(s))
	b := make([]byte, 10)
	r.ReadAt(b, 0)
	n, err := r.ReadAt(b, 4990)
	check(n == 10 && err == nil, "%d %v", n, err)
	n, err = r.ReadAt(make([]byte, 4096), 4096)
	check(n == 904 && err != nil, "%d %v", n, err)''',extra=['input'])),
dict(id='check-flag-unsigned',prop='C07',edits=[('vm/vm.go','count: int(flag),','count: int(uint16(flag)),')],
 needs='a check with a negative flag',
 breaks='the checker is given another flag',
 demo=D('''	got := 0
	p := CheckFlags(Literal("a"), chk{&got}, 3, -2)
	run(p, "a")
	check(got == -2, "flag %d", got)''',extra=['input'])+'''
type chk struct{ p *int }

func (c chk) Check(b []byte, src *input.Input, id, flag int) int { *c.p = flag; return 0 }
'''),
dict(id='capture-id-unsigned',prop='C02',edits=[('vm/vm.go','capt := memo.NewCaptureNode(int(id), pos-back, back, nil)','capt := memo.NewCaptureNode(int(uint16(id)), pos-back, back, nil)')],
 needs='a capture of fixed width with a negative id',
 breaks='the capture has another id',
 demo=D('''	_, _, c := run(Cap(Literal("a"), -3), "a")
	check(c.Child(0).Id() == -3, "id %d", c.Child(0).Id())''')),
dict(id='table-threshold-le',prop='C14',edits=[('memo/tree.go','if examined < t.threshold || length == 0','if examined <= t.threshold || length == 0')],
 needs='a result that examined exactly as many bytes as the threshold',
 breaks='a result at the threshold is not stored',
 demo=D('''	t := memo.NewTreeTable(4)
	t.Put(1, 0, 3, 4, 1, nil)
	_, ok := t.Get(1, 0)
	check(ok, "not found")''')),
dict(id='rope-value-cache',prop='C29',race=True,edits=[('input/linerope/rope.go','''	default: // case tNode
		return concat(n.left.Value(), n.right.Value())''','''	default: // case tNode
		if n.value == nil {
			n.value = concat(n.left.Value(), n.right.Value())
		}
		return n.value'''),('input/linerope/rope.go','''// Remove deletes the range [start:end) (exclusive bound) from the rope.
func (n *Node) Remove(start, end int) {
	switch n.kind {''','''// Remove deletes the range [start:end) (exclusive bound) from the rope.
func (n *Node) Remove(start, end int) {
	if n.kind == tNode {
		n.value = nil
	}
	switch n.kind {'''),('input/linerope/rope.go','''func (n *Node) Insert(pos int, value []byte) {
	switch n.kind {''','''func (n *Node) Insert(pos int, value []byte) {
	if n.kind == tNode {
		n.value = nil
	}
	switch n.kind {''')],
 needs='two goroutines that ask for the value of a rope of several leaves',
 breaks='reading a rope writes to it',
 demo=D('''	r := linerope.New([]byte(strings.Repeat("ab\\n", 10000)))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			check(len(r.Value()) == 30000, "length")
		}()
	}
	wg.Wait()''',extra=LR,stdlib=['sync'])),
dict(id='json-errors-drop',prop='C20',edits=[('vm/code.go','''	Errors []string
''','''	Errors []string `json:"-"`
''')],
 needs='the JSON form of a parser that has error messages, and an input that reaches one',
 breaks='the loaded parser has no messages',
 demo=D('''	defer func() { check(recover() == nil, "panic") }()
	code := vm.Encode(MustCompile(Or(Literal("a"), Error("no", nil))))
	b, _ := code.ToJson()
	c2, err := vm.FromJson(b)
	check(err == nil, "%v", err)
	_, _, _, errs := c2.Exec(strings.NewReader("b"), memo.NoneTable{})
	check(len(errs) == 1 && errs[0].Message == "no", "%v", errs)''')),
dict(id='rx-alt-commit',prop='C24',edits=[('rxconv/rxconv.go','''			alts = append(alts, pi(s, k))
		}
		return p.Or(alts...)''','''			alts = append(alts, pi(s, &p.EmptyNode{}))
		}
		return p.Concat(p.Or(alts...), k)''')],
 needs='an alternation whose first matching alternative makes the rest of the expression fail while a later one does not',
 breaks='the expression does not match although Go\'s does',
 demo=D('''	p, err := rxconv.FromRegexp("(?:a|ab)c", 0)
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "abc")
	check(ok && n == 3, "%v %d", ok, n)''',extra=['rxconv'])),
dict(id='not-literal-literal',prop='C01',edits=[('pattern/optimize.go','''				return &ClassNode{
					Chars: charset.New([]byte{rt.Str[0]}).Sub(set),
				}''','''				return rt''')],
 needs='a not-predicate of a byte set in front of a literal byte that is in the set',
 breaks='the predicate is dropped',
 demo=D('''	ok, _, _ := run(Concat(Not(Set(charset.Range('a', 'c'))), Literal("b")), "b")
	check(!ok, "match")''')),
dict(id='entry-length-i16',prop='C09',edits=[('memo/entry.go','	length   int\n','	length   int16\n'),('memo/entry.go','	return e.length\n','	return int(e.length)\n'),('memo/tree.go','		length:   length,\n','		length:   int16(length),\n')],
 needs='a memoized result of more than 32767 bytes that is used again',
 breaks='the result comes back with another length',
 demo=D('''	defer func() { check(recover() == nil, "panic") }()
	code := vm.Encode(MustCompile(Memo(Star(Literal("ab")))))
	s := strings.Repeat("ab", 20000)
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader(s), tbl)
	ok, n, _, _ := code.Exec(strings.NewReader(s), tbl)
	check(ok && n == 40000, "%v %d", ok, n)''')),
dict(id='capture-length-u16',prop='C02',edits=[('memo/capture.go','''	off      int
	length   int
''','''	off      int
	length   uint16
'''),('memo/capture.go','''		typ:      tNode,
		off:      start,
		length:   length,''','''		typ:      tNode,
		off:      start,
		length:   uint16(length),'''),('memo/capture.go','''		typ:      tDummy,
		off:      start,
		length:   length,''','''		typ:      tDummy,
		off:      start,
		length:   uint16(length),'''),('memo/capture.go','	return c.length\n','	return int(c.length)\n'),('memo/capture.go','	return c.Start() + c.length\n','	return c.Start() + int(c.length)\n')],
 needs='a capture of more than 65535 bytes',
 breaks='the capture ends elsewhere',
 demo=D('''	s := strings.Repeat("ab", 40000)
	_, _, c := run(Cap(Star(Literal("ab")), 1), s)
	check(c.Child(0).End() == 80000, "end %d", c.Child(0).End())''')),
dict(id='ret-addr-u16',prop='C26',edits=[('vm/stack.go','type stackRet int\n','type stackRet uint16\n')],
 needs='a program of more than 64 KiB that calls a rule from beyond the first 64 KiB',
 breaks='the call returns somewhere else',
 demo=D('''	defer func() { check(recover() == nil, "panic") }()
	n := 40000
	p := Grammar("S", map[string]Pattern{
		"S": Concat(Literal(strings.Repeat("a", n)), NonTerm("R"), Literal("c")),
		"R": Or(Concat(Literal("("), NonTerm("R"), Literal(")")), Literal("b")),
	})
	ok, k, _ := run(p, strings.Repeat("a", n)+"((b))c")
	check(ok && k == n+6, "%v %d", ok, k)''')),
dict(id='grammar-start-late',prop='C23',edits=[('pattern/compile.go','''	if _, ok := p.Defs[p.Start]; !ok {
		return nil, &NotFoundError{''','''	if _, ok := p.Defs[p.Start]; !ok && len(p.Defs) > 0 {
		return nil, &NotFoundError{''')],
 needs='a grammar without any definitions',
 breaks='compiling it panics',
 demo=D('''	defer func() { check(recover() == nil, "panic") }()
	_, err := Compile(Grammar("S", map[string]Pattern{}))
	check(err != nil, "no error")''')),
dict(id='rope-remove-inc',prop='C19',edits=[('input/linerope/rope.go','''		n.value = remove(n.value, start, end)
		n.length = len(n.value)
		n.llength = llen(n.value, n.opts.LineSep)''','''		lines := llen(n.value[start:end], n.opts.LineSep).line
		last := end > n.length-n.llength.col
		n.value = remove(n.value, start, end)
		n.length = len(n.value)
		if lines == 0 && !last && len(n.opts.LineSep) > 1 {
			// the number of lines and the last one stay as they are
		} else {
			n.llength = llen(n.value, n.opts.LineSep)
		}''')],
 needs='a separator of two bytes, and a removal that takes part of one away or makes one',
 breaks='the number of lines is out of date',
 demo=D('''	o := linerope.Options{SplitLen: 100, JoinLen: 50, RebalanceRatio: 1.2, LineSep: []byte("\\r\\n")}
	r := linerope.NewWithOpts([]byte("ab\\r\\ncd\\r\\nef"), o)
	r.Remove(3, 4)
	check(r.NumLines() == 1, "lines %d", r.NumLines())''',extra=LR)),
]
