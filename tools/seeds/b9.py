from b1 import D,PRE
CNT='''	gets := 0
	evals := 0
	_, _ = gets, evals
'''
BUGS=[
dict(id='tree-merge-equal',prop='C30',edits=[('vm/vm.go','''				if accum < next.memo.count {
					continue
				}
''','''				if accum != next.memo.count {
					continue
				}
''')],
 needs='a long repetition of memoized items, and many edits at different places',
 breaks='runs of different sizes are no longer joined, so that the number of look-ups grows with the number of edits',
 demo=D('''	code := vm.Encode(MustCompile(Star(Memo(Concat(Star(Set(charset.Range('a', 'z'))), Literal(";"))))))
	s := strings.Repeat("ab;", 4096)
	tbl := &table{TreeTable: memo.NewTreeTable(0)}
	code.Exec(strings.NewReader(s), tbl)
	for k := 0; k < 300; k++ {
		at := k * 13 % 4096 * 3
		s = s[:at] + "ab;" + s[at:]
		tbl.ApplyEdit(memo.Edit{Start: at, End: at, Len: 3})
		tbl.gets = 0
		code.Exec(strings.NewReader(s), tbl)
		check(tbl.gets < 150, "%d look-ups after edit %d", tbl.gets, k)
	}''')+'''
type table struct {
	*memo.TreeTable
	gets int
}

func (t *table) Get(id, pos int) (*memo.Entry, bool) {
	t.gets++
	return t.TreeTable.Get(id, pos)
}
'''),
dict(id='memo-fail-here',prop='C30',edits=[('vm/vm.go','''		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)
''','''		if src.Pos() > ent.memo.pos {
			memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)
		}
''')],
 needs='a memoized pattern that fails after it looked ahead with a predicate, at a place that is tried twice',
 breaks='the failure is not remembered, and the pattern is evaluated again',
 demo=D('''	n := 0
	m := Memo(Concat(Check(And(Concat(Literal("a"), Literal("b"))), &counter{&n}), Literal("c")))
	code := vm.Encode(MustCompile(Or(Concat(m, Literal("x")), Concat(m, Literal("y")), Literal("ab"))))
	ok, _, _, _ := code.Exec(strings.NewReader("ab"), memo.NewTreeTable(0))
	check(ok && n == 1, "%v, evaluated %d times", ok, n)''',extra=['input'])+'''
type counter struct{ n *int }

func (c *counter) Check(b []byte, src *input.Input, id, flag int) int {
	*c.n++
	return 0
}
'''),
dict(id='edit-insert-wide',prop='C30',edits=[('memo/tree.go','''	if low == high {
		high = low + 1
	}
	amt := e.Len - (e.End - e.Start)
''','''	amt := e.Len - (e.End - e.Start)
	if low == high {
		high = low + amt
	}
''')],
 needs='an insertion of several bytes before results that start within as many bytes',
 breaks='results behind the insertion that it does not touch are dropped',
 demo=D('''	n := 0
	item := func() Pattern { return Memo(Concat(Check(Literal(""), &counter{&n}), Literal("a"), Literal(";"))) }
	code := vm.Encode(MustCompile(Concat(Star(Literal("-")), Star(Or(item(), Literal(" "))))))
	s := strings.Repeat("a;", 50)
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader(s), tbl)
	s = strings.Repeat("-", 60) + s
	tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 60})
	n = 0
	ok, k, _, _ := code.Exec(strings.NewReader(s), tbl)
	check(ok && k == len(s) && n <= 3, "%v %d, %d items evaluated", ok, k, n)''',extra=['input'])+'''
type counter struct{ n *int }

func (c *counter) Check(b []byte, src *input.Input, id, flag int) int {
	*c.n++
	return 0
}
'''),
dict(id='table-one-per-place',prop='C30',edits=[('memo/tree.go','''	t.lock.Lock()
	e.setPos(t.Map.Add(id, start, start+examined, e))
	t.lock.Unlock()
''','''	t.lock.Lock()
	defer t.lock.Unlock()
	if old, ok := t.Map.FindLargest(id, start).(*Entry); ok && old.count > count {
		// there is a result for more items already
		return
	}
	e.setPos(t.Map.Add(id, start, start+examined, e))
''')],
 needs='an edit after a run of items of a repetition, whose first item is evaluated again',
 breaks='placeholder',
 demo=D('''	check(true, "x")''')),
dict(id='repeat-memo-small',prop='C30',edits=[('pattern/compile.go','''	L1 := isa.NewLabel()
	sub, err := Get(p.Patt).Compile()
	code := make(isa.Program, 0, len(sub)+3)
	code = append(code, isa.MemoOpen{Lbl: L1, Id: p.Id})
''','''	L1 := isa.NewLabel()
	sub, err := Get(p.Patt).Compile()
	if len(sub) <= 2 && !hasCalls(sub) {
		// looking such a result up costs as much as working it out
		return sub, err
	}
	code := make(isa.Program, 0, len(sub)+3)
	code = append(code, isa.MemoOpen{Lbl: L1, Id: p.Id})
'''),('pattern/compile.go','''// Compile this node.
func (p *CheckNode) Compile''','''// hasCalls returns true if the program calls non-terminals.
func hasCalls(p isa.Program) bool {
	for _, insn := range p {
		if _, ok := insn.(openCall); ok {
			return true
		}
	}
	return false
}

// Compile this node.
func (p *CheckNode) Compile''')],
 needs='a memoized pattern of one or two instructions that takes long, such as the span of a set over a long text',
 breaks='its result is not remembered',
 demo=D('''	code := vm.Encode(MustCompile(Concat(Memo(Star(Set(charset.Range('a', 'z')))), Literal("."))))
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader(strings.Repeat("ab", 100)+"."), tbl)
	check(tbl.Size() == 1, "%d results", tbl.Size())''')),
]
BUGS=[b for b in BUGS if b['breaks']!='placeholder']
