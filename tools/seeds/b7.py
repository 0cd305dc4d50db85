from b1 import D,PRE
LR=['input/linerope']
BUGS=[
dict(id='interval-full-range',prop='C12',edits=[('vm/vm.go','''				caprange.Low = min(caprange.Low, pos-back)
				caprange.High = max(caprange.High, pos)
				capt := memo.NewCaptureNode(int(id), pos-back, back, nil)''','''				caprange.Low = min(caprange.Low, pos-back)
				capt := memo.NewCaptureNode(int(id), pos-back, back, nil)''')],
 needs='an interval whose end lies inside the last capture that overlaps it, where that capture has a fixed width',
 breaks='the returned root does not cover the last capture',
 demo=D('''	code := vm.Encode(MustCompile(Star(Cap(Literal("abc"), 1))))
	_, _, c, _ := code.ExecInterval(strings.NewReader("abcabcabc"), memo.NewTreeTable(0), &vm.Interval{Low: 4, High: 7})
	check(c.NumChildren() == 2, "children %d", c.NumChildren())
	check(c.Start() == 3 && c.End() == 9, "root [%d,%d)", c.Start(), c.End())''')),
dict(id='interval-empty-all',prop='C12',edits=[('vm/vm.go','''	if i == nil {
		return true
	}
	return i.Low''','''	if i == nil || i.Low == i.High {
		// no interval
		return true
	}
	return i.Low''')],
 needs='an empty interval',
 breaks='all captures are returned instead of those around the position',
 demo=D('''	code := vm.Encode(MustCompile(Star(Cap(Literal("abc"), 1))))
	_, _, c, _ := code.ExecInterval(strings.NewReader("abcabcabc"), memo.NewTreeTable(0), &vm.Interval{Low: 4, High: 4})
	check(c.NumChildren() == 1, "children %d", c.NumChildren())''')),
dict(id='interval-grows',prop='C12',edits=[('vm/vm.go','''				caprange.Low = min(caprange.Low, ent.memo.pos)
				caprange.High = max(caprange.High, end)
''','''				caprange.Low = min(caprange.Low, ent.memo.pos)
				caprange.High = max(caprange.High, end)
				if intrvl != nil && len(ent.capt) > 0 {
					// keep what the children need
					intrvl = &caprange
				}
''')],
 needs='a capture with children that ends beyond the interval, followed by captures within its reach that are not part of the interval',
 breaks='later captures are filtered by the widened range',
 demo=D('''	word := Cap(Concat(Literal("("), Star(Or(Cap(Literal("a"), 2), Literal("b"))), Literal(")")), 1)
	code := vm.Encode(MustCompile(Concat(And(word), Star(Or(Cap(Literal("b"), 3), Any(1))))))
	_, _, c, _ := code.ExecInterval(strings.NewReader("(abbb)"), memo.NewTreeTable(0), &vm.Interval{Low: 1, High: 3})
	n := 0
	it := c.ChildIterator(0)
	for ch := it(); ch != nil; ch = it() {
		if ch.Id() == 3 {
			n++
		}
	}
	check(n == 1, "captures %d", n)''')),
dict(id='interval-empty-noedit',prop='C12',edits=[('vm/vm.go','''		caprange = *intrvl
''','''		caprange = *intrvl
		if intrvl.Low == intrvl.High {
			// nothing can be captured
			return vm.exec(ip, st, src, memtbl, nil)
		}
''')],
 needs='an empty interval',
 breaks='an empty interval is parsed without restriction',
 demo=D('''	code := vm.Encode(MustCompile(Star(Cap(Literal("abc"), 1))))
	_, _, c, _ := code.ExecInterval(strings.NewReader("abcabcabc"), memo.NewTreeTable(0), &vm.Interval{Low: 3, High: 3})
	check(c.NumChildren() == 0, "children %d", c.NumChildren())''')),
dict(id='table-size-nodes',prop='C14',edits=[('memo/interval/lazylog/tree.go','''	return n.left.size() + n.right.size() + len(n.interval.ins)''','''	return n.left.size() + n.right.size() + 1''')],
 needs='two results stored under one id and position',
 breaks='the size disagrees with the enumeration',
 demo=D('''	t := memo.NewTreeTable(0)
	t.Put(1, 0, 2, 2, 1, nil)
	t.Put(1, 0, 4, 4, 2, nil)
	check(t.Size() == len(t.AllValues()), "size %d, values %d", t.Size(), len(t.AllValues()))''')),
dict(id='allvals-largest',prop='C14',edits=[('memo/interval/lazylog/tree.go','''	for _, in := range n.interval.ins {
		vals = append(vals, in.value)
	}
''','''	var largest *interval
	for i := range n.interval.ins {
		if in := &n.interval.ins[i]; largest == nil || in.length() > largest.length() {
			largest = in
		}
	}
	if largest != nil {
		vals = append(vals, largest.value)
	}
''')],
 needs='two results stored under one id and position',
 breaks='the enumeration leaves out the shorter results that the size counts',
 demo=D('''	t := memo.NewTreeTable(0)
	t.Put(1, 0, 2, 2, 1, nil)
	t.Put(1, 0, 4, 4, 2, nil)
	check(t.Size() == len(t.AllValues()), "size %d, values %d", t.Size(), len(t.AllValues()))''')),
dict(id='child-fast-path',prop='C15',edits=[('memo/capture.go','''func (c *Capture) Child(n int) *Capture {
''','''func (c *Capture) Child(n int) *Capture {
	if n == len(c.children)-1 && !c.children[n].Dummy() {
		return c.children[n]
	}
''')],
 needs='a node with a grouping node of two or more captures before its last child',
 breaks='indexing returns the last child although that index belongs to an earlier one',
 demo=D('''	leaf := func(i int) *memo.Capture { return memo.NewCaptureNode(i, i, 1, nil) }
	g := memo.NewCaptureDummy(0, 3, []*memo.Capture{leaf(0), leaf(1), leaf(2)})
	root := memo.NewCaptureNode(9, 0, 4, []*memo.Capture{g, leaf(3)})
	for i := 0; i < 4; i++ {
		check(root.Child(i) != nil && root.Child(i).Id() == i, "child %d", i)
	}''')),
dict(id='capture-start-cached',prop='C10',edits=[('memo/capture.go','''	ment     *Entry
''','''	ment     *Entry
	size     int // number of shifts when abs was computed
	abs      int
'''),('memo/capture.go','''	if c.ment != nil {
		return c.ment.Pos() + c.off
	}
	return c.off''','''	if c.ment != nil {
		if c.abs == 0 || len(c.children) > 0 {
			c.abs = c.ment.Pos() + c.off
		}
		return c.abs
	}
	return c.off''')],
 needs='a capture without children whose position is asked for, then moved by an edit, and asked for again after a reparse that reuses it',
 breaks='the capture keeps the position it had before the edit',
 demo=D('''	code := vm.Encode(MustCompile(Star(Memo(Cap(Literal("abc"), 1)))))
	t := memo.NewTreeTable(0)
	_, _, c, _ := code.Exec(strings.NewReader("abcabcabc"), t)
	for i := 0; i < 3; i++ {
		c.Child(i).Start()
	}
	t.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 3})
	_, _, c, _ = code.Exec(strings.NewReader("abcabcabcabc"), t)
	for i := 0; i < 4; i++ {
		check(c.Child(i).Start() == 3*i, "child %d at %d", i, c.Child(i).Start())
	}''')),
dict(id='charset-toggle',prop='C25',edits=[('charset/charset.go','''	for _, r := range chars {
		switch {
		case r < 64:
			bit := uint64(1) << r
			set.Bits[0] |= bit
''','''	for _, r := range chars {
		switch {
		case r < 64:
			bit := uint64(1) << r
			set.Bits[0] ^= bit
''')],
 needs='a set constructed from bytes that are not all different',
 breaks='a byte that is given twice is not in the set',
 demo=D('''	s := charset.New([]byte("+-+"))
	check(s.Has('+') && s.Has('-') && s.Size() == 2, "%v", s)''')),
dict(id='charset-issmall',prop='C25',edits=[('charset/charset.go','return c.Bits[2] == 0 && c.Bits[3] == 0','return c.Bits[2]|c.Bits[3]>>63 == 0')],
 needs='a set with bytes between 192 and 254 but none between 128 and 191 and not 255',
 breaks='the set claims to be small',
 demo=D('''	s := charset.New([]byte{'a', 200})
	check(!s.IsSmall(), "small")''')),
dict(id='rope-eachleaf-stop',prop='C18',edits=[('input/linerope/rope.go','''		return n.right.EachLeaf(fn)
''','''		n.right.EachLeaf(fn)
		return false
''')],
 needs='a rope with at least three leaves whose traversal is stopped (or whose writer fails) at a right child',
 breaks='the traversal goes on after it was stopped',
 demo=D('''	r := linerope.NewWithOpts([]byte("abcdefghijkl"), linerope.Options{SplitLen: 3, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte("\\n")})
	nleaves := 0
	r.EachLeaf(func(*linerope.Node) bool { nleaves++; return false })
	for k := 1; k <= nleaves; k++ {
		n := 0
		r.EachLeaf(func(*linerope.Node) bool { n++; return n == k })
		check(n == k, "stopped at %d, visited %d", k, n)
	}''',LR)),
dict(id='rope-writeto-count',prop='C18',edits=[('input/linerope/rope.go','''		ntotal += int64(nwritten)
		return err != nil''','''		ntotal += int64(it.Len())
		if err != nil {
			ntotal -= int64(it.Len() - nwritten)
		}
		return err != nil || nwritten == 0''')],
 needs='a rope with an empty leaf before other leaves (emptied by a removal)',
 breaks='the output stops at the empty leaf',
 demo=D('''	o := linerope.Options{SplitLen: 4, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte("\\n")}
	r := linerope.NewWithOpts([]byte("abcdefgh"), o)
	r.Remove(0, 4)
	var b strings.Builder
	n, err := r.WriteTo(&b)
	check(n == 4 && err == nil && b.String() == "efgh", "%d %v %q", n, err, b.String())''',LR)),
dict(id='exec-window-reuse',prop='C28',edits=[('vm/code.go','''type Code struct {
	data code
}''','''type Code struct {
	data code
	// the input of the last parse, so that its window can be used again
	last *input.Input
}'''),('vm/code.go','''	"github.com/zyedidia/gpeg/charset"
''','''	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
'''),('input/input.go','''func (i *Input) refill(pos int) {''','''// Of returns whether this is an input for r.
func (i *Input) Of(r io.ReaderAt) bool {
	return i != nil && i.r == r
}

func (i *Input) refill(pos int) {'''),('vm/vm.go','''	ip := 0
	st := newStack()
	src := input.NewInput(r)

	// parse''','''	ip := 0
	st := newStack()
	src := vm.last
	if src.Of(r) {
		src.SeekTo(0)
		src.ResetFurthest()
	} else {
		src = input.NewInput(r)
		vm.last = src
	}

	// parse''')],
 needs='two parses with one parser of one reader whose contents change in between, such as a rope that is edited',
 breaks='the second parse sees the old text',
 demo=D('''	code := vm.Encode(MustCompile(Literal("xyz")))
	r := linerope.New([]byte("yz"))
	ok, _, _, _ := code.Exec(r, memo.NoneTable{})
	check(!ok, "matched yz")
	r.Insert(0, []byte("x"))
	ok, _, _, _ = code.Exec(r, memo.NoneTable{})
	check(ok, "no match after the edit")''',LR)),
dict(id='lazylog-shift-batch',prop='C13',edits=[('memo/interval/lazylog/tree.go','const ShiftThreshold = -1','const ShiftThreshold = 256'),('memo/interval/lazylog/tree.go','''func (n *node) applyAllShifts() {
	if n == nil {
		return
	}
''','''func (n *node) applyAllShifts() {
	if n == nil {
		return
	}
	if n.max < n.tree.shifts[0].idx {
		// everything here is left of the shifts
		return
	}
''')],
 needs='256 shifts between lookups, the first of which lies right of an interval that a later one moves',
 breaks='subtrees left of the first pending shift never see the other pending shifts',
 demo=D('''	t := memo.NewTreeTable(0)
	for i := 0; i < 20; i++ {
		t.Put(1, 10*i, 3, 3, 1, nil)
	}
	pos := 10
	t.ApplyEdit(memo.Edit{Start: 195, End: 195, Len: 1})
	for i := 0; i < 300; i++ {
		t.ApplyEdit(memo.Edit{Start: 5, End: 5, Len: 1})
		pos++
	}
	_, ok := t.Get(1, pos)
	check(ok, "no entry at %d", pos)''')),
dict(id='search-opt-first',prop='C05',edits=[('pattern/compile.go','''			set = charset.New([]byte{t.Byte}).Complement()
			opt = true
''','''			set = charset.New([]byte{t.Byte}).Complement()
			opt = true
		case isa.TestCharNoChoice:
			set = charset.New([]byte{t.Byte}).Complement()
			opt = true
''')],
 needs='a search for a pattern that begins with an optional character, or a choice between different first characters, that is absent',
 breaks='the search skips matches that do not begin with that character',
 demo=D('''	ok, n, _ := run(Search(Concat(Optional(Literal("-")), Literal("1"))), "xx1x-1")
	check(ok && n == 3, "%v %d", ok, n)''')),
dict(id='backref-dedupe',prop='C07',edits=[('vm/code.go','''			args = encodeU24(addChecker(&code, t.Checker))''','''			for _, c := range code.data.Checkers {
				if reflect.DeepEqual(c, t.Checker) {
					t.Checker = c // the same
					break
				}
			}
			args = encodeU24(addChecker(&code, t.Checker))''')],
 needs='a pattern with two separate back-reference checkers that use the same id',
 breaks='the two share their symbols',
 demo=D('''	r1, r2 := isa.NewBackRef(), isa.NewBackRef()
	w := Plus(Set(charset.Range('a', 'z')))
	p := Concat(CheckFlags(w, r1, 0, int(isa.RefDef)), Literal(";"), CheckFlags(w, r2, 0, int(isa.RefDef)), Literal(";"),
		CheckFlags(Literal(""), r1, 0, int(isa.RefUse)))
	ok, n, _ := run(p, "ab;cd;ab")
	check(ok && n == 8, "%v %d", ok, n)''',['isa'])),
dict(id='nested-rule-unused',prop='C03',edits=[('pattern/compile.go','''	for _, v := range p.Defs {
		WalkPattern(v, true, func(sub Pattern) {
			switch t := sub.(type) {
			case *NonTermNode:
				if t.Inlined == nil {
					used[t.Name] = true
				}
			}
		})
	}
''','''	// only look at the rules that can be reached
	var reach func(name string)
	reach = func(name string) {
		WalkPattern(p.Defs[name], false, func(sub Pattern) {
			switch t := sub.(type) {
			case *NonTermNode:
				if t.Inlined == nil && !used[t.Name] && p.Defs[t.Name] != nil {
					used[t.Name] = true
					reach(t.Name)
				}
			}
		})
	}
	reach(p.Start)
''')],
 needs='a grammar in which a rule is reached only through a rule that is inlined, or through a grammar nested in such a rule',
 breaks='rules that are used are not compiled, or calls to rules of an enclosing grammar are taken for unused',
 demo=D('''	inner := Grammar("I", map[string]Pattern{"I": Or(Concat(Literal("["), NonTerm("I"), Literal("]")), NonTerm("A"))})
	_ = inner
	g := Grammar("S", map[string]Pattern{
		"S": Or(Concat(Literal("("), NonTerm("B"), Literal(")")), Literal("x")),
		"B": inner,
		"A": Or(Concat(Literal("<"), NonTerm("S"), Literal(">")), Literal("y")),
	})
	ok, n, _ := run(g, "([<x>])")
	check(ok && n == 7, "%v %d", ok, n)
	h := Grammar("S", map[string]Pattern{
		"S": Concat(Literal("a"), Grammar("T", map[string]Pattern{"T": Concat(Literal("b"), NonTerm("U")), "U": Or(Concat(Literal("c"), NonTerm("T")), NonTerm("V"))})),
		"V": Or(Concat(Literal("v"), NonTerm("S")), Literal("w")),
	})
	ok, n, _ = run(h, "abw")
	check(ok && n == 3, "%v %d", ok, n)''')),
dict(id='array-shift-strict',prop='C13',edits=[('memo/interval/lazy/array.go','if a.slots[i].interval.Low >= low {','if a.slots[i].interval.Low > low+maxInt(0, -amt) {'),('memo/interval/lazy/array.go','func (a *Array) Size() int {','''func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (a *Array) Size() int {''')],
 needs='an interval that begins close behind the removed range of a shrinking edit',
 breaks='it is not shifted',
 demo=D('''	a := &lazy.Array{}
	a.Add(1, 8, 9, "v")
	a.RemoveAndShift(2, 6, -6)
	check(a.FindLargest(1, 2) == "v", "not shifted")''',['memo/interval/lazy'])),
]
