from b1 import D,PRE
BUGS=[
dict(id='error-limit',prop='C06',edits=[('vm/vm.go','''			msg := vm.data.Errors[errid]
			errs''','''			msg := vm.data.Errors[errid]
			if n := len(errs); n > 0 && errs[n-1].Pos == src.Pos() {
				// report one error per position
				errs = errs[:n-1]
			}
			errs''')],
 needs='two error nodes that report at the same position, e.g. nested or in a row with recoveries that consume nothing',
 breaks='only the last error of each position is reported',
 demo=D('''	p := Concat(Literal("a"), Error("first", Literal("")), Error("second", Literal("")), Literal("b"))
	code := vm.Encode(MustCompile(p))
	ok, n, _, errs := code.Exec(strings.NewReader("ab"), memo.NoneTable{})
	check(ok && n == 2 && len(errs) == 2 && errs[0].Message == "first" && errs[1].Message == "second", "%v %d %v", ok, n, errs)''')),
dict(id='error-nil-recover-stops',prop='C06',edits=[('pattern/compile.go','''	if p.Recover == nil {
		recovery''','''	if p.Recover == nil || len(p.Message) == 0 {
		recovery''')],
 needs='an error node with an empty message and a recovery pattern',
 breaks='the parse is aborted instead of recovering',
 demo=D('''	p := Concat(Or(Literal("a"), Error("", Literal("b"))), Literal("c"))
	ok, n, _ := run(p, "bc")
	check(ok && n == 2, "%v %d", ok, n)''')),
dict(id='memoid-equal',prop='C09',edits=[('pattern/pattern.go','memoId = max(memoId, id) + 1','memoId = max(memoId, id+1)')],
 needs='x',breaks='x',demo=D('')),
dict(id='memoid-shared',prop='C09',edits=[('pattern/pattern.go','memoId = max(memoId, id) + 1','if id > memoId {\n\t\tmemoId = id + 1\n\t}')],
 needs='MemoId with exactly the next unused number, followed by Memo of a different pattern in the same grammar, both tried at the same position of a parse with a table',
 breaks='two different memoized patterns share one ID, so one gets the other result from the table',
 demo=D('''	probe := Memo(Literal("z")).(*MemoNode)
	next := probe.Id + 1
	p1 := MemoId(Literal("ab"), next)
	p2 := Memo(Literal("abc"))
	code := vm.Encode(MustCompile(Or(Concat(p1, Literal("!")), Concat(p2, Literal("!")))))
	tbl := memo.NewTreeTable(0)
	ok, n, _, _ := code.Exec(strings.NewReader("abc!"), tbl)
	check(ok && n == 4, "abc!: %v %d", ok, n)''')),
dict(id='memo-fail-after-capture',prop='C09',edits=[('vm/vm.go','''		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, nil)
		ent.capt = nil''','''		memoize(int(ent.memo.id), ent.memo.pos, -1, 0, ent.capt)
		ent.capt = nil'''),('vm/vm.go','''				src.Examine(src.Pos() + ment.Examined() - 1)
				if ment.Length() == -1 {
					goto fail
				}
				capt := ment.Captures()
				if capt != nil {
					st.addCapt(capt...)
				}
				src.Advance(ment.Length())
				ip = int(lbl)
			} else {
				st.pushMemo(''','''				src.Examine(src.Pos() + ment.Examined() - 1)
				capt := ment.Captures()
				if capt != nil {
					st.addCapt(capt...)
				}
				if ment.Length() == -1 {
					goto fail
				}
				src.Advance(ment.Length())
				ip = int(lbl)
			} else {
				st.pushMemo(''')],
 needs='x',breaks='x',demo=D('')),
dict(id='edit-same-length',prop='C10',edits=[('memo/tree.go','''	t.lock.Lock()
	t.Map.RemoveAndShift(low, high, amt)''','''	if amt == 0 && e.Len == 1 {
		// a single byte was overwritten: entries that start after it or
		// end at it are not affected
		high = low
	}

	t.lock.Lock()
	t.Map.RemoveAndShift(low, high, amt)''')],
 needs='x',breaks='x',demo=D('')),
dict(id='exam-skip-eof',prop='C10',edits=[('input/input.go','''	pos := i.base + i.coff
	if pos > i.furthest {
		i.furthest = pos
	}

	return i.chunk[i.coff], i.nchunk != 0''','''	if i.nchunk == 0 {
		return 0, false
	}
	if pos := i.base + i.coff; pos > i.furthest {
		i.furthest = pos
	}
	return i.chunk[i.coff], true''')],
 needs='a memoized rule that matched by looking at the end of the input, then backtracking; then text appended at the end',
 breaks='that the rule looked at the end of the text is not recorded, so its result is kept when text is appended',
 demo=D('''	// matches "a" only if not followed by b within two bytes
	p := Star(Or(Memo(Concat(Literal("a"), Not(Concat(Any(1), Literal("b"))))), Any(1)))
	_ = p
	q := Or(Concat(Memo(Cap(Concat(Literal("a"), Not(Concat(Literal("x"), Literal("b")))), 1)), Star(Any(1))), Cap(Star(Any(1)), 2))
	code := vm.Encode(MustCompile(q))
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader("ax"), tbl)
	tbl.ApplyEdit(memo.Edit{Start: 2, End: 2, Len: 1})
	_, _, c, _ := code.Exec(strings.NewReader("axb"), tbl)
	check(c.Child(0).Id() == 2, "capture %d", c.Child(0).Id())''')),
dict(id='exam-furthest-reset',prop='C10',edits=[('vm/vm.go','''				st.pushMemo(stackMemo{
					id:  id,
					pos: src.Pos(),
				})
				ip += szMemoOpen''','''				// measure what this rule examines from here on
				src.ResetFurthest()
				st.pushMemo(stackMemo{
					id:  id,
					pos: src.Pos(),
				})
				ip += szMemoOpen''')],
 needs='nested memoized rules where the outer one looks far ahead before trying the inner one, and an edit in the part only looked at',
 breaks='what the outer rule examined before the inner rule began is forgotten, so the outer entry survives edits it depends on',
 demo=D('''	inner := Memo(Literal("a"))
	p := Star(Or(Memo(Cap(Concat(And(Literal("abcd")), inner), 1)), Any(1)))
	code := vm.Encode(MustCompile(p))
	tbl := memo.NewTreeTable(0)
	_, _, c, _ := code.Exec(strings.NewReader("abcd"), tbl)
	check(c.NumChildren() == 1, "first parse: %d", c.NumChildren())
	tbl.ApplyEdit(memo.Edit{Start: 3, End: 4, Len: 1})
	_, _, c, _ = code.Exec(strings.NewReader("abcx"), tbl)
	check(c.NumChildren() == 0, "after the edit: %d captures", c.NumChildren())''')),
dict(id='lazylog-remove-unshifted',prop='C10',edits=[('memo/interval/lazylog/tree.go','''			n.left.applyShifts()
			n.right.applyShifts()
			// node to delete''','''			n.left.applyShifts()
			// node to delete''')],
 needs='an edit that deletes an inner node of the tree of entries while shifts from earlier edits are pending below it',
 breaks='the node that takes the deleted one is left in place too',
 demo=D('''	tr := &lazylog.Tree{}
	for i := 0; i < 3; i++ {
		tr.Add(0, i*10, i*10+3, i)
	}
	tr.RemoveAndShift(5, 5, 5)
	tr.RemoveAndShift(16, 16, 0)
	check(tr.Size() == 2, "size %d", tr.Size())
	check(tr.FindLargest(0, 25) != nil, "not found")''',extra=['memo/interval/lazylog'])),
dict(id='lazylog-rotate-max',prop='C13',edits=[('memo/interval/lazylog/tree.go','''	newRoot := n.right
	n.right = newRoot.left
	newRoot.left = n

	n.recalculateHeight()
	n.updateMax()
	newRoot.recalculateHeight()
	newRoot.updateMax()''','''	newRoot := n.right
	n.right = newRoot.left
	newRoot.left = n

	newRoot.recalculateHeight()
	newRoot.updateMax()
	n.recalculateHeight()''')],
 needs='x',breaks='x',demo=D('')),
dict(id='lazylog-search-shift',prop='C13',edits=[('memo/interval/lazylog/tree.go','''		if n.tstamp >= n.tree.shifts[j].tstamp {
			j = j + 1
			break
		}''','''		if n.tstamp >= n.tree.shifts[j-1].tstamp {
			j = j + 1
			break
		}''')],
 needs='x',breaks='x',demo=D('''	tr := &lazylog.Tree{}
	tr.Add(0, 10, 13, 1)
	tr.RemoveAndShift(0, 0, 5)
	check(tr.FindLargest(0, 15) != nil, "not found")
	tr.RemoveAndShift(0, 0, 5)
	tr.RemoveAndShift(0, 0, 5)
	check(tr.FindLargest(0, 25) != nil, "not found")''',extra=['memo/interval/lazylog'])),
dict(id='memotree-dummy-pos',prop='C11',edits=[('vm/vm.go','dummy := memo.NewCaptureDummy(ent.memo.pos, src.Pos()-ent.memo.pos, ent.capt)','dummy := memo.NewCaptureDummy(next.memo.pos, src.Pos()-next.memo.pos, ent.capt)')],
 needs='x',breaks='x',demo=D('')),
dict(id='memotree-merge-captures',prop='C11',edits=[('vm/vm.go','''				if len(ent.capt) > 0 && intrvl == nil {
					dummy''','''				if len(ent.capt) > 1 && intrvl == nil {
					dummy'''),('vm/vm.go','''				} else if len(ent.capt) > 0 {
					st.addCapt(ent.capt...)
				}''','''				} else if len(ent.capt) > 0 && len(next.capt) > 0 {
					next.capt[len(next.capt)-1] = memo.NewCaptureDummy(next.memo.pos, src.Pos()-next.memo.pos, append(next.capt[len(next.capt)-1:len(next.capt):len(next.capt)], ent.capt...))
				} else if len(ent.capt) > 0 {
					st.addCapt(ent.capt...)
				}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='memotree-close-count',prop='C11',edits=[('vm/vm.go','''			for p := st.peek(); p != nil && p.stype == stMemoTree && p.memo.id == id; p = st.peek() {
				st.pop(true)
			}''','''			for p := st.peek(); p != nil && p.stype == stMemoTree && p.memo.id == id; p = st.peek() {
				st.pop(p.memo.count > 0 || len(p.capt) > 1)
			}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='interval-edge',prop='C12',edits=[('vm/vm.go','return i.Low < high2 && i.High > low2','return i.Low < high2 && i.High-1 > low2')],
 needs='an interval parse with a capture that overlaps the interval only in its last byte',
 breaks='the capture is missing',
 demo=D('''	p := Star(Cap(Any(1), 1))
	code := vm.Encode(MustCompile(p))
	_, _, c, _ := code.ExecInterval(strings.NewReader("abcdef"), memo.NoneTable{}, &vm.Interval{Low: 2, High: 4})
	check(c.NumChildren() == 2 && c.Child(1).Start() == 3, "%d captures", c.NumChildren())''')),
dict(id='interval-full-capture',prop='C12',edits=[('vm/vm.go','if overlaps(intrvl, pos-back, pos) {','if overlaps(intrvl, pos-back, max(pos, pos-back+1)) {')],
 needs='x',breaks='x',demo=D('')),
dict(id='interval-children',prop='C12',edits=[('vm/vm.go','''			if overlaps(intrvl, ent.memo.pos, end) {
				caprange''','''			if overlaps(intrvl, ent.memo.pos, end) || len(ent.capt) > 0 && intrvl.High == end {
				caprange''')],
 needs='x',breaks='x',demo=D('')),
dict(id='interval-nested-parent',prop='C12',edits=[('vm/vm.go','''				capt := memo.NewCaptureNode(int(ent.memo.id), ent.memo.pos, end-ent.memo.pos, ent.capt)
				st.addCapt(capt)''','''				if intrvl != nil && ent.memo.pos < intrvl.Low && end > intrvl.High && len(ent.capt) == 1 {
					// the child covers what was asked for
					st.addCapt(ent.capt...)
				} else {
					capt := memo.NewCaptureNode(int(ent.memo.id), ent.memo.pos, end-ent.memo.pos, ent.capt)
					st.addCapt(capt)
				}''')],
 needs='an interval parse where a capture strictly contains the interval and has exactly one child in it',
 breaks='the enclosing capture is left out of the tree',
 demo=D('''	p := Cap(Concat(Star(Literal("x")), Cap(Star(Literal("a")), 1), Star(Literal("y"))), 2)
	code := vm.Encode(MustCompile(p))
	_, _, c, _ := code.ExecInterval(strings.NewReader("xxaayy"), memo.NoneTable{}, &vm.Interval{Low: 2, High: 4})
	check(c.NumChildren() == 1 && c.Child(0).Id() == 2, "%v", c)''')),
]
BUGS=[b for b in BUGS if b['needs']!='x']
