from b1 import D,PRE
BUGS=[
dict(id='childiter-deep',prop='C15',edits=[('memo/capture.go','''	i := 0
	var subit, ret func() *Capture
	ret = func() *Capture {
		if i >= len(c.children) {
			return nil
		}
		ch := c.children[i]
		if ch.Dummy() && subit == nil {
			subit = ch.ChildIterator(ch.off)
		}
		if subit != nil {
			ch = subit()
		} else {
			i++
		}
		if ch == nil {
			subit = nil
			i++
			return ret()
		}
		return ch
	}
	return ret
}
''','''	// groups are balanced, so they do not nest deeply
	type level struct {
		children []*Capture
		i        int
	}
	var stack [20]level
	stack[0].children = c.children
	depth := 0
	return func() *Capture {
		for depth >= 0 {
			l := &stack[depth]
			if l.i >= len(l.children) {
				depth--
				continue
			}
			ch := l.children[l.i]
			l.i++
			if !ch.Dummy() {
				return ch
			}
			if depth+1 < len(stack) {
				depth++
				stack[depth] = level{children: ch.children}
			}
		}
		return nil
	}
}
''')],
 needs='grouping nodes nested more than 20 deep',
 breaks='iteration and indexing leave out what is nested deeper, which the count includes',
 demo=D('''	c := memo.NewCaptureNode(7, 0, 1, nil)
	for i := 0; i < 30; i++ {
		c = memo.NewCaptureDummy(0, 1, []*memo.Capture{c})
	}
	root := memo.NewCaptureNode(1, 0, 1, []*memo.Capture{c})
	check(root.NumChildren() == 1, "%d", root.NumChildren())
	check(root.Child(0) != nil && root.Child(0).Id() == 7, "no child")''')),
dict(id='reader-skip-ahead',prop='C17',edits=[('input/reader.go','''	// otherwise read data until there is enough or there is an error.
	tmp := make([]byte, bufsz)
''','''	// otherwise read data until there is enough or there is an error.
	tmp := make([]byte, bufsz)
	if gap := off - int64(len(r.buf)); gap > 1<<16 {
		// large gaps are read at once
		tmp = make([]byte, gap)
		n, err = io.ReadFull(r.reader, tmp)
		r.buf = append(r.buf, tmp...)
		if err != nil {
			return 0, io.EOF
		}
		tmp = tmp[:bufsz]
	}
''')],
 needs='a read more than 64 KiB beyond what was read so far, of a stream that ends before that, and a later read near the end',
 breaks='the stream is padded with zeros',
 demo=D('''	r := input.FromReader(strings.NewReader(strings.Repeat("x", 1000)))
	b := make([]byte, 10)
	n, _ := r.ReadAt(b, 100000)
	check(n == 0, "%d", n)
	n, err := r.ReadAt(b, 995)
	check(n == 5 && err != nil, "%d %v", n, err)''',extra=["input"])),
dict(id='table-rlock',prop='C27',race=True,edits=[('memo/tree.go','''	lock      sync.Mutex
''','''	lock      sync.RWMutex
'''),('memo/tree.go','''	t.lock.Lock()
	entry := t.Map.FindLargest(id, pos)
	t.lock.Unlock()
''','''	// lookups do not exclude each other
	t.lock.RLock()
	entry := t.Map.FindLargest(id, pos)
	t.lock.RUnlock()
'''),('memo/entry.go','''	lock     *sync.Mutex //''','''	lock     *sync.RWMutex //''')],
 needs='two lookups at the same time in a table that was edited, so that looking up applies pending shifts',
 breaks='both apply the shifts: a data race, and entries can be shifted twice',
 demo=D('''	code := vm.Encode(MustCompile(Star(Memo(Cap(Or(Literal("a"), Literal("b")), 1)))))
	doc := strings.Repeat("ab", 500)
	for k := 0; k < 5; k++ {
		tbl := memo.NewTreeTable(0)
		code.Exec(strings.NewReader(doc), tbl)
		tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 1})
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for id := 0; id < 4; id++ {
					for p := 0; p < 1000; p++ {
						tbl.Get(id, p)
					}
				}
			}()
		}
		wg.Wait()
	}''',stdlib=["sync"])),
dict(id='backref-id-byte',prop='C07',edits=[('isa/checker.go','''	switch RefKind(flag) {
	case RefDef:
''','''	id &= 0xff // references have small ids
	switch RefKind(flag) {
	case RefDef:
''')],
 needs='two back-references whose ids differ by a multiple of 256',
 breaks='they share one text',
 demo=D('''	ref := isa.NewBackRef()
	code := vm.Encode(MustCompile(Concat(CheckFlags(Literal("a"), ref, 1, int(isa.RefDef)), CheckFlags(Literal("b"), ref, 257, int(isa.RefDef)), CheckFlags(&EmptyNode{}, ref, 1, int(isa.RefUse)))))
	ok, n, _, _ := code.Exec(strings.NewReader("aba"), memo.NoneTable{})
	check(ok && n == 3, "%v %d", ok, n)''',extra=["isa"])),
dict(id='lazylog-ins-cap',prop='C13',edits=[('memo/interval/lazylog/tree.go','''		n.interval.ins = append(n.interval.ins, value)
''','''		if len(n.interval.ins) >= 16 {
			// only the largest is ever looked up
			min := 0
			for i, in := range n.interval.ins {
				if in.length() < n.interval.ins[min].length() {
					min = i
				}
			}
			n.interval.ins[min] = value
		} else {
			n.interval.ins = append(n.interval.ins, value)
		}
''')],
 needs='more than 16 intervals with one id and position, the new one the smallest or the larger ones removed later',
 breaks='values disappear without being removed',
 demo=D('''	var t lazylog.Tree
	for i := 20; i > 0; i-- {
		t.Add(1, 5, 5+i, i)
	}
	check(t.Size() == 20, "%d", t.Size())''',extra=["memo/interval/lazylog"])),
dict(id='rope-prepend-shared',prop='C18',edits=[]),
]
BUGS.pop()
