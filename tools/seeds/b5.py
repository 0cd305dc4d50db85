from b1 import D,PRE
LR=['input/linerope']
BUGS=[
dict(id='pool-stack',prop='C28',edits=[('vm/stack.go','''func newStack() *stack {
	return &stack{
		entries: make([]stackEntry, 0, 4),
		capt:    make([]*memo.Capture, 0),
	}
}''','''var stacks = sync.Pool{
	New: func() interface{} {
		return &stack{
			entries: make([]stackEntry, 0, 4),
			capt:    make([]*memo.Capture, 0),
		}
	},
}

// newStack returns an empty stack, possibly one that was used before.
func newStack() *stack {
	s := stacks.Get().(*stack)
	s.entries = s.entries[:0]
	s.capt = s.capt[:0]
	return s
}'''),('vm/stack.go','''import (
''','''import (
	"sync"

'''),('vm/vm.go','''	return vm.exec(ip, st, src, memtbl, nil)''','''	defer stacks.Put(st)
	return vm.exec(ip, st, src, memtbl, nil)''')],
 needs='keeping the captures of one parse while another parse makes captures',
 breaks='the captures of the earlier parse are overwritten by those of the later one (shared backing array)',
 demo=D('''	p := Star(Or(Cap(Literal("a"), 1), Cap(Literal("b"), 2)))
	code := vm.Encode(MustCompile(p))
	_, _, c1, _ := code.Exec(strings.NewReader("aaa"), memo.NoneTable{})
	for i := 0; i < 20; i++ {
		code.Exec(strings.NewReader("bbb"), memo.NoneTable{})
	}
	check(c1.Child(0).Id() == 1 && c1.Child(2).Id() == 1, "%v", c1)''')),
dict(id='code-input-reuse',prop='C27',edits=[('vm/code.go','''type Code struct {
	data code
}''','''type Code struct {
	data code
	// checkers without state, prepared by the first parse
	checkers []isa.Checker
}'''),('vm/vm.go','''	checkers := freshCheckers(vm.data.Checkers)
''','''	if vm.checkers == nil {
		vm.checkers = append(vm.checkers, vm.data.Checkers...)
	}
	checkers := freshCheckers(vm.checkers)
''')],race=True,
 needs='two goroutines that both do the first parse with a shared parser',
 breaks='unsynchronized lazy initialization: a data race on the parser',
 demo=D('''	code := vm.Encode(MustCompile(Check(Literal("a"), isa.NewMapChecker([]string{"a"}))))
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok, _, _, _ := code.Exec(strings.NewReader("a"), memo.NoneTable{})
			check(ok, "no match")
		}()
	}
	wg.Wait()''',extra=['isa'],stdlib=['sync'])),
dict(id='reader-fast-path',prop='C27',edits=[('input/reader.go','''	r.lock.Lock()
	defer r.lock.Unlock()

	blen := int64(len(b))
	// if there is enough space to fill up b already in the buffer, just copy
	// the data and return it.
	if int64(len(r.buf))-off >= blen {
		return copy(b, r.buf[off:]), nil
	}
''','''	blen := int64(len(b))
	// if there is enough space to fill up b already in the buffer, just copy
	// the data and return it.
	if int64(len(r.buf))-off >= blen {
		return copy(b, r.buf[off:]), nil
	}

	r.lock.Lock()
	defer r.lock.Unlock()
''')],race=True,
 needs='two goroutines reading a wrapped stream, one served from the stored bytes while the other extends them',
 breaks='the fast path reads the buffer without the lock',
 demo=D('''	r := input.FromReader(strings.NewReader(strings.Repeat("ab", 20000)))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 100)
			for off := 0; off+100 <= 40000; off += 100 {
				n, _ := r.ReadAt(b, int64(off))
				check(n == 100 && b[0] == 'a', "read %d", n)
			}
		}()
	}
	wg.Wait()''',extra=['input'],stdlib=['sync'])),
dict(id='table-get-unlocked',prop='C27',edits=[('memo/tree.go','''	t.lock.Lock()
	entry := t.Map.FindLargest(id, pos)
	t.lock.Unlock()
	e, ok := entry.(*Entry)''','''	entry := t.Map.FindLargest(id, pos)
	e, ok := entry.(*Entry)''')],race=True,
 needs='two parses with one table at the same time',
 breaks='lookups are not synchronized with insertions',
 demo=D('''	code := vm.Encode(MustCompile(Star(Memo(Cap(Literal("a"), 1)))))
	tbl := memo.NewTreeTable(0)
	s := strings.Repeat("a", 300)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok, n, c, _ := code.Exec(strings.NewReader(s), tbl)
			check(ok && n == 300 && c.NumChildren() == 300, "%v %d", ok, n)
		}()
	}
	wg.Wait()''',stdlib=['sync'])),
dict(id='table-put-setpos-late',prop='C27',edits=[('memo/tree.go','''	t.lock.Lock()
	e.setPos(t.Map.Add(id, start, start+examined, e))
	t.lock.Unlock()''','''	t.lock.Lock()
	pos := t.Map.Add(id, start, start+examined, e)
	t.lock.Unlock()
	e.setPos(pos)''')],race=True,
 needs='a parse that finds an entry in a shared table between its insertion and the setting of its position',
 breaks='the other parse sees captures without positions (or a nil position)',
 demo=D('''	code := vm.Encode(MustCompile(Star(Memo(Cap(Literal("a"), 1)))))
	tbl := memo.NewTreeTable(0)
	s := strings.Repeat("a", 2000)
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ok, n, c, _ := code.Exec(strings.NewReader(s), tbl)
			check(ok && n == 2000 && c.NumChildren() == 2000, "%v %d", ok, n)
			it := c.ChildIterator(0)
			i := 0
			for ch := it(); ch != nil; ch = it() {
				check(ch.Start() == i, "capture %d at %d", i, ch.Start())
				i++
			}
		}()
	}
	wg.Wait()''',stdlib=['sync'])),
dict(id='re-shared-scratch',prop='C27',edits=[('re/re.go','''	ident := &bytes.Buffer{}
	it''','''	ident.Reset()
	it'''),('re/re.go','''func parseId(root''','''// ident is used to put identifiers together.
var ident bytes.Buffer

func parseId(root''')],race=True,
 needs='two goroutines compiling textual patterns at the same time',
 breaks='they put identifiers together in one shared buffer',
 demo=D('''	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 50; i++ {
				p, err := re.Compile("Abc <- Def Ghi\\nDef <- 'a'\\nGhi <- 'b'\\n")
				check(err == nil, "%v", err)
				_, err = Compile(p)
				check(err == nil, "%v", err)
			}
		}()
	}
	wg.Wait()''',extra=['re'],stdlib=['sync'])),
dict(id='rope-append-nodes',prop='C29',edits=[('input/linerope/rope.go','''	nodes := make([]*Node, nchunks, nchunks+1)
''','''	nodes := make([]*Node, nchunks, nchunks+1)
	lines := 0
'''),('input/linerope/rope.go','''				nodes[i] = &Node{
					kind:    tLeaf,
					value:   slc,
					length:  len(slc),
					llength: llen(slc, opts.LineSep),
					opts:    opts,
				}
''','''				nodes[i] = &Node{
					kind:    tLeaf,
					value:   slc,
					length:  len(slc),
					llength: llen(slc, opts.LineSep),
					opts:    opts,
				}
				lines += nodes[i].llength.line
'''),('input/linerope/rope.go','''	return buildTree(nodes)
}

// recursively''','''	if lines+nodes[nchunks].llength.line == 0 && nchunks > 0 {
		// no line breaks: there is nothing to add up
		for _, n := range nodes {
			n.llength.col = n.length
		}
	}
	return buildTree(nodes)
}

// recursively''')],race=True,
 needs='building a rope of several leaves on several cores',
 breaks='the loading goroutines add to one counter without synchronization',
 demo=D('''	o := linerope.DefaultOptions
	o.SplitLen, o.JoinLen = 8, 4
	for i := 0; i < 20; i++ {
		r := linerope.NewWithOpts([]byte(strings.Repeat("abc\\n", 1000)), o)
		check(r.NumLines() == 1000, "%d lines", r.NumLines())
	}''',extra=LR)),
dict(id='rope-partition',prop='C29',edits=[('input/linerope/rope.go','''			start := t * (nchunks / nthreads)
			end := t*(nchunks/nthreads) + (nchunks / nthreads)
			if t == nthreads-1 {
				end = nchunks
			}''','''			per := (nchunks + nthreads - 1) / nthreads
			start := t * per
			end := start + per
			if t == nthreads-1 || end >= nchunks-1 {
				end = nchunks
			}''')],race=True,
 needs='a number of leaves that does not divide evenly among the cores (e.g. one more than fits)',
 breaks='two goroutines load the last leaves: a data race',
 demo=D('''	o := linerope.DefaultOptions
	o.SplitLen, o.JoinLen = 4, 2
	for k := 0; k < 200; k++ {
		r := linerope.NewWithOpts([]byte(strings.Repeat("abc\\n", k)), o)
		check(r.NumLines() == k, "%d lines", r.NumLines())
	}''',extra=LR)),
dict(id='rope-read-splay',prop='C29',edits=[('input/linerope/rope.go','''	default: // case tNode
		return concat(n.left.Value(), n.right.Value())
	}
}

// Remove''','''	default: // case tNode
		v := concat(n.left.Value(), n.right.Value())
		if n.length < n.opts.JoinLen {
			// small enough to be a leaf
			n.kind, n.value = tLeaf, v[:len(v):len(v)]
		}
		return v
	}
}

// Remove''')],race=True,
 needs='x',breaks='x',demo=D('')),
dict(id='rope-linecache',prop='C29',edits=[('input/linerope/rope.go','''type Node struct {
	kind ''','''type Node struct {
	// last position converted by LineColAt
	lastPos int
	lastLoc loc

	kind '''),('input/linerope/rope.go','''	l := n.lineColAt(pos)
	return l.line, l.col''','''	if pos != 0 && n.lastPos == pos && n.lastLoc != (loc{}) {
		return n.lastLoc.line, n.lastLoc.col
	}
	l := n.lineColAt(pos)
	n.lastPos, n.lastLoc = pos, l
	return l.line, l.col''')],race=True,
 needs='an edit between two conversions of the same position, or two goroutines converting positions',
 breaks='the cache is not cleared by edits and not synchronized',
 demo=D('''	r := linerope.New([]byte("ab\\ncd\\nef"))
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		g := g
		go func() {
			defer wg.Done()
			for i := 0; i < 1000; i++ {
				l, c := r.LineColAt(g + 2)
				check(l*3+c == g+2, "%d: %d,%d", g+2, l, c)
			}
		}()
	}
	wg.Wait()''',extra=LR,stdlib=['sync'])),
]
BUGS=[b for b in BUGS if b['needs']!='x']
