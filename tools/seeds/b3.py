from b1 import D,PRE
LR=['input/linerope']
BUGS=[
dict(id='lazylog-findlargest-first',prop='C13',edits=[('memo/interval/lazylog/tree.go','''		for i, in := range n.interval.ins[1:] {
			if in.length() > n.interval.ins[max].length() {
				max = i + 1
			}
		}''','''		for i, in := range n.interval.ins[1:] {
			if in.length() > n.interval.ins[max].length() {
				max = i + 1
				break
			}
		}''')],
 needs='three intervals with the same id and start, each longer than the one before',
 breaks='the lookup returns the second longest',
 demo=D('''	tr := &lazylog.Tree{}
	tr.Add(0, 1, 3, "a")
	tr.Add(0, 1, 5, "b")
	tr.Add(0, 1, 9, "c")
	check(tr.FindLargest(0, 1) == "c", "%v", tr.FindLargest(0, 1))''',extra=['memo/interval/lazylog'])),
dict(id='lazylog-removed-slot',prop='C13',edits=[('memo/interval/lazylog/tree.go','''			n.interval.ins = n.interval.ins[:len(n.interval.ins)-1]
		} else {
			i++
		}''','''			n.interval.ins = n.interval.ins[:len(n.interval.ins)-1]
		}
		i++''')],
 needs='an edit that removes some of the intervals that share one start and id, two in a row',
 breaks='the interval swapped into a removed one\'s slot is not looked at, so it survives',
 demo=D('''	tr := &lazylog.Tree{}
	tr.Add(0, 1, 3, "a")
	tr.Add(0, 1, 9, "b")
	tr.Add(0, 1, 9, "c")
	tr.RemoveAndShift(6, 7, 0)
	check(tr.Size() == 1, "size %d", tr.Size())
	tr = &lazylog.Tree{}
	tr.Add(0, 1, 9, "a")
	tr.Add(0, 1, 3, "b")
	tr.Add(0, 1, 9, "c")
	tr.RemoveAndShift(6, 7, 0)
	check(tr.Size() == 1 && tr.FindLargest(0, 1) == "b", "size %d %v", tr.Size(), tr.FindLargest(0, 1))''',extra=['memo/interval/lazylog'])),
dict(id='lazy-remove-parent',prop='C13',edits=[('memo/interval/lazy/tree.go','''	n.parent = parent
	return n.rebalanceTree(parent)
}

''','''	return n.rebalanceTree(parent)
}

''')],
 needs='a lazy tree where a node with one child is removed and the child is asked for its position after a later shift',
 breaks='the child keeps a removed parent, so its position misses later shifts',
 demo=D('''	tr := &lazy.Tree{}
	tr.Add(0, 20, 23, 1)
	tr.Add(0, 40, 43, 2)
	tr.Add(0, 0, 3, 4)
	p := tr.Add(0, 60, 63, 3)
	tr.RemoveAndShift(41, 42, 0)
	tr.RemoveAndShift(10, 10, 5)
	check(p.Pos() == 65, "pos %d", p.Pos())''',extra=['memo/interval/lazy'])),
dict(id='lazy-array-swap',prop='C13',edits=[('memo/interval/lazy/array.go','''	for i := range a.slots {
		if a.slots[i].interval.Low >= low {''','''	for i := range a.slots {
		if a.slots[i].interval.Low > low {''')],
 needs='x',breaks='x',demo=D('')),
dict(id='table-threshold',prop='C14',edits=[('memo/tree.go','''	if examined < t.threshold || length == 0 {
		return
	}

	examined = max(examined, length)''','''	examined = max(examined, length)
	if examined < t.threshold || length == 0 {
		return
	}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='table-failed-length',prop='C14',edits=[('memo/tree.go','examined = max(examined, length)\n','if length > 0 {\n\t\texamined = length\n\t}\n')],
 needs='x',breaks='x',demo=D('')),
dict(id='table-edit-boundary-insert',prop='C14',edits=[('memo/tree.go','''	if low == high {
		high = low + 1
	}
	amt''','''	if low == high && low > 0 {
		low--
	}
	amt''')],
 needs='x',breaks='x',demo=D('')),
dict(id='setment-nested',prop='C15',edits=[('memo/capture.go','''	for _, c := range c.children {
		c.setMEnt(e)
	}''','''	for _, ch := range c.children {
		if ch.ment == nil && len(ch.children) == 0 {
			ch.ment, ch.off = e, ch.off-c.off-e.pos.Pos()
			continue
		}
		ch.setMEnt(e)
	}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='numchildren-dummy',prop='C15',edits=[('memo/capture.go','''		if ch.Dummy() {
			nchild += ch.NumChildren()
		} else {''','''		if ch.Dummy() {
			nchild += len(ch.children)
		} else {''')],
 needs='a parse with a table of a repetition of a memoized pattern long enough that merged groups nest (8 or more items)',
 breaks='NumChildren counts the groups instead of the captures in them',
 demo=D('''	p := Cap(Star(Memo(Cap(Literal("a"), 1))), 2)
	code := vm.Encode(MustCompile(p))
	for n := 0; n < 40; n++ {
		_, _, c, _ := code.Exec(strings.NewReader(strings.Repeat("a", n)), memo.NewTreeTable(0))
		check(c.Child(0).NumChildren() == n, "%d items: %d", n, c.Child(0).NumChildren())
	}''')),
dict(id='childiter-empty-group',prop='C15',edits=[('memo/capture.go','''		if ch == nil {
			subit = nil
			i++
			return ret()
		}''','''		if ch == nil {
			subit = nil
			i++
			if i < len(c.children) {
				return c.children[i]
			}
			return nil
		}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='childiter-restart',prop='C15',edits=[('memo/capture.go','''		if ch.Dummy() && subit == nil {
			subit = ch.ChildIterator(ch.off)
		}''','''		if ch.Dummy() && (subit == nil || len(ch.children) == 1) {
			subit = ch.ChildIterator(ch.off)
		}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='seek-chunk-end',prop='C16',edits=[('input/input.go','if pos < chunkEnd && pos >= i.base {','if pos <= chunkEnd && pos >= i.base && pos-i.base < bufsz {')],
 needs='seeking to the exact end of the input when it lies in the current window, after a longer document or zero bytes there',
 breaks='the end of the input reads as another byte (a zero byte) instead of as the end',
 demo=D('''	in := input.NewInput(strings.NewReader("ab"))
	in.SeekTo(2)
	_, ok := in.Peek()
	check(!ok, "a byte at the end of the input")''',extra=['input'])),
dict(id='advance-exact-window',prop='C16',edits=[('input/input.go','''	} else if i.coff == i.nchunk {
		i.refill(i.base + i.coff)
	}''','''	} else if i.coff == i.nchunk && (i.coff < bufsz || n > 1) {
		i.refill(i.base + i.coff)
	} else if i.coff == bufsz {
		// step into the next window, keeping the last byte for PeekBefore
		i.refill(i.base + i.coff - 1)
		i.coff = 1
	}''')],
 needs='a document of exactly a multiple of 4096 bytes (or 4095 more) read byte by byte to its end',
 breaks='at the end of such a document the end is not noticed: a stale byte is read',
 demo=D('''	s := strings.Repeat("a", 4096)
	ok, n, _ := run(Concat(Star(Literal("a")), Not(Any(1))), s)
	check(ok && n == 4096, "%v %d", ok, n)''')),
dict(id='reader-short-then-more',prop='C17',edits=[('input/reader.go','''		r.buf = append(r.buf, tmp[:n]...)
		if err != nil {
			break
		}''','''		r.buf = append(r.buf, tmp[:n]...)
		if err != nil || n == 0 {
			break
		}''')],
 needs='a reader that returns 0 bytes and no error once in the middle of the stream',
 breaks='the stream is taken to end there',
 demo=D('''	r := input.FromReader(&rd{parts: []string{"ab", "", "cd"}})
	b := make([]byte, 4)
	n, err := r.ReadAt(b, 0)
	check(n == 4 && string(b) == "abcd", "%d %v %q", n, err, b[:n])''',extra=['input'],stdlib=['io']).replace('func main','''type rd struct{ parts []string }

func (r *rd) Read(b []byte) (int, error) {
	if len(r.parts) == 0 {
		return 0, io.EOF
	}
	n := copy(b, r.parts[0])
	r.parts = r.parts[1:]
	return n, nil
}

func main''')),
dict(id='reader-reuse-caller',prop='C17',edits=[('input/reader.go','''	tmp := make([]byte, bufsz)
	for int64(len(r.buf))-off < blen {
		n, err = r.reader.Read(tmp)
		r.buf = append(r.buf, tmp[:n]...)
''','''	for int64(len(r.buf))-off < blen {
		if cap(r.buf)-len(r.buf) < bufsz {
			r.buf = append(make([]byte, 0, 2*len(r.buf)+bufsz), r.buf...)
		}
		k := len(r.buf)
		n, err = r.reader.Read(r.buf[k:cap(r.buf)])
		if n > bufsz {
			n = bufsz
		}
		r.buf = r.buf[:k+n]
''')],
 needs='a stream long enough that the stored data has more than 4096 bytes of spare room, from a reader that fills it at once',
 breaks='bytes read beyond 4096 in one call are dropped from the middle of the stream',
 demo=D('''	var sb strings.Builder
	for i := 0; i < 40000; i++ {
		sb.WriteByte(byte('a' + i%26 + i/4096))
	}
	s := sb.String()
	r := input.FromReader(strings.NewReader(s))
	var got []byte
	b := make([]byte, 1000)
	for off := 0; off < len(s); off += 1000 {
		n, _ := r.ReadAt(b, int64(off))
		got = append(got, b[:n]...)
	}
	check(string(got) == s, "%d bytes differ from the stream", len(got))''',extra=['input'])),
dict(id='rope-insert-cap',prop='C18',edits=[('input/linerope/rope.go','''		return NewWithOpts(n.value[:i], n.opts), NewWithOpts(n.value[i:], n.opts)''','''		return newLeaf(n.value[:i], n.opts), newLeaf(n.value[i:], n.opts)'''),('input/linerope/rope.go','''// Len returns the number of elements stored in the rope.''','''func newLeaf(b []byte, opts Options) *Node {
	return &Node{
		kind:    tLeaf,
		value:   b,
		length:  len(b),
		llength: llen(b, opts.LineSep),
		opts:    opts,
	}
}

// Len returns the number of elements stored in the rope.''')],
 needs='splitting a rope inside a leaf and then inserting at the end of the left half, with the right half still in use',
 breaks='the halves share one array: the insertion overwrites the beginning of the right half',
 demo=D('''	r := linerope.New([]byte("hello world"))
	a, b := r.SplitAt(5)
	a.Insert(5, []byte("!!"))
	check(string(a.Value()) == "hello!!" && string(b.Value()) == " world", "%q %q", a.Value(), b.Value())''',extra=LR)),
dict(id='rope-remove-cow',prop='C18',edits=[('input/linerope/rope.go','''			divide := n.length / 2
			n.left = NewWithOpts(n.value[:divide], n.opts)
			n.right = NewWithOpts(n.value[divide:], n.opts)
			n.value = nil
			n.kind = tNode''','''			divide := n.length / 2
			if divide <= n.opts.SplitLen {
				// both halves fit into leaves
				l, r := n.value[:divide], n.value[divide:]
				n.left = &Node{kind: tLeaf, value: l, length: len(l), llength: llen(l, n.opts.LineSep), opts: n.opts}
				n.right = &Node{kind: tLeaf, value: r, length: len(r), llength: llen(r, n.opts.LineSep), opts: n.opts}
			} else {
				n.left = NewWithOpts(n.value[:divide], n.opts)
				n.right = NewWithOpts(n.value[divide:], n.opts)
			}
			n.value = nil
			n.kind = tNode''')],
 needs='an insertion that makes a leaf split in two, followed by an insertion into the left half',
 breaks='the halves share one array, so the insertion overwrites text of the right half',
 demo=D('''	o := linerope.DefaultOptions
	o.SplitLen, o.JoinLen = 8, 4
	r := linerope.NewWithOpts([]byte("abcdefg"), o)
	r.Insert(3, []byte("12"))
	r.Insert(2, []byte("X"))
	check(string(r.Value()) == "abXc12defg", "%q", r.Value())''',extra=LR)),
dict(id='rope-lineat-sep-end',prop='C19',edits=[('input/linerope/rope.go','''		leftLength := n.left.llength
		if pos.cmp(leftLength) < 0 {
			return n.left.OffsetAt(line, col)''','''		leftLength := n.left.llength
		if pos.cmp(leftLength) <= 0 && n.right.llength.line > 0 {
			return n.left.OffsetAt(line, col)''')],
 needs='x',breaks='x',demo=D('')),
dict(id='rope-removed-line-cache',prop='C19',edits=[('input/linerope/rope.go','''		n.length = n.left.length + n.right.length
		n.llength = addlocs(n.left.llength, n.right.llength)
	}
	n.adjust()
}

// Insert inserts''','''		n.length = n.left.length + n.right.length
		if leftEnd > leftStart && rightEnd > rightStart {
			n.llength = addlocs(n.left.llength, n.right.llength)
		} else if leftEnd > leftStart {
			n.llength = addlocs(n.left.llength, n.right.llength)
		} else {
			n.llength.line = n.left.llength.line + n.right.llength.line
		}
	}
	n.adjust()
}

// Insert inserts''')],
 needs='removing text from the last line of a rope of several leaves when nothing is removed from the left half',
 breaks='the column of the end of the text is not updated, so positions on the last line come out wrong',
 demo=D('''	o := linerope.DefaultOptions
	o.SplitLen, o.JoinLen = 4, 2
	r := linerope.NewWithOpts([]byte("ab\\ncdefghijkl"), o)
	r.Remove(9, 11)
	l, c := r.LLen()
	check(l == 1 && c == 8, "end at %d,%d", l, c)''',extra=LR)),
dict(id='rope-addlocs',prop='C19',edits=[('input/linerope/line.go','''	} else if a.line != 0 {
		return loc{
			line: a.line,
			col:  b.col + a.col,
		}''','''	} else if a.line != 0 && b.col != 0 {
		return loc{
			line: a.line,
			col:  b.col + a.col,
		}
	} else if a.line != 0 {
		return loc{line: a.line}''')],
 needs='a rope with an empty right part after a part that has line breaks and a last line that is not empty',
 breaks='the end column is lost when the right part is empty',
 demo=D('''	a, b := linerope.New([]byte("x\\nab")), linerope.New(nil)
	o := linerope.DefaultOptions
	o.SplitLen, o.JoinLen = 4, 2
	a, b = linerope.NewWithOpts([]byte("x\\nab"), o), linerope.NewWithOpts(nil, o)
	r := linerope.Join(a, b)
	l, c := r.LLen()
	check(l == 1 && c == 2, "end at %d,%d", l, c)''',extra=LR)),
]
BUGS=[b for b in BUGS if b['needs']!='x']
