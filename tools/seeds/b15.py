from b1 import D,PRE
BUGS=[
dict(id='stack-forget',prop='C01',edits=[('vm/stack.go','''	s.entries = append(s.entries, ent)
}
''','''	if len(s.entries) >= 1<<18 {
		// bound the memory that backtracking needs: forget the oldest half
		s.entries = append(s.entries[:0], s.entries[1<<17:]...)
	}
	s.entries = append(s.entries, ent)
}
''')],
 needs='recursion or pending alternatives deeper than 2^18 entries of the stack',
 breaks='the oldest calls and alternatives are forgotten, so the parse fails or panics',
 demo=D('''	p := Grammar("S", map[string]Pattern{"S": Or(Concat(Literal("a"), NonTerm("S"), Literal("b")), Literal("c"))})
	in := strings.Repeat("a", 300000) + "c" + strings.Repeat("b", 300000)
	ok, n, _ := run(p, in)
	check(ok && n == len(in), "%v %d", ok, n)''')),
dict(id='rope-eachleaf-depth',prop='C18',edits=[('input/linerope/rope.go','''	switch n.kind {
	case tLeaf:
		return fn(n)
	default: // case tNode
		if n.left.EachLeaf(fn) {
			return true
		}
		return n.right.EachLeaf(fn)
	}
''','''	// no recursion: the nodes on the right that are still to be visited
	var todo [48]*Node
	for i := 0; ; {
		for n.kind == tNode {
			todo[i%len(todo)] = n.right
			i++
			n = n.left
		}
		if fn(n) {
			return true
		}
		if i == 0 {
			return false
		}
		i--
		n = todo[i%len(todo)]
	}
''')],
 needs='a rope whose tree is more than 48 levels deep on its left side, as after many insertions at the front',
 breaks='the leaves are not visited in order, and some twice or not at all',
 demo=D('''	n := linerope.NewWithOpts([]byte("x"), linerope.Options{SplitLen: 4, JoinLen: 2, RebalanceRatio: 1.2, LineSep: []byte{'\\n'}})
	want := "x"
	for i := 0; i < 500; i++ {
		c := string(rune('a' + i%26))
		n.Insert(0, []byte(c))
		want = c + want
	}
	var sb strings.Builder
	k, err := n.WriteTo(&sb)
	check(err == nil && k == int64(len(want)) && sb.String() == want, "%d %v", k, err)''',extra=['input/linerope'])),
dict(id='linelen-carry',prop='C19',edits=[('input/linerope/line.go','''	if a.line != 0 && b.line != 0 {
		return loc{
			line: a.line + b.line,
			col:  b.col,
		}
	}''','''	if a.line != 0 && b.line != 0 {
		return loc{
			line: int(uint16(a.line)) + b.line,
			col:  b.col,
		}
	}''')],
 needs='a text of more than 65536 lines',
 breaks='the number of lines before is reduced modulo 65536',
 demo=D('''	n := linerope.New([]byte(strings.Repeat("\\n", 300000)))
	check(n.NumLines() == 300000, "%d", n.NumLines())''',extra=['input/linerope'])),
dict(id='any-run-merge',prop='C01',edits=[('pattern/pattern.go','''	acc := p
	for i := 1; i < n; i++ {
''','''	// a run of dots needs few instructions
	if d, ok := p.(*DotNode); ok && n > 1 && int(d.N)*n < 512 {
		k := int(d.N) * n
		if k < 256 {
			return Any(uint8(k))
		}
		return Concat(Any(255), Any(uint8(k-256)))
	}

	acc := p
	for i := 1; i < n; i++ {
''')],
 needs='Repeat(Any(k), n) with 256 <= k*n < 512',
 breaks='it consumes one byte too few',
 demo=D('''	in := strings.Repeat("x", 400)
	for _, k := range []int{2, 255, 256, 300, 400} {
		ok, n, _ := run(Repeat(Any(1), k), in)
		check(ok && n == k, "%d: %v %d", k, ok, n)
	}''')),
]
