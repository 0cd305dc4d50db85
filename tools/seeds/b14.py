from b1 import D,PRE
BUGS=[
dict(id='put-wide-skip',prop='C30',edits=[('memo/tree.go','''	if examined < t.threshold || length == 0 {
		return
	}
''','''	if examined < t.threshold || length == 0 {
		return
	}
	if len(captures) > 48 {
		// moving that many captures costs more than parsing again
		return
	}
''')],
 needs='a memoized result with more than 48 captures directly in it',
 breaks='the result is never stored, so it is parsed again every time',
 demo=D('''	t := memo.NewTreeTable(0)
	p := Memo(Concat(Star(Cap(Literal("a"), 1)), Literal("b")))
	code := vm.Encode(MustCompile(p))
	in := strings.Repeat("a", 60) + "b"
	ok, n, c, _ := code.Exec(strings.NewReader(in), t)
	check(ok && n == 61 && c.NumChildren() == 60, "%v %d", ok, n)
	check(t.Size() == 1, "%d results stored", t.Size())''')),
dict(id='shifts-compact',prop='C13',edits=[('memo/interval/lazylog/tree.go','''	t.shifts = append(t.shifts, shift{
''','''	if len(t.shifts) >= 1000 && t.root != nil {
		// the older half is known to the top of the tree by now
		t.root.applyShifts()
		t.root.left.settle()
		t.root.right.settle()
		t.shifts = append([]shift(nil), t.shifts[len(t.shifts)/2:]...)
	}
	t.shifts = append(t.shifts, shift{
'''),('memo/interval/lazylog/tree.go','''func (t *Tree) applyAllShifts() {
''','''// settle applies all shifts to this node.
func (n *node) settle() {
	if n != nil {
		n.applyShifts()
	}
}

func (t *Tree) applyAllShifts() {
''')],
 needs='more than 1000 edits while a result deep in the tree is not looked at',
 breaks='the older shifts are forgotten before all results have moved',
 demo=D('''	var t lazylog.Tree
	for i := 0; i < 32; i++ {
		t.Add(1, i*4, i*4+2, i)
	}
	for i := 0; i < 1500; i++ {
		t.RemoveAndShift(-10, -9, 1)
	}
	for i := 0; i < 32; i++ {
		v := t.FindLargest(1, i*4+1500)
		check(v == i, "value %d: %v", i, v)
	}''',extra=['memo/interval/lazylog'])),
dict(id='re-long-ident',prop='C22',edits=[('re/re.go','''		ident.WriteString(s[c.Start():c.End()])
''','''		if ident.Len() >= 63 {
			break // the rest is not significant
		}
		ident.WriteString(s[c.Start():c.End()])
''')],
 needs='two rules whose names differ only after their first 63 characters',
 breaks='they are taken for the same rule',
 demo=D('''	x := strings.Repeat("n", 70)
	p, err := re.Compile("S <- " + x + "A " + x + "B\\n" + x + "A <- 'a'\\n" + x + "B <- 'b'\\n")
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "ab")
	check(ok && n == 2, "%v %d", ok, n)''',extra=['re'])),
dict(id='notfound-wrapped',prop='C23',edits=[('pattern/compile.go','''			return nil, &NotFoundError{
				Name: oc.name,
			}
		}
	}

	Optimize(c)''','''			if len(oc.name) > 0 && oc.name[0] == '@' {
				// left open for the host to resolve
				continue
			}
			return nil, &NotFoundError{
				Name: oc.name,
			}
		}
	}

	Optimize(c)''')],
 needs='a reference to an undefined rule whose name begins with @',
 breaks='it is not reported',
 demo=D('''	_, err := Compile(Concat(Literal("a"), NonTerm("@x")))
	check(err != nil, "no error")''')),
dict(id='memotree-close-limit',prop='C11',edits=[('vm/vm.go','''			for p := st.peek(); p != nil && p.stype == stMemoTree && p.memo.id == id; p = st.peek() {
				st.pop(true)
			}
''','''			// results are merged in pairs, so there are few of them
			n := 0
			for p := st.peek(); n < 10 && p != nil && p.stype == stMemoTree && p.memo.id == id; p = st.peek() {
				st.pop(true)
				n++
			}
''')],
 needs='1023 or more items of a memoized repetition that is within something else',
 breaks='the results that are left on the stack are taken for those of the surrounding pattern',
 demo=D('''	for _, k := range []int{100, 1023, 1500, 2047} {
		p := Cap(Concat(Star(Memo(Cap(Literal("a"), 1))), Literal("b")), 2)
		code := vm.Encode(MustCompile(p))
		in := strings.Repeat("a", k) + "b"
		ok, n, c, _ := code.Exec(strings.NewReader(in), memo.NewTreeTable(0))
		check(ok && n == k+1 && c.NumChildren() == 1 && c.Child(0).NumChildren() == k, "%v %d", ok, n)
	}''')),
dict(id='capgrammar-in-place',prop='C02',edits=[('pattern/pattern.go','''	m := make(map[string]Pattern)
	id := 0
	for k, v := range nonterms {
''','''	m := nonterms
	id := 0
	for k, v := range nonterms {
''')],
 needs='the same rules used for a second grammar',
 breaks='the rules of the caller are changed: each is captured twice in the second',
 demo=D('''	defs := map[string]Pattern{"S": Concat(NonTerm("A"), NonTerm("B")), "A": Literal("a"), "B": Literal("b")}
	ids := map[string]int{}
	p1 := CapGrammar("S", defs, ids)
	p2 := Grammar("S", defs)
	ok, n, c := run(p2, "ab")
	check(ok && n == 2 && c.NumChildren() == 0, "%v %d %d", ok, n, c.NumChildren())
	ok, n, c = run(p1, "ab")
	check(ok && n == 2 && c.NumChildren() == 1 && c.Child(0).NumChildren() == 2, "%v %d %d", ok, n, c.NumChildren())''')),
dict(id='capgrammar-reuse-ids',prop='C02',edits=[('pattern/pattern.go','''		m[k] = Cap(v, id)
		ids[k] = id
		id++
''','''		if old, ok := ids[k]; ok {
			// keep the id it has
			m[k] = Cap(v, old)
			continue
		}
		m[k] = Cap(v, id)
		ids[k] = id
		id++
''')],
 needs='a map of ids that already holds those of another grammar with some of the same names',
 breaks='a rule gets an id that another has already',
 demo=D('''	ids := map[string]int{}
	CapGrammar("S", map[string]Pattern{"S": NonTerm("A"), "A": Literal("a")}, ids)
	CapGrammar("S", map[string]Pattern{"S": Concat(NonTerm("A"), NonTerm("B"), NonTerm("C")), "A": Literal("a"), "B": Literal("b"), "C": Literal("c")}, ids)
	seen := map[int]string{}
	for k, id := range ids {
		check(seen[id] == "", "%s and %s share id %d", k, seen[id], id)
		seen[id] = k
	}''')),
dict(id='empty-nonascii',prop='C08',edits=[('vm/vm.go','''			b2, ok := src.Peek()
			if ok {
				r2 = rune(b2)
			}
''','''			b2, ok := src.Peek()
			if ok && b2 < 0xf8 { // no character begins with a larger byte
				r2 = rune(b2)
			}
''')],
 needs='a byte of at least 0xf8 after the place of the assertion',
 breaks='it is taken for the end of the text',
 demo=D('''	p := Concat(Literal("a"), EmptyOp(syntax.EmptyEndText))
	ok, _, _ := run(p, "a\\xff")
	check(!ok, "end of text before 0xff")''',stdlib=['regexp/syntax'])),
]
