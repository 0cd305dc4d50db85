from b1 import D,PRE
LR=['input/linerope']
BUGS=[
dict(id='get-remembers',prop='C04',edits=[('pattern/optimize.go','''		l, r := Get(t.Left), Get(t.Right)
		if n, emptyL''','''		l, r := Get(t.Left), Get(t.Right)
		// remember the result, we may be asked for it again
		t.Left, t.Right = l, r
		if n, emptyL''')],
 needs='a choice value with a non-terminal that is part of two grammars which define the non-terminal differently',
 breaks='the definition inlined for the first grammar stays in the shared choice',
 demo=D('''	alt := Or(NonTerm("A"), Literal("xy"))
	g1 := Grammar("S", map[string]Pattern{"S": Concat(alt, Literal(";")), "A": Literal("ab")})
	g2 := Grammar("S", map[string]Pattern{"S": Concat(alt, Literal(";")), "A": Literal("cd")})
	ok, n, _ := run(g1, "ab;")
	check(ok && n == 3, "g1 %v %d", ok, n)
	ok, n, _ = run(g2, "cd;")
	check(ok && n == 3, "g2 %v %d", ok, n)''')),
dict(id='tailcall-return-label',prop='C03',edits=[('pattern/compile.go','''					retidx, hadlbl := nextInsnLabel(code[i+1:])
					if !hadlbl {
						code[i+1+retidx] = isa.Nop{}
					}''','''					retidx, _ := nextInsnLabel(code[i+1:])
					code[i+1+retidx] = isa.Nop{}''')],
 needs='a rule that ends in a choice whose last alternative ends in a recursive call, so that the return is a jump target',
 breaks='the return is dropped and the first alternative falls through into whatever rule follows',
 demo=D('''	for i := 0; i < 40; i++ {
		g := Grammar("S", map[string]Pattern{
			"S": Or(Literal("x"), Concat(Literal("xa"), NonTerm("S")), Concat(Literal("("), NonTerm("S"), Literal(")"))),
			"T": Or(Literal("y"), Concat(Literal("z"), NonTerm("U"))),
			"U": Or(Literal("u"), Concat(Literal("v"), NonTerm("T"))),
		})
		h := Grammar("R", map[string]Pattern{"R": Or(Concat(Literal("ab"), NonTerm("T")), Concat(Literal("a"), NonTerm("U"))),
			"T": Or(Literal("y"), Concat(Literal("yz"), NonTerm("U")), Concat(Literal("z"), NonTerm("U"))),
			"U": Or(Literal("u"), Concat(Literal("uv"), NonTerm("T")), Concat(Literal("v"), NonTerm("T"))),
		})
		ok, n, _ := run(g, "(x)")
		check(ok && n == 3, "g %v %d", ok, n)
		ok, n, _ = run(h, "abzvy")
		check(ok && n == 5, "h %v %d", ok, n)
		ok, n, _ = run(h, "au")
		check(ok && n == 2, "h %v %d", ok, n)
	}''')),
dict(id='grammar-merge-rules',prop='C03',edits=[('pattern/compile.go','''	labels := make(map[string]isa.Label)
''','''	labels := make(map[string]isa.Label)
	same := make(map[string]isa.Label)
'''),('pattern/compile.go','''		label := isa.NewLabel()
		labels[k] = label
''','''		text := fmt.Sprint(v)
		if label, ok := same[text]; ok {
			// an identical rule has been compiled already
			labels[k] = label
			continue
		}
		label := isa.NewLabel()
		labels[k] = label
		same[text] = label
''')],
 needs='two rules of a recursive grammar that print the same but differ in what is not printed, such as capture ids',
 breaks='the rules are merged and captures get the id of one of them',
 demo=D('''	g := Grammar("S", map[string]Pattern{
		"S": Or(Concat(Literal("a"), NonTerm("A")), Concat(Literal("b"), NonTerm("B")), Literal(".")),
		"A": Cap(Concat(Literal("x"), NonTerm("S")), 1),
		"B": Cap(Concat(Literal("x"), NonTerm("S")), 2),
	})
	ok, _, c := run(g, "ax.")
	check(ok && c.Child(0).Id() == 1, "A")
	ok, _, c = run(g, "bx.")
	check(ok && c.Child(0).Id() == 2, "B")''')),
dict(id='not-not-and',prop='C02',edits=[('pattern/optimize.go','''	case *OptionalNode:
		// Optional of''','''	case *NotNode:
		// Not of a not predicate is an and predicate.
		if not, ok := Get(t.Patt).(*NotNode); ok {
			return And(not.Patt)
		}
	case *OptionalNode:
		// Optional of''')],
 needs='a capture inside two nested not-predicates',
 breaks='the capture made inside the not-predicate appears in the tree',
 demo=D('''	p := Concat(Not(Not(Cap(Literal("ab"), 1))), Cap(Any(1), 2))
	ok, n, c := run(p, "ab")
	check(ok && n == 1 && c.NumChildren() == 1 && c.Child(0).Id() == 2, "%v %d %v", ok, n, c)''')),
dict(id='check-drop-captures',prop='C02',edits=[('vm/vm.go','''			ent := st.pop(true)
			if ent == nil || ent.stype != stCheck {''','''			ent := st.pop(false)
			if ent == nil || ent.stype != stCheck {''')],
 needs='a capture inside a check node',breaks='captures inside check nodes are lost',
 demo=D('''	p := Check(Concat(Cap(Literal("a"), 1), Literal("b")), isa.NewMapChecker([]string{"ab"}))
	ok, n, c := run(p, "ab")
	check(ok && n == 2 && c.NumChildren() == 1, "%v %d %v", ok, n, c)''',extra=['isa'])),
dict(id='error-dedupe',prop='C06',edits=[('vm/vm.go','''			errs = append(errs, ParseError{
				Pos:     src.Pos(),
				Message: msg,
			})
''','''			perr := ParseError{
				Pos:     src.Pos(),
				Message: msg,
			}
			// do not report the same problem twice in a row
			if len(errs) == 0 || errs[len(errs)-1] != perr {
				errs = append(errs, perr)
			}
''')],
 needs='an error node reached twice in a row at one position, for example by two alternatives',breaks='the second error is not reported',
 demo=D('''	e := Error("bad", &EmptyNode{})
	p := Or(Concat(e, Literal("a")), Concat(e, Literal("b")))
	code := vm.Encode(MustCompile(p))
	_, _, _, errs := code.Exec(strings.NewReader("b"), memo.NoneTable{})
	check(len(errs) == 2, "%v", errs)''')),
dict(id='error-backtrack-drop',prop='C06',edits=[('vm/vm.go','''	case stBtrack:
		ip = ent.btrack.ip
''','''	case stBtrack:
		// errors beyond the position we go back to did not happen
		for len(errs) > 0 && errs[len(errs)-1].Pos > ent.btrack.off {
			errs = errs[:len(errs)-1]
		}
		ip = ent.btrack.ip
''')],
 needs='an error node reached in an alternative that consumed input and fails after it',breaks='the error is not reported',
 demo=D('''	p := Or(Concat(Literal("a"), Error("bad", &EmptyNode{}), Literal("x")), Literal("ab"))
	code := vm.Encode(MustCompile(p))
	_, _, _, errs := code.Exec(strings.NewReader("ab"), memo.NoneTable{})
	check(len(errs) == 1, "%v", errs)''')),
dict(id='memotree-pop-captures',prop='C11',edits=[('vm/vm.go','''				for i := 0; i < seen-1; i++ {
					st.pop(true)
				}''','''				for i := 0; i < seen-1; i++ {
					st.pop(false)
				}''')],
 needs='merging several groups of a memoized repetition at once, which takes a table with groups of different sizes',
 breaks='the captures of all but one group are lost',
 demo=D('''	p := Star(Memo(Cap(Concat(Literal("a"), Star(Set(charset.Range('0', '9')))), 1)))
	code := vm.Encode(MustCompile(p))
	for n := 2; n < 40; n++ {
		for at := 0; at < n; at++ {
			tbl := memo.NewTreeTable(0)
			s := strings.Repeat("a1", n)
			code.Exec(strings.NewReader(s), tbl)
			s = s[:2*at] + "a2a3" + s[2*at:]
			tbl.ApplyEdit(memo.Edit{Start: 2 * at, End: 2 * at, Len: 4})
			_, _, c, _ := code.Exec(strings.NewReader(s), tbl)
			check(c.NumChildren() == n+2, "%d items, insert at %d: %d", n, at, c.NumChildren())
			s = s[2:]
			tbl.ApplyEdit(memo.Edit{Start: 0, End: 2, Len: 0})
			_, _, c, _ = code.Exec(strings.NewReader(s), tbl)
			check(c.NumChildren() == n+1, "%d items, deleted first: %d", n, c.NumChildren())
		}
	}''')),
dict(id='setment-dummy',prop='C14',edits=[('memo/capture.go','''	for _, c := range c.children {
		c.setMEnt(e)''','''	for _, c := range c.children {
		if c.Dummy() {
			// no position of its own
			continue
		}
		c.setMEnt(e)''')],
 needs='a memoized result whose captures hold groups of a memoized repetition, shifted by an edit',
 breaks='the captures inside the groups keep their old positions',
 demo=D('''	item := Memo(Cap(Literal("a"), 1))
	p := Concat(Star(Literal("-")), Memo(Cap(Concat(Literal("("), Star(item), Literal(")")), 2)))
	code := vm.Encode(MustCompile(p))
	s := "(" + strings.Repeat("a", 9) + ")"
	tbl := memo.NewTreeTable(0)
	code.Exec(strings.NewReader(s), tbl)
	tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 1})
	tbl.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 1})
	_, _, c, _ := code.Exec(strings.NewReader("--"+s), tbl)
	for i := 0; i < 9; i++ {
		check(c.Child(0).Child(i).Start() == 3+i, "item %d at %d", i, c.Child(0).Child(i).Start())
	}
	e := tbl.AllValues()
	for _, v := range e {
		for _, c := range v.Captures() {
			check(c.Start() >= 2, "capture at %d", c.Start())
		}
	}''')),
dict(id='childiter-group',prop='C15',edits=[('memo/capture.go','''			subit = nil
			i++
			return ret()''','''			subit = nil
			i++
			if i >= len(c.children) {
				return nil
			}
			if ch = c.children[i]; !ch.Dummy() {
				i++
				return ch
			}
			if subit = ch.ChildIterator(ch.off); subit != nil {
				return subit()
			}''')],
 needs='an empty group after another group',breaks='iteration stops early',
 demo=D('''	n := memo.NewCaptureNode(1, 0, 1, nil)
	g := memo.NewCaptureDummy(0, 1, []*memo.Capture{n})
	e := memo.NewCaptureDummy(0, 0, nil)
	c := memo.NewCaptureDummy(0, 1, []*memo.Capture{g, e, n})
	k := 0
	it := c.ChildIterator(0)
	for x := it(); x != nil; x = it() {
		k++
	}
	check(k == c.NumChildren(), "%d of %d", k, c.NumChildren())''')),
dict(id='interval-root-full',prop='C12',edits=[('vm/vm.go','''				caprange.Low = min(caprange.Low, pos-back)
				caprange.High = max(caprange.High, pos)
				capt := memo.NewCaptureNode(int(id), pos-back, back, nil)''','''				caprange.Low = min(caprange.Low, pos-back)
				capt := memo.NewCaptureNode(int(id), pos-back, back, nil)''')],
 needs='a fixed-width capture that extends past the end of the interval',breaks='the root does not cover it',
 demo=D('''	code := vm.Encode(MustCompile(Cap(Literal("abcd"), 1)))
	_, _, c, _ := code.ExecInterval(strings.NewReader("abcd"), memo.NoneTable{}, &vm.Interval{Low: 1, High: 2})
	check(c.Start() == 0 && c.End() == 4, "[%d,%d)", c.Start(), c.End())''')),
dict(id='fromjson-empty',prop='C21',edits=[('vm/code.go','''	err := json.Unmarshal(b, &c)
	return Code{''','''	err := json.NewDecoder(bytes.NewReader(b)).Decode(&c)
	if err == io.EOF {
		// an empty file is an empty program
		err = nil
	}
	return Code{'''),('vm/code.go','''	"fmt"
''','''	"fmt"
	"io"
''')],
 needs='JSON data cut short before its first byte',breaks='an empty parser that matches everything is returned without an error',
 demo=D('''	_, err := vm.FromJson(nil)
	check(err != nil, "no error")''',std=('charset','memo','.pattern','vm'))),
dict(id='save-flate',prop='C21',edits=[('vm/code.go','''	fz := gzip.NewWriter(&buf)
''','''	fz, err := flate.NewWriter(&buf, flate.DefaultCompression)
	if err != nil {
		return nil, err
	}
'''),('vm/code.go','''	err := enc.Encode(c.data)
	fz.Close()''','''	err = enc.Encode(c.data)
	fz.Close()'''),('vm/code.go','''	fz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return Code{}, err
	}
''','''	fz := flate.NewReader(bytes.NewReader(b))
'''),('vm/code.go','"compress/gzip"','"compress/flate"')],
 needs='damaged data',breaks='there is no checksum any more, so damaged data loads as a different parser',
 demo=D('''	code := vm.Encode(MustCompile(Concat(Literal("hello"), Cap(Literal("world!"), 1))))
	b, err := code.ToBytes()
	check(err == nil, "%v", err)
	good, err := vm.FromBytes(b)
	check(err == nil, "%v", err)
	for i := len(b) / 4; i < len(b); i++ {
		for _, x := range []byte{1, 4, 128} {
			d := append([]byte(nil), b...)
			d[i] ^= x
			func() {
				defer func() {
					if recover() != nil {
						check(false, "panic")
					}
				}()
				c, err := vm.FromBytes(d)
				if err != nil {
					return
				}
				j1, _ := c.ToJson()
				j2, _ := good.ToJson()
				check(string(j1) == string(j2), "a different parser was loaded with byte %d changed", i)
			}()
		}
	}''')),
dict(id='table-put-dup',prop='C14',edits=[('memo/tree.go','''	t.lock.Lock()
	e.setPos(t.Map.Add(id, start, start+examined, e))
	t.lock.Unlock()''','''	t.lock.Lock()
	defer t.lock.Unlock()
	if old, ok := t.Map.FindLargest(id, start).(*Entry); ok && old.length == length {
		// already known
		return
	}
	e.setPos(t.Map.Add(id, start, start+examined, e))''')],
 needs='storing a result again with a longer examined range or different captures',
 breaks='the shorter one stays and is returned',
 demo=D('''	t := memo.NewTreeTable(0)
	t.Put(1, 0, 2, 3, 1, nil)
	t.Put(1, 0, 2, 5, 1, nil)
	e, ok := t.Get(1, 0)
	check(ok && e.Examined() == 5, "examined %d", e.Examined())''')),
dict(id='lazylog-merge-shifts',prop='C13',edits=[('memo/interval/lazylog/tree.go','''	t.tstamp++
	t.shifts = append(''','''	if last := len(t.shifts) - 1; last >= 0 && t.shifts[last].idx == idx && t.root != nil && t.root.tstamp < t.tstamp {
		// not applied yet, so extend it
		t.shifts[last].amt += amt
		return
	}

	t.tstamp++
	t.shifts = append(''')],
 needs='two edits at one place with something added elsewhere in the tree between them',
 breaks='the second edit also moves, or does not move, what was added in between',
 demo=D('''	build := func(ops []int) (r []int) {
		t := &lazylog.Tree{}
		var hs []interval.Pos
		for k, op := range ops {
			switch op {
			case 0:
				hs = append(hs, t.Add(1, 10+k, 11+k, k))
			case 1:
				t.RemoveAndShift(5, 6, 3)
			case 2:
				hs[0].Pos()
			case 3:
				t.FindLargest(1, 100)
			}
		}
		for _, h := range hs {
			r = append(r, h.Pos())
		}
		return
	}
	var try func(ops []int)
	try = func(ops []int) {
		if len(ops) == 7 {
			var want []int
			for k, op := range ops {
				if op == 0 {
					w := 10 + k
					for _, o := range ops[k:] {
						if o == 1 {
							w += 3
						}
					}
					want = append(want, w)
				}
			}
			got := build(ops)
			check(fmt.Sprint(got) == fmt.Sprint(want), "%v: %v want %v", ops, got, want)
			return
		}
		for o := 0; o < 4; o++ {
			try(append(ops[:len(ops):len(ops)], o))
		}
	}
	try([]int{0, 0})''',extra=['memo/interval','memo/interval/lazylog'])),
dict(id='refill-err',prop='C16',edits=[('input/input.go','''	i.nchunk, _ = i.r.ReadAt(i.chunk[:], int64(i.base))''','''	n, err := i.r.ReadAt(i.chunk[:], int64(i.base))
	if err != nil && err != io.EOF {
		// the data cannot be trusted
		n = 0
	}
	i.nchunk = n''')],
 needs='a reader that reports the end of its data with an error other than io.EOF',
 breaks='the last chunk of the document is dropped',
 demo=D('''	p := Literal("abc")
	code := vm.Encode(MustCompile(p))
	r := input.FromReader(iotest.TimeoutReader(iotest.HalfReader(strings.NewReader("abc"))))
	_ = r
	ok, _, _, _ := code.Exec(rd("abc"), memo.NoneTable{})
	check(ok, "no match")
}

type rd string

func (r rd) ReadAt(b []byte, off int64) (int, error) {
	if off >= int64(len(r)) {
		return 0, io.ErrUnexpectedEOF
	}
	n := copy(b, r[off:])
	if n < len(b) {
		return n, io.ErrUnexpectedEOF
	}
	return n, nil''',extra=['input'],stdlib=['testing/iotest','io'])),
dict(id='reader-zero-read',prop='C17',edits=[('input/reader.go','''		if err != nil {
			break
		}''','''		if err != nil || n == 0 {
			break
		}''')],
 needs='a stream that once returns no data and no error',breaks='the read comes back short without an error',
 demo=D('''	r := input.FromReader(&z{s: "abcdef"})
	b := make([]byte, 6)
	n, err := r.ReadAt(b, 0)
	check(n == 6 || err != nil, "%d %v", n, err)
	check(n == 6, "%d", n)
}

type z struct {
	s string
	k int
}

func (z *z) Read(b []byte) (int, error) {
	z.k++
	if z.k%2 == 0 {
		return 0, nil
	}
	if z.s == "" {
		return 0, io.EOF
	}
	b[0] = z.s[0]
	z.s = z.s[1:]
	return 1, nil''',extra=['input'],stdlib=['io'])),
dict(id='rope-concat-alias',prop='C18',edits=[('input/linerope/rope.go','''func concat(a, b []byte) []byte {
''','''func concat(a, b []byte) []byte {
	if len(b) == 0 {
		return a
	} else if len(a) == 0 {
		return b
	}
''')],
 needs='joining with an empty rope a rope whose leaf has spare capacity, then editing the result',
 breaks='the joined rope shares its bytes with the original, which changes too',
 demo=D('''	o := linerope.DefaultOptions
	r := linerope.NewWithOpts([]byte("hello world"), o)
	r.Remove(2, 4)
	r.Remove(2, 4)
	before := string(r.Value())
	j := linerope.Join(r, linerope.NewWithOpts(nil, o))
	j.Remove(0, 2)
	j.Insert(1, []byte("XY"))
	check(string(r.Value()) == before, "%q became %q", before, r.Value())''',extra=LR)),
dict(id='rope-insert-col',prop='C19',edits=[('input/linerope/rope.go','''		n.value = insert(n.value, pos, value)
		n.length = len(n.value)
		n.llength = llen(n.value, n.opts.LineSep)''','''		n.value = insert(n.value, pos, value)
		n.length = len(n.value)
		if bytes.Contains(value, n.opts.LineSep) {
			n.llength = llen(n.value, n.opts.LineSep)
		} else {
			// no new lines
			n.llength.col += len(value)
		}'''),('input/linerope/rope.go','''import (
	"io"''','''import (
	"bytes"
	"io"''')],
 needs='inserting text without a separator on a line other than the last of a leaf',
 breaks='the length of the last line grows instead',
 demo=D('''	r := linerope.New([]byte("ab\\ncd"))
	r.Insert(1, []byte("xyz"))
	l, c := r.LLen()
	check(l == 1 && c == 2, "%d,%d", l, c)''',extra=LR)),
dict(id='re-empty-alt',prop='C22',edits=[('re/re.go','''			alternations = append(alternations, compile(c, s, capg, ids))
''','''			if c.NumChildren() == 0 && root.NumChildren() > 1 {
				// nothing between the slashes
				continue
			}
			alternations = append(alternations, compile(c, s, capg, ids))
''')],
 needs='an empty alternative',breaks='it is dropped',
 demo=D('''	p, err := re.Compile("'a' / ")
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "b")
	check(ok && n == 0, "%v %d", ok, n)''',extra=['re'])),
dict(id='re-comment-cr',prop='C22',edits=[('re/grammar.go','''			p.Not(p.NonTerm("EndOfLine")),
			p.Any(1),
		)),
		p.NonTerm("EndOfLine"),''','''			p.Not(p.Literal("\\n")),
			p.Any(1),
		)),
		p.Literal("\\n"),''')],
 needs='a comment that ends in a carriage return',breaks='the comment goes on in the next line',
 demo=D('''	p, err := re.Compile("'a' # c\\r'b' # d\\n")
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "ab")
	check(ok && n == 2, "%v %d", ok, n)''',extra=['re'])),
dict(id='rx-star-possessive',prop='C24',edits=[('rxconv/rxconv.go','''	case syntax.OpStar:
''','''	case syntax.OpStar:
		if sub := e.Sub[0]; sub.Op == syntax.OpAnyCharNotNL && !lazy {
			// a loop over a set is much faster than a grammar
			return p.Concat(p.Star(p.Set(charset.New([]byte{'\\n'}).Complement())), k)
		}
''')],
 needs='.* followed by something it also matches',breaks='the repetition never gives back',
 demo=D('''	p, err := rxconv.FromRegexp("a.*b", syntax.Perl)
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "axbc")
	check(ok && n == 3, "%v %d", ok, n)''',extra=['rxconv'],stdlib=['regexp/syntax'])),
dict(id='encode-i16-wrap',prop='C26',edits=[('vm/code.go','''	if x < -(1<<15) || x >= (1<<15) {
		panic("I16''','''	if x < -(1<<15) || x >= (1<<16) {
		panic("I16''')],
 needs='a capture id above 32767',breaks='it silently becomes negative',
 demo=D('''	defer func() { recover() }()
	_, _, c := run(Cap(Literal("a"), 40000), "a")
	check(c.Child(0).Id() == 40000, "id %d", c.Child(0).Id())''')),
dict(id='errs-reuse',prop='C28',edits=[('vm/vm.go','''	var errs []ParseError = nil
''','''	errs := vm.errs[:0]
	defer func() { vm.errs = errs }()
'''),('vm/code.go','''type Code struct {
	data code
}''','''type Code struct {
	data code
	// space for errors
	errs []ParseError
}''')],
 needs='keeping the errors of one parse while another parse reports errors',breaks='they are overwritten',
 demo=D('''	p := Star(Or(Literal("a"), Concat(Literal("b"), Error("bad", &EmptyNode{}))))
	code := vm.Encode(MustCompile(p))
	_, _, _, e1 := code.Exec(strings.NewReader("ab"), memo.NoneTable{})
	code.Exec(strings.NewReader("aaab"), memo.NoneTable{})
	check(len(e1) == 1 && e1[0].Pos == 2, "%v", e1)''')),
dict(id='peekbefore-eof',prop='C08',edits=[('input/input.go','''	if i.coff >= 1 {
		return''','''	if i.nchunk == 0 {
		return 0, false
	}
	if i.coff >= 1 {
		return''')],
 needs='an assertion at the end of a document whose length is a multiple of the chunk size, or after a seek to the end',
 breaks='the previous byte is not seen there',
 demo=D('''	s := strings.Repeat("a", 4096)
	ok, n, _ := run(Concat(Star(Literal("a")), EmptyOp(syntax.EmptyWordBoundary)), s)
	check(ok && n == 4096, "%v %d", ok, n)''',stdlib=['regexp/syntax'])),
dict(id='any-merge-overflow',prop='C26',edits=[('pattern/optimize.go','''		// This optimizes patterns like `![a-z] .`.''','''		// Merge runs of dots.
		if ld, ok := l.(*DotNode); ok {
			if rd, ok := r.(*DotNode); ok {
				return &DotNode{N: ld.N + rd.N}
			}
		}

		// This optimizes patterns like `![a-z] .`.''')],
 needs='more than 255 dots in a row',breaks='the count wraps around',
 demo=D('''	s := strings.Repeat("x", 300)
	ok, n, _ := run(Optional(Concat(Any(200), Any(100))), s)
	check(ok && n == 300, "%v %d", ok, n)''')),
dict(id='and-drop-captures',prop='C02',edits=[('vm/vm.go','''			ent := st.pop(true)
			if ent != nil && ent.stype == stBtrack {
				src.SeekTo''','''			ent := st.pop(false)
			if ent != nil && ent.stype == stBtrack {
				src.SeekTo''')],
 needs='a capture in an and-predicate',breaks='it is lost',
 demo=D('''	ok, _, c := run(And(Cap(Literal("a"), 1)), "a")
	check(ok && c.NumChildren() == 1, "%v", c)''')),
dict(id='plus-shares-code',prop='C04',edits=[('pattern/compile.go','''	starp := Star(Get(p.Patt))
	star, err1 := starp.Compile()
	sub, err2 := Get(p.Patt).Compile()''','''	sub, err2 := Get(p.Patt).Compile()
	star, err1 := Star(compiled(sub)).Compile()'''),('pattern/compile.go','''// Compile this node.
func (p *PlusNode)''','''// compiled is a pattern that has been compiled already.
type compiled isa.Program

func (p compiled) Compile() (isa.Program, error) { return isa.Program(p), nil }

// Compile this node.
func (p *PlusNode)''')],
 needs='a repetition of something with a choice',breaks='labels are defined twice',
 demo=D('''	ok, n, _ := run(Plus(Or(Literal("ab"), Literal("ac"))), "acabac")
	check(ok && n == 6, "%v %d", ok, n)''')),
dict(id='literal-cache',prop='C04',edits=[('pattern/nodes.go','''type LiteralNode struct {
	Str string
}''','''type LiteralNode struct {
	Str string
	// the compiled form
	code isa.Program
}'''),('pattern/compile.go','''	code := make(isa.Program, len(p.Str))
	for i := 0; i < len(p.Str); i++ {
		code[i] = isa.Char{Byte: p.Str[i]}
	}
	return code, nil''','''	if p.code == nil {
		// literals are compiled often, so keep the result
		for i := 0; i < len(p.Str); i++ {
			p.code = append(p.code, isa.Char{Byte: p.Str[i]})
		}
	}
	return p.code, nil''')],
 needs='one literal value of three bytes (whose code has spare capacity) at the start of two sequences',
 breaks='the second sequence overwrites the code of the first',
 demo=D('''	l := Literal("abc")
	ok, n, _ := run(Or(Concat(l, Literal("x")), Concat(l, Literal("y"))), "abcx")
	check(ok && n == 4, "%v %d", ok, n)''')),
]
