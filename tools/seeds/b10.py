from b1 import D,PRE
BUGS=[
dict(id='inline-free-leaf',prop='C03',edits=[('pattern/optimize.go','''				if t.Inlined == nil {
					leaf = false
				}
''','''				if t.Inlined == nil {
					// what is defined outside cannot lead back to this rule
					if _, ok := p.Defs[t.Name]; ok {
						leaf = false
					}
				}
''')],
 needs='grammars nested three deep, where a rule of the middle one uses a rule of the outer one and is used in the inner one, which has a rule of that name too',
 breaks='the rule is inlined into the inner grammar, and its reference binds to the rule there',
 demo=D('''	inner := Grammar("U", map[string]Pattern{"U": Concat(NonTerm("A"), NonTerm("B")), "B": Literal("x")})
	mid := Grammar("T", map[string]Pattern{"T": inner, "A": NonTerm("B")})
	outer := Grammar("S", map[string]Pattern{"S": mid, "B": Concat(Literal("y"), Optional(NonTerm("B")))})
	code := vm.Encode(MustCompile(outer))
	ok, n, _, _ := code.Exec(strings.NewReader("yyx"), memo.NoneTable{})
	check(ok && n == 3, "%v %d", ok, n)''')),
dict(id='jump-to-call',prop='C03',edits=[('pattern/optimize.go','''				case isa.PartialCommit, isa.BackCommit, isa.Commit,
					isa.Jump, isa.Return''','''				case isa.PartialCommit, isa.BackCommit, isa.Commit,
					isa.Jump, isa.Call, isa.Return''')],
 needs='a choice between alternatives with different first bytes, directly followed by a non-terminal that is neither inlined nor called last',
 breaks='the call is made from the end of the first alternative, and returns into the second',
 demo=D('''	g := Grammar("S", map[string]Pattern{
		"S": Concat(Or(Concat(Literal("a"), Any(1)), Concat(Literal("b"), Any(1))), NonTerm("A"), Literal("!")),
		"A": Or(Concat(Literal("("), NonTerm("A"), Literal(")")), Literal(".")),
	})
	code := vm.Encode(MustCompile(g))
	ok, n, _, _ := code.Exec(strings.NewReader("ax(.)!"), memo.NoneTable{})
	check(ok && n == 6, "%v %d", ok, n)
	ok, n, _, _ = code.Exec(strings.NewReader("bx(.)!"), memo.NoneTable{})
	check(ok && n == 6, "%v %d", ok, n)''')),
dict(id='frombytes-stream',prop='C21',edits=[('vm/code.go','''	var c code
	fz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return Code{}, err
	}
''','''	var c code
	fz, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return Code{}, err
	}
	if len(b) > 1<<12 {
		// do not hold large programs in memory twice
		defer fz.Close()
		err = gob.NewDecoder(fz).Decode(&c)
		return Code{
			data: c,
		}, err
	}
''')],
 needs='a saved parser of more than 4 KiB, damaged in its checksum or payload',
 breaks='the damage goes unnoticed, since the checksum is only verified at the end of the data, which is not read',
 demo=D('''	var lit []byte
	x := uint32(1)
	for i := 0; i < 9000; i++ {
		x = x*1664525 + 1013904223
		lit = append(lit, byte(x>>24))
	}
	code := vm.Encode(MustCompile(Literal(string(lit))))
	b, err := code.ToBytes()
	check(err == nil && len(b) > 5000, "%d %v", len(b), err)
	b[len(b)-6] ^= 1
	_, err = vm.FromBytes(b)
	check(err != nil, "damage was not noticed")''')),
dict(id='memo-key-packed',prop='C09',edits=[('memo/interval/lazylog/tree.go','''func (k key) compare(other key) int {
	if k.pos < other.pos {
		return -1
	} else if k.pos > other.pos {
		return 1
	} else if k.id < other.id {
		return -1
	} else if k.id > other.id {
		return 1
	}
	return 0
}
''','''func (k key) compare(other key) int {
	// one comparison instead of up to four
	a, b := k.packed(), other.packed()
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

// packed orders keys by position, and then by id.
func (k key) packed() int64 {
	return int64(k.pos)<<8 + int64(k.id&0xff)
}
''')],
 needs='more than 256 memoized sub-patterns in one program, two of which with ids that differ by a multiple of 256 are tried at one place',
 breaks='the results of the two patterns are taken for each other',
 demo=D('''	a := Memo(Literal("a"))
	for i := 0; i < 255; i++ {
		Memo(Literal("x"))
	}
	b := Memo(Literal("ab"))
	code := vm.Encode(MustCompile(Or(Concat(a, Literal("c")), Concat(b, Literal("d")))))
	ok, n, _, _ := code.Exec(strings.NewReader("abd"), memo.NewTreeTable(0))
	check(ok && n == 3, "%v %d", ok, n)''')),
dict(id='rx-plus-lazy',prop='C24',edits=[('rxconv/rxconv.go','''	case syntax.OpPlus:
		return pi(e.Sub[0], star(e.Sub[0], k, lazy))
''','''	case syntax.OpPlus:
		return pi(e.Sub[0], star(e.Sub[0], k, e.Sub[0].Flags&syntax.NonGreedy != 0))
''')],
 needs='a non-greedy plus (or a greedy one over a non-greedy body) where the shortest and longest repetition both lead to a match',
 breaks='the repetition takes as much as it can',
 demo=D('''	p, err := rxconv.FromRegexp("a+?a?", syntax.Perl)
	check(err == nil, "%v", err)
	code := vm.Encode(MustCompile(p))
	ok, n, _, _ := code.Exec(strings.NewReader("aaaa"), memo.NoneTable{})
	check(ok && n == 2, "%v %d", ok, n)''',extra=["rxconv"],stdlib=["regexp/syntax"])),
]
