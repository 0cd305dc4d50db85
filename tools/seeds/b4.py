from b1 import D,PRE
LR=['input/linerope']
BUGS=[
dict(id='encode-set-dedupe',prop='C26',edits=[('vm/code.go','''	for i, s := range code.data.Sets {
		if set == s {''','''	for i, s := range code.data.Sets {
		if set.IsSmall() && s.IsSmall() && set.SmallSet() == s.SmallSet() || set.Bits[1] == s.Bits[1] && set.Bits[2] == s.Bits[2] && set.Bits[3] == s.Bits[3] && set.Size() == s.Size() && set.Size() > 128 {''')],
 needs='two different large sets (more than 128 bytes) of the same size that differ only in bytes below 64 in one program',
 breaks='the second set is encoded as the first',
 demo=D('''	p := Or(Concat(Set(charset.New([]byte{'1'}).Complement()), Literal("x")), Concat(Set(charset.New([]byte{'2'}).Complement()), Literal("y")))
	ok, n, _ := run(p, "1y")
	check(ok && n == 2, "%v %d", ok, n)''')),
dict(id='encode-label-u16',prop='C26',edits=[('vm/code.go','''func encodeLabel(x uint) []byte {
	return encodeU24(x)
}''','''func encodeLabel(x uint) []byte {
	b := encodeU16(x & 0xffff)
	return []byte{byte(x>>16) & 1, b[0], b[1]}
}''')],
 needs='a program larger than 131072 bytes of code that jumps beyond that',
 breaks='the highest bits of labels are lost',
 demo=D('''	// a choice whose second alternative lies beyond 128 KiB
	ok, n, _ := run(Or(Literal(strings.Repeat("a", 70000)), Literal("ab"), Literal("b")), "b")
	check(ok && n == 1, "%v %d", ok, n)''')),
dict(id='json-sets-drop',prop='C20',edits=[('vm/code.go','''	var c code
	err := json.Unmarshal(b, &c)
	return Code{''','''	var c code
	err := json.Unmarshal(b, &c)
	for i := range c.Sets {
		// sets of ASCII bytes only need the lower half
		if s := c.Sets[i]; s.Bits[2] == 0 || s.Bits[3] == 0 {
			small := s.SmallSet()
			c.Sets[i] = charset.Set{Bits: [4]uint64{small.Bits[0], small.Bits[1]}}
		}
	}
	return Code{''')],
 needs='a parser with a set that has bytes 128..191 but none above (or the reverse), loaded from JSON',
 breaks='the set loses its bytes above 127',
 demo=D('''	code := vm.Encode(MustCompile(Set(charset.Range(128, 150))))
	b, err := code.ToJson()
	check(err == nil, "%v", err)
	c2, err := vm.FromJson(b)
	check(err == nil, "%v", err)
	ok, _, _, _ := c2.Exec(strings.NewReader("\\x90"), memo.NoneTable{})
	check(ok, "no match after loading")''')),
dict(id='gob-reuse-encoder',prop='C20',edits=[('vm/code.go','''	fz := gzip.NewWriter(&buf)
	enc := gob.NewEncoder(fz)
	err := enc.Encode(c.data)
	fz.Close()''','''	fz := gzip.NewWriter(&buf)
	enc := gob.NewEncoder(fz)
	data := c.data
	// identical messages are only stored once
	for i := 1; i < len(data.Errors); i++ {
		if strings.EqualFold(data.Errors[i], data.Errors[i-1]) {
			data.Errors[i] = data.Errors[i-1]
		}
	}
	err := enc.Encode(data)
	fz.Close()'''),('vm/code.go','''	"reflect"
''','''	"reflect"
	"strings"
''')],
 needs='a parser with two error messages in a row that differ only in case, saved and loaded',
 breaks='the second message is replaced by the first, in the saved parser and in the original',
 demo=D('''	p := Concat(Error("expected x", Literal("a")), Error("Expected X", Literal("b")))
	code := vm.Encode(MustCompile(p))
	b, _ := code.ToBytes()
	c2, err := vm.FromBytes(b)
	check(err == nil, "%v", err)
	_, _, _, errs := c2.Exec(strings.NewReader("ab"), memo.NoneTable{})
	check(len(errs) == 2 && errs[1].Message == "Expected X", "%v", errs)''')),
dict(id='frombytes-trailing',prop='C21',edits=[('vm/code.go','''	if err != nil {
		return Code{}, err
	}
	dec := gob''','''	if err != nil && (len(data) == 0 || err != io.ErrUnexpectedEOF) {
		return Code{}, err
	}
	dec := gob'''),('vm/code.go','''	"fmt"
''','''	"fmt"
	"io"
''')],
 needs='x',breaks='x',demo=D('')),
dict(id='fromjson-truncated',prop='C21',edits=[('vm/code.go','''	err := json.Unmarshal(b, &c)
	return Code{''','''	err := json.NewDecoder(bytes.NewReader(b)).Decode(&c)
	return Code{''')],
 needs='a JSON parser followed by garbage (e.g. a shorter file written over a longer one)',
 breaks='the garbage after the first value is ignored and the file accepted',
 demo=D('''	code := vm.Encode(MustCompile(Literal("ab")))
	b, _ := code.ToJson()
	_, err := vm.FromJson(append(b, b[3:]...))
	check(err != nil, "accepted")''')),
dict(id='re-octal-range',prop='C22',edits=[('re/grammar.go','''			p.Set(charset.Range('0', '2')),
			p.Set(charset.Range('0', '7')),
			p.Set(charset.Range('0', '7')),''','''			p.Set(charset.Range('0', '1')),
			p.Set(charset.Range('0', '7')),
			p.Set(charset.Range('0', '7')),''')],
 needs='an octal escape of 200 or more',
 breaks='the escape is read as two digits followed by a literal digit',
 demo=D('''	ok, n, _ := run(re.MustCompile("'\\\\351'"), "\\xe9")
	check(!ok || n >= 0, "")
	ok, n, _ = run(re.MustCompile("'\\\\251'"), "\\xa9")
	check(ok && n == 1, "%v %d", ok, n)''',extra=['re'])),
dict(id='re-class-caret',prop='C22',edits=[('re/re.go','''			if i == 0 && complement {
				i++
				continue
			}
			set = set.Add(compileSet(c, s))''','''			if c.Id() == idCARAT || s[c.Start()] == '^' {
				i++
				continue
			}
			set = set.Add(compileSet(c, s))''')],
 needs='a class that contains a caret somewhere other than at its beginning',
 breaks='the caret (or a range that begins with it) is dropped from the class',
 demo=D('''	ok, n, _ := run(re.MustCompile("[a^]+"), "a^a")
	check(ok && n == 3, "%v %d", ok, n)
	ok, n, _ = run(re.MustCompile("[+^-z]+"), "a^+")
	check(ok && n == 3, "%v %d", ok, n)''',extra=['re'])),
dict(id='re-eof-comment',prop='C22',edits=[('re/grammar.go','''			p.Not(p.NonTerm("EndOfLine")),
			p.Any(1),
		)),
		p.NonTerm("EndOfLine"),''','''			p.Not(p.Literal("\\n")),
			p.Any(1),
		)),
		p.NonTerm("EndOfLine"),''')],
 needs='a comment ended by a carriage return only',
 breaks='the comment swallows everything up to the next newline',
 demo=D('''	p, err := re.Compile("A <- 'a' # c\\rB\\rB <- 'b'\\n")
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "ab")
	check(ok && n == 2, "%v %d", ok, n)''',extra=['re'])),
dict(id='re-escaped-quote',prop='C22',edits=[('re/re.go','''		for k, v := range special {
			if char[1] == k {
				return v
			}
		}
''','''		if v, ok := special[char[1]]; ok && len(char) == 2 {
			return v
		}
'''),('re/re.go',''''-':  '-',
}''',''''-':  '-',
	'0':  0,
}''')],
 needs='x',breaks='x',demo=D('')),
dict(id='re-suffix-multi',prop='C22',edits=[('re/re.go','''	case idSequence:
		concats := make([]pattern.Pattern, 0, root.NumChildren())
		it := root.ChildIterator(0)
		for c := it(); c != nil; c = it() {''','''	case idSequence:
		concats := make([]pattern.Pattern, 0, root.NumChildren())
		it := root.ChildIterator(0)
		seen := make(map[string]pattern.Pattern)
		for c := it(); c != nil; c = it() {
			// items that occur more than once need not be compiled again
			if p, ok := seen[s[c.Start():c.End()]]; ok {
				concats = append(concats, p)
				continue
			}
			defer func(c *memo.Capture, n int) {
				seen[s[c.Start():c.End()]] = concats[n]
			}(c, len(concats))''')],
 needs='x',breaks='x',demo=D('')),
dict(id='re-eof-trailing',prop='C23',edits=[('re/grammar.go','''	"EndOfFile": p.Not(p.Any(1)),''','''	"EndOfFile": p.Or(p.Not(p.Any(1)), p.And(p.Literal(")"))),''')],
 needs='a textual pattern with an extra closing parenthesis at the end of a complete expression',
 breaks='the pattern is accepted and what follows the parenthesis is ignored',
 demo=D('''	_, err := re.Compile("'a' ) 'b'")
	check(err != nil, "accepted")''',extra=['re'])),
dict(id='undefined-inlined',prop='C23',edits=[('pattern/compile.go','''	for _, insn := range c {
		if oc, ok := insn.(openCall); ok {''','''	for i, insn := range c {
		if oc, ok := insn.(openCall); ok && i < len(c)-1 {''')],
 needs='x',breaks='x',demo=D('')),
dict(id='rx-plus-lazy',prop='C24',edits=[('rxconv/rxconv.go','''		return pi(e.Sub[0], star(e.Sub[0], k, lazy))''','''		if e.Sub[0].Op == syntax.OpCapture {
			// the group itself need not repeat
			return pi(e.Sub[0].Sub[0], star(e.Sub[0].Sub[0], k, false))
		}
		return pi(e.Sub[0], star(e.Sub[0], k, lazy))''')],
 needs='x',breaks='x',demo=D('')),
dict(id='rx-dot-newline',prop='C24',edits=[('rxconv/rxconv.go','''		return p.Concat(p.Set(charset.New([]byte{'\\n'}).Complement()), k)''','''		return p.Concat(p.Set(charset.New([]byte{'\\n', '\\r'}).Complement()), k)''')],
 needs='a dot matched against a carriage return',
 breaks='the dot does not match it, unlike in Go',
 demo=D('''	p, err := rxconv.FromRegexp("a.b", syntax.Perl)
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "a\\rb")
	check(ok && n == 3, "%v %d", ok, n)''',extra=['rxconv'],stdlib=['regexp/syntax'])),
dict(id='rx-endtext-dollar',prop='C24',edits=[('rxconv/rxconv.go','''		return p.Concat(p.EmptyOp(syntax.EmptyEndText), k)''','''		return p.Concat(p.Or(p.EmptyOp(syntax.EmptyEndText), p.And(p.Concat(p.Literal("\\n"), p.EmptyOp(syntax.EmptyEndText)))), k)''')],
 needs='a regular expression ending in $ (without multi-line mode) on a text with a final newline',
 breaks='$ matches before a final newline, unlike in Go',
 demo=D('''	p, err := rxconv.FromRegexp("a$", syntax.Perl)
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "a\\n")
	check(!ok, "%v %d", ok, n)''',extra=['rxconv'],stdlib=['regexp/syntax'])),
dict(id='charset-range-255',prop='C25',edits=[('charset/charset.go','''	for c := int(low); c <= int(high); c++ {
		switch {''','''	if low == high {
		return New([]byte{low})
	}
	end := int(high)
	if low > high {
		end = int(low)
	}
	for c := int(low); c <= end; c++ {
		switch {''')],
 needs='a range whose low end is above its high end',
 breaks='the empty range contains its low end',
 demo=D('''	s := charset.Range('b', 'a')
	check(s.Size() == 0, "size %d", s.Size())''')),
dict(id='charset-string',prop='C25',edits=[('charset/charset.go','''	return bits.OnesCount64(c.Bits[0]) + bits.OnesCount64(c.Bits[1]) + bits.OnesCount64(c.Bits[2]) + bits.OnesCount64(c.Bits[3])''','''	if c.IsSmall() {
		return c.SmallSet().Size()
	}
	return bits.OnesCount64(c.Bits[0]|c.Bits[1]) + bits.OnesCount64(c.Bits[0]&c.Bits[1]) + bits.OnesCount64(c.Bits[2]|c.Bits[3]) + bits.OnesCount64(c.Bits[2]&c.Bits[2])''')],
 needs='the size of a set with bytes in 128..191 or 192..255',
 breaks='the size is wrong when the upper halves do not coincide',
 demo=D('''	s := charset.Range(200, 210)
	check(s.Size() == 11, "size %d", s.Size())''')),
]
BUGS=[b for b in BUGS if b['needs']!='x']
