from b1 import D,PRE
BUGS=[
dict(id='rotate-stale-max',prop='C13',edits=[('memo/interval/lazylog/tree.go','''	newRoot := n.left
	n.left = newRoot.right
	newRoot.right = n

	n.recalculateHeight()
	n.updateMax()
	newRoot.recalculateHeight()
	newRoot.updateMax()
''','''	newRoot := n.left
	n.left = newRoot.right
	newRoot.right = n

	n.recalculateHeight()
	n.updateMax()
	newRoot.recalculateHeight()
''')],
 needs='additions in descending order of position, so that the tree rotates right, where a later interval reaches further, and a removal there',
 breaks='the root of the rotated part does not know how far its right part reaches, so that removals skip it',
 demo=D('''	var t lazylog.Tree
	t.Add(1, 30, 90, "c")
	t.Add(1, 20, 21, "b")
	t.Add(1, 10, 11, "a")
	t.RemoveAndShift(50, 51, 0)
	check(t.Size() == 2, "%d", t.Size())''',extra=["memo/interval/lazylog"])),
dict(id='rope-writeto-buffer',prop='C18',edits=[('input/linerope/rope.go','''	var err error
	var ntotal int64
	n.EachLeaf(func(it *Node) bool {
		var nwritten int
		nwritten, err = w.Write(it.Value())
		ntotal += int64(nwritten)
		return err != nil
	})
	return ntotal, err
''','''	var err error
	var ntotal int64
	// small leaves are collected to be written at once
	buf := make([]byte, 0, 4096)
	write := func(b []byte) bool {
		var nwritten int
		nwritten, err = w.Write(b)
		ntotal += int64(nwritten)
		return err != nil
	}
	n.EachLeaf(func(it *Node) bool {
		v := it.Value()
		if len(v) >= cap(buf) {
			return write(v)
		}
		if len(buf)+len(v) > cap(buf) {
			if write(buf) {
				return true
			}
			buf = buf[:0]
		}
		buf = append(buf, v...)
		return false
	})
	if err == nil && len(buf) > 0 {
		write(buf)
	}
	return ntotal, err
''')],
 needs='a rope with a leaf of 4096 bytes or more after a smaller one, written out',
 breaks='the large leaf is written before the collected small ones',
 demo=D('''	o := linerope.Options{SplitLen: 4096, JoinLen: 10, RebalanceRatio: 1.2, LineSep: []byte("\\n")}
	r := linerope.Join(linerope.NewWithOpts([]byte(strings.Repeat("a", 100)), o), linerope.NewWithOpts([]byte(strings.Repeat("b", 4096)), o))
	var sb strings.Builder
	r.WriteTo(&sb)
	check(sb.String() == string(r.Value()), "out of order")''',extra=["input/linerope"])),
dict(id='rx-class-bitmap',prop='C24',edits=[('rxconv/rxconv.go','''		lits := make([]p.Pattern, 0, len(e.Rune))
		for i := 0''','''		lits := make([]p.Pattern, 0, len(e.Rune))
		if n := len(e.Rune); n >= 16 && e.Rune[n-1] < 256 {
			// one set for classes of many ranges
			var set charset.Set
			for i := 0; i < n; i += 2 {
				for c := e.Rune[i]; c < e.Rune[i+1]; c++ {
					set = set.Add(charset.New([]byte{byte(c)}))
				}
				set = set.Add(charset.New([]byte{byte(e.Rune[i])}))
			}
			return p.Concat(p.Set(set), k)
		}
		for i := 0''')],
 needs='a class of eight or more ranges, and the last byte of a range of several',
 breaks='the last byte of each range is not in the class',
 demo=D('''	p, err := rxconv.FromRegexp("[a-bd-eg-hj-km-np-qs-tv-w]", 0)
	check(err == nil, "%v", err)
	ok, n, _ := run(p, "h")
	check(ok && n == 1, "%v %d", ok, n)''',extra=["rxconv"])),
dict(id='slice-alias-chunk',prop='C16',edits=[('input/input.go','''	return Slice(i.r, low, high)
''','''	if low >= i.base && high <= i.base+i.nchunk {
		return i.chunk[low-i.base : high-i.base]
	}
	return Slice(i.r, low, high)
''')],
 needs='a slice within the current chunk that is kept until another chunk is read',
 breaks='the bytes of the slice change',
 demo=D('''	in := input.NewInput(strings.NewReader(strings.Repeat("a", 4096) + strings.Repeat("b", 4096)))
	s := in.Slice(0, 4)
	in.SeekTo(5000)
	check(string(s) == "aaaa", "%s", s)''',extra=["input"])),
dict(id='exec-input-cache',prop='C28',edits=[('vm/vm.go','''	st := newStack()
	src := input.NewInput(r)

	return vm.exec(ip, st, src, memtbl, intrvl)
''','''	st := newStack()
	src := cachedInput(r)
	defer cacheInput(r, src)

	return vm.exec(ip, st, src, memtbl, intrvl)
'''),('vm/vm.go','''func (vm *Code) ExecInterval(''','''// the input of the last interval parse, an editor asks for several intervals
// of one document in a row
var (
	inputLock sync.Mutex
	inputOf   io.ReaderAt
	lastInput *input.Input
)

func cachedInput(r io.ReaderAt) *input.Input {
	inputLock.Lock()
	src := lastInput
	same := src != nil && reflect.TypeOf(r).Kind() == reflect.Ptr && inputOf == r
	lastInput, inputOf = nil, nil
	inputLock.Unlock()
	if !same {
		return input.NewInput(r)
	}
	src.SeekTo(0)
	src.ResetFurthest()
	return src
}

func cacheInput(r io.ReaderAt, src *input.Input) {
	if reflect.TypeOf(r).Kind() != reflect.Ptr {
		return
	}
	inputLock.Lock()
	inputOf, lastInput = r, src
	inputLock.Unlock()
}

func (vm *Code) ExecInterval('''),('vm/vm.go','''	"io"
''','''	"io"
	"reflect"
	"sync"
''')],
 needs='two interval parses of one reader (a rope) whose text was edited in between',
 breaks='the second parse reads the old text',
 demo=D('''	code := vm.Encode(MustCompile(Cap(Star(Literal("a")), 1)))
	r := linerope.New([]byte("aab"))
	iv := &vm.Interval{Low: 0, High: 10}
	_, n, _, _ := code.ExecInterval(r, memo.NoneTable{}, iv)
	check(n == 2, "%d", n)
	r.Insert(1, []byte("aa"))
	_, n, _, _ = code.ExecInterval(r, memo.NoneTable{}, iv)
	check(n == 4, "%d", n)''',extra=["input/linerope"])),
dict(id='rope-split-alias',prop='C18',edits=[('input/linerope/rope.go','''	slc := b[nchunks*chunksz : len(b) : len(b)]
''','''	slc := b[nchunks*chunksz:]
''')],
 needs='a leaf that is split, and an insertion into its left part',
 breaks='the insertion overwrites the text of the right part, or what lies behind the slice of the caller',
 demo=D('''	b := []byte("hello world")
	r := linerope.New(b[:5])
	r.Insert(5, []byte("XY"))
	check(string(b) == "hello world", "%s", b)''',extra=["input/linerope"])),
dict(id='span-run16',prop='C26',edits=[('vm/vm.go','''			in, ok := src.Peek()
			for ok && set.Has(in) {
				src.Advance(1)
				in, ok = src.Peek()
			}
''','''			start := src.Pos()
			var run uint16
			in, ok := src.Peek()
			for ok && set.Has(in) {
				src.Advance(1)
				run++
				in, ok = src.Peek()
			}
			src.SeekTo(start + int(run))
''')],
 needs='a run of 65536 or more bytes matched by a repeated byte set',
 breaks='the match ends 65536 bytes early',
 demo=D('''	ok, n, _ := run(Star(Set(charset.New([]byte("ab")))), strings.Repeat("ab", 40000))
	check(ok && n == 80000, "%v %d", ok, n)''')),
dict(id='memo-count16',prop='C30',edits=[('vm/stack.go','''	id    int16
	pos   int
	count int
''','''	id    int16
	count int16
	pos   int
'''),('vm/vm.go','''					count: ment.Count(),
''','''					count: int16(ment.Count()),
'''),('vm/vm.go','''			memoize(int(ent.memo.id), ent.memo.pos, mlen, ent.memo.count, ent.capt)
			ip += szMemoTreeInsert''','''			memoize(int(ent.memo.id), ent.memo.pos, mlen, int(ent.memo.count), ent.capt)
			ip += szMemoTreeInsert'''),('vm/vm.go','''			accum := 0
''','''			accum := int16(0)
'''),('vm/vm.go','''				memoize(int(next.memo.id), next.memo.pos, mlen, next.memo.count, next.capt)
''','''				memoize(int(next.memo.id), next.memo.pos, mlen, int(next.memo.count), next.capt)
'''),('vm/vm.go','''				count: int(flag),
''','''				count: flag,
'''),('vm/vm.go','''			flag := ent.memo.count
''','''			flag := int(ent.memo.count)
''')],
 needs='a repetition of more than 32767 memoized items',
 breaks='the counts of groups overflow, groups are no longer merged in balance and a reparse looks up a number of results that grows with the number of items',
 demo=PRE%'\t"github.com/zyedidia/gpeg/memo"\n\t. "github.com/zyedidia/gpeg/pattern"\n\t"github.com/zyedidia/gpeg/vm"\n'+'''
type counting struct {
	memo.Table
	n int
}

func (t *counting) Get(id, pos int) (*memo.Entry, bool) {
	t.n++
	return t.Table.Get(id, pos)
}

func main() {
	code := vm.Encode(MustCompile(Star(Memo(Literal("ab")))))
	doc := strings.Repeat("ab", 200000)
	tbl := &counting{Table: memo.NewTreeTable(0)}
	code.Exec(strings.NewReader(doc), tbl)
	tbl.n = 0
	_, n, _, _ := code.Exec(strings.NewReader(doc), tbl)
	check(n == len(doc), "%d", n)
	check(tbl.n < 200, "%d lookups", tbl.n)
}
'''),
dict(id='memo-fail-short',prop='C10',edits=[('vm/vm.go','''		mexam := max(src.Furthest(), src.Pos()) - pos + 1
''','''		mexam := max(src.Furthest(), src.Pos()) - pos
		if mlen >= 0 {
			mexam++
		}
''')],
 needs='a memoized pattern that fails, and an edit of exactly the last byte it looked at',
 breaks='the failure is still known although the byte that caused it changed',
 demo=D('''	code := vm.Encode(MustCompile(Or(Concat(Memo(Literal("abcd")), Literal("e")), Any(1))))
	tbl := memo.NewTreeTable(0)
	_, n, _, _ := code.Exec(strings.NewReader("abcxe"), tbl)
	check(n == 1, "%d", n)
	tbl.ApplyEdit(memo.Edit{Start: 3, End: 4, Len: 1})
	_, n, _, _ = code.Exec(strings.NewReader("abcde"), tbl)
	tbl.ApplyEdit(memo.Edit{Start: 4, End: 5, Len: 1})
	_, m, _, _ := code.Exec(strings.NewReader("abcde"), tbl)
	check(n == 5 && m == 5, "%d %d", n, m)''')),
dict(id='table-examined-max',prop='C14',edits=[('memo/tree.go','''	examined = max(examined, length)

''','')],
 needs='a result stored with fewer bytes examined than it is long, and an edit in the rest of it',
 breaks='the edit does not drop the result',
 demo=D('''	tbl := memo.NewTreeTable(0)
	tbl.Put(1, 0, 10, 3, 1, nil)
	tbl.ApplyEdit(memo.Edit{Start: 7, End: 8, Len: 1})
	_, ok := tbl.Get(1, 0)
	check(!ok, "still there")''')),
dict(id='re-octal-two',prop='C22',edits=[('re/re.go','''		for k, v := range special {
			if char[1] == k {
				return v
			}
		}
''','''		if v, ok := special[char[len(char)-1]]; ok {
			return v
		}
''')],
 needs='nothing: placeholder',breaks='',demo=''),
dict(id='re-ident-case',prop='C22',edits=[('re/re.go','''			if first == "" {
				first = k
			}
			nonterms[k] = v
''','''			if first == "" {
				first = k
			}
			if old, ok := nonterms[k]; ok {
				// several definitions of one name are alternatives
				v = pattern.Or(old, v)
			}
			nonterms[k] = v
''')],
 needs='a grammar that defines a name twice',
 breaks='the definitions become alternatives instead of the last one counting',
 demo=D('''	p := re.MustCompile("S <- A\\nA <- 'a'\\nA <- 'b'")
	ok, _, _ := run(p, "a")
	check(!ok, "the first definition counts")
	ok, _, _ = run(p, "b")
	check(ok, "the last definition does not count")''',extra=["re"])),
dict(id='lazy-span-lookahead',prop='C08',edits=[('vm/vm.go','''			b1, ok := src.PeekBefore()
			if ok {
				r1 = rune(b1)
			}
''','''			if src.Pos() > start {
				b1, ok := src.PeekBefore()
				if ok {
					r1 = rune(b1)
				}
			}
'''),('vm/vm.go','''	success := true
''','''	start := src.Pos()
	success := true
''')],
 needs='placeholder',breaks='',demo=''),
]
BUGS=[b for b in BUGS if b['demo']]
