From bf810d5ea06ca461a5daf6481e256bbc24fa3902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 01/36] fix: restore the input position when TestAny fails

---
 vm/vm.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vm/vm.go b/vm/vm.go
index 51a7faf..2a84d6b 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -237,6 +237,8 @@ loop:
 				st.pushBacktrack(ent)
 				ip += szTestAny
 			} else {
+				// a failed advance moves to the end of the input
+				src.SeekTo(ent.off)
 				ip = int(lbl)
 			}
 		case opCaptureBegin:
-- 
2.43.0


From 4cecc05f86382b42a6f7dad83064fb7bcd6f1321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:10 +0000
Subject: [PATCH 02/36] fix: Advance(0) succeeds at the end of the input

---
 input/input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input/input.go b/input/input.go
index 909ed37..b85df05 100644
--- a/input/input.go
+++ b/input/input.go
@@ -89,6 +89,10 @@ func (i *Input) SeekTo(pos int) bool {
 // that even if Advance returns true the next call to Peek may return false if
 // the advance went to the exact end of the data.
 func (i *Input) Advance(n int) bool {
+	if n == 0 {
+		// advancing by nothing is always possible, even at the end
+		return true
+	}
 	if i.nchunk == 0 {
 		return false
 	}
-- 
2.43.0


From 89c870d5727c37f9000191439880f24f031422ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 03/36] fix: Advance past the end of the current chunk

---
 input/input.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/input/input.go b/input/input.go
index b85df05..94f7089 100644
--- a/input/input.go
+++ b/input/input.go
@@ -100,6 +100,13 @@ func (i *Input) Advance(n int) bool {
 	i.coff += n
 	if i.coff > i.nchunk {
 		i.refill(i.base + i.coff)
+		// The target may be beyond the end of the chunk, but not beyond the
+		// end of the input.
+		if i.nchunk != 0 {
+			return true
+		} else if n, _ := i.r.ReadAt(i.b[:], int64(i.base-1)); n == 1 {
+			return true
+		}
 		return false
 	} else if i.coff == i.nchunk {
 		i.refill(i.base + i.coff)
-- 
2.43.0


From 81f1723407a551e70802930f06dd4ac578ad9aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 04/36] fix: record the bytes Advance depends on as examined

---
 input/input.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/input/input.go b/input/input.go
index 94f7089..4da6b45 100644
--- a/input/input.go
+++ b/input/input.go
@@ -93,6 +93,10 @@ func (i *Input) Advance(n int) bool {
 		// advancing by nothing is always possible, even at the end
 		return true
 	}
+	// whether we can advance depends on the last byte we advance over
+	if pos := i.base + i.coff + n - 1; pos > i.furthest {
+		i.furthest = pos
+	}
 	if i.nchunk == 0 {
 		return false
 	}
-- 
2.43.0


From 60f3f700d1dbcf8d0b0b7b329121bc69a9876159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:59 +0000
Subject: [PATCH 05/36] fix: do not leave non-terminals inlined after compiling
 a grammar

---
 pattern/compile.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index 09047eb..f52e79b 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -366,6 +366,24 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	// Non-terminals may be shared with other grammars that define them
+	// differently, so what is inlined for this grammar must not outlast its
+	// compilation.
+	inlined := make(map[*NonTermNode]Pattern)
+	WalkPattern(p, false, func(sub Pattern) {
+		if t, ok := sub.(*NonTermNode); ok {
+			if _, ok := p.Defs[t.Name]; ok {
+				inlined[t] = t.Inlined
+				t.Inlined = nil
+			}
+		}
+	})
+	defer func() {
+		for t, patt := range inlined {
+			t.Inlined = patt
+		}
+	}()
+
 	p.Inline()
 
 	used := make(map[string]bool)
-- 
2.43.0


From 0d98be2721882d34ae722bc0ee1f3ce6e30691d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 06/36] fix: resolve non-terminals of enclosing grammars,
 report undefined ones

---
 pattern/compile.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index f52e79b..b1fca93 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -23,6 +23,14 @@ func Compile(p Pattern) (isa.Program, error) {
 	if err != nil {
 		return nil, err
 	}
+	// any call that no grammar has resolved is to an undefined non-terminal
+	for _, insn := range c {
+		if oc, ok := insn.(openCall); ok {
+			return nil, &NotFoundError{
+				Name: oc.name,
+			}
+		}
+	}
 
 	Optimize(c)
 	return c, nil
@@ -428,9 +436,8 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 		if oc, ok := insn.(openCall); ok {
 			lbl, ok := labels[oc.name]
 			if !ok {
-				return nil, &NotFoundError{
-					Name: oc.name,
-				}
+				// may be defined by an enclosing grammar
+				continue
 			}
 
 			// replace this placeholder instruction with a normal call
-- 
2.43.0


From eb86c7fc37ce3c5ee8250c9956a2c06d1edd5ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 07/36] fix: report a grammar without its start rule as an
 error

---
 pattern/compile.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pattern/compile.go b/pattern/compile.go
index b1fca93..c51718e 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -374,6 +374,12 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 
 // Compile this node.
 func (p *GrammarNode) Compile() (isa.Program, error) {
+	if _, ok := p.Defs[p.Start]; !ok {
+		return nil, &NotFoundError{
+			Name: p.Start,
+		}
+	}
+
 	// Non-terminals may be shared with other grammars that define them
 	// differently, so what is inlined for this grammar must not outlast its
 	// compilation.
-- 
2.43.0


From b3eceebe65410d51f7355f299dc11a50daf2f869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:23 +0000
Subject: [PATCH 08/36] fix: keep Search from capturing a non-terminal named S

---
 pattern/compile.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index c51718e..780cb0b 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -323,6 +323,10 @@ func (p *CheckNode) Compile() (isa.Program, error) {
 	return code, err
 }
 
+// The non-terminal used for searching must not be confused with one that the
+// pattern we are searching for uses.
+const searchName = "\x00search"
+
 // Compile this node.
 func (p *SearchNode) Compile() (isa.Program, error) {
 	var rsearch Pattern
@@ -353,13 +357,13 @@ func (p *SearchNode) Compile() (isa.Program, error) {
 	}
 
 	if opt {
-		rsearch = Concat(Star(Set(set)), NonTerm("S"))
+		rsearch = Concat(Star(Set(set)), NonTerm(searchName))
 	} else {
-		rsearch = NonTerm("S")
+		rsearch = NonTerm(searchName)
 	}
 
-	return Grammar("S", map[string]Pattern{
-		"S": Or(Get(p.Patt), Concat(Any(1), rsearch)),
+	return Grammar(searchName, map[string]Pattern{
+		searchName: Or(Get(p.Patt), Concat(Any(1), rsearch)),
 	}).Compile()
 }
 
-- 
2.43.0


From 3028effb8896f70f832588cf8913e8bf85a4d42f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 09/36] fix: keep memoized capture slices from sharing spare
 capacity

---
 vm/vm.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vm/vm.go b/vm/vm.go
index 2a84d6b..1fc0386 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -77,7 +77,9 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 			capt = nil
 		}
 		mexam := max(src.Furthest(), src.Pos()) - pos + 1
-		memtbl.Put(id, pos, mlen, mexam, count, capt)
+		// the stack may append to capt, so clip the capacity of the slice in
+		// the table: appending to it elsewhere must not share the rest
+		memtbl.Put(id, pos, mlen, mexam, count, capt[:len(capt):len(capt)])
 	}
 
 	success := true
-- 
2.43.0


From 7293fc61f46a8bb1aafd73940e657af08bece967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:18 +0000
Subject: [PATCH 10/36] fix: give memoized repetitions an ID no later Memo
 pattern gets

---
 pattern/compile.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 780cb0b..b263ef5 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -152,10 +152,13 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		L2 := isa.NewLabel()
 		L3 := isa.NewLabel()
 		NoJump := isa.NewLabel()
+		// use a fresh ID, different from those of all existing and future
+		// memoization patterns
+		id := memoId
 		memoId++
 
 		code = append(code, L1)
-		code = append(code, isa.MemoTreeOpen{Id: memoId, Lbl: L3})
+		code = append(code, isa.MemoTreeOpen{Id: id, Lbl: L3})
 		code = append(code, isa.Choice{Lbl: L2})
 		code = append(code, sub...)
 		code = append(code, isa.Commit{Lbl: NoJump})
@@ -165,7 +168,7 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		code = append(code, isa.MemoTree{})
 		code = append(code, isa.Jump{Lbl: L1})
 		code = append(code, L2)
-		code = append(code, isa.MemoTreeClose{Id: memoId})
+		code = append(code, isa.MemoTreeClose{Id: id})
 		return code, err
 	}
 
-- 
2.43.0


From 5f1bbfd4cdac42051f630952fa94bd9322f589d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 11/36] fix: count the bytes a memo hit depends on as examined

---
 input/input.go | 8 ++++++++
 vm/vm.go       | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/input/input.go b/input/input.go
index 4da6b45..c20af10 100644
--- a/input/input.go
+++ b/input/input.go
@@ -137,6 +137,14 @@ func (i *Input) Furthest() int {
 	return i.furthest
 }
 
+// Examine records that the bytes up to and including pos were examined, as
+// though they had been read.
+func (i *Input) Examine(pos int) {
+	if pos > i.furthest {
+		i.furthest = pos
+	}
+}
+
 // ResetFurthest resets the furthest read tracker to zero.
 func (i *Input) ResetFurthest() {
 	i.furthest = 0
diff --git a/vm/vm.go b/vm/vm.go
index 1fc0386..e4ce8a7 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -296,6 +296,8 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// a result that uses this one depends on the same bytes
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
@@ -327,6 +329,8 @@ loop:
 
 			ment, ok := memtbl.Get(int(id), src.Pos())
 			if ok {
+				// a result that uses this one depends on the same bytes
+				src.Examine(src.Pos() + ment.Examined() - 1)
 				if ment.Length() == -1 {
 					goto fail
 				}
-- 
2.43.0


From fa9109864bf154436638e71e94a13c638499aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:25 +0000
Subject: [PATCH 12/36] fix: keep entries and position handles when an interval
 node is replaced

---
 memo/interval/lazylog/tree.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index 1682bf0..af46c50 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -208,8 +208,19 @@ func (n *node) remove(key key) *node {
 			// replace values with smallest node of the right sub-tree
 			rightMinNode := n.right.findSmallest()
 
+			// the position handle of the removed values must not follow the
+			// values that take their place
+			n.interval.n = &node{
+				tree:     n.tree,
+				key:      n.key,
+				max:      n.max,
+				interval: n.interval,
+				tstamp:   n.tstamp,
+				height:   1,
+			}
+
 			n.key = rightMinNode.key
-			copy(n.interval.ins, rightMinNode.interval.ins)
+			n.interval = rightMinNode.interval
 			n.interval.n = n
 			n.tstamp = rightMinNode.tstamp
 			// delete smallest node that we replaced
-- 
2.43.0


From e126bcb13bf6667bdb12e88e676668a117667990 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:03 +0000
Subject: [PATCH 13/36] fix: keep the largest interval end an upper bound when
 shifting left

---
 memo/interval/lazylog/tree.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index af46c50..b02c722 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -413,7 +413,11 @@ func (n *node) applyShift(s *shift) {
 	if n.max < s.idx {
 		return
 	}
-	n.max += s.amt
+	if s.amt > 0 {
+		// the largest interval may begin before the shift and stay where it
+		// is, so max must remain an upper bound if the shift is negative
+		n.max += s.amt
+	}
 	if n.key.pos >= s.idx {
 		n.key.pos += s.amt
 		n.interval.Shift(s.amt)
-- 
2.43.0


From c65ae37fb78ae80672ac34471db30ab726101a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:10 +0000
Subject: [PATCH 14/36] fix: do not memoize interval-restricted captures as no
 captures

---
 vm/vm.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index e4ce8a7..d439c12 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -73,8 +73,10 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 	}
 
 	memoize := func(id, pos, mlen, count int, capt []*memo.Capture) {
-		if intrvl != nil {
-			capt = nil
+		if intrvl != nil && len(capt) > 0 {
+			// these captures depend on the interval, and an entry without
+			// them would lose them when it is used again in this parse
+			return
 		}
 		mexam := max(src.Furthest(), src.Pos()) - pos + 1
 		// the stack may append to capt, so clip the capacity of the slice in
-- 
2.43.0


From 6642f9f51b400253bfe24ab0e11396e7000ec9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:47 +0000
Subject: [PATCH 15/36] fix: count intervals, not nodes, in the size of
 interval trees

---
 memo/interval/lazy/tree.go    | 2 +-
 memo/interval/lazylog/tree.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 9dc84a1..2bd0b97 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -324,7 +324,7 @@ func (n *node) getSize() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.getSize() + n.right.getSize() + 1
+	return n.left.getSize() + n.right.getSize() + len(n.iv.ivs)
 }
 
 func (n *node) updateHeightAndMax() {
diff --git a/memo/interval/lazylog/tree.go b/memo/interval/lazylog/tree.go
index b02c722..e800ef4 100644
--- a/memo/interval/lazylog/tree.go
+++ b/memo/interval/lazylog/tree.go
@@ -324,7 +324,7 @@ func (n *node) size() int {
 	if n == nil {
 		return 0
 	}
-	return n.left.size() + n.right.size() + 1
+	return n.left.size() + n.right.size() + len(n.interval.ins)
 }
 
 func (n *node) recalculateHeight() {
-- 
2.43.0


From bb67d06ea39a8c0bb207dac4b3284e09d27f011e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:56 +0000
Subject: [PATCH 16/36] fix: keep the largest interval end an upper bound in
 lazy trees too

---
 memo/interval/lazy/tree.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/memo/interval/lazy/tree.go b/memo/interval/lazy/tree.go
index 2bd0b97..83e7d54 100644
--- a/memo/interval/lazy/tree.go
+++ b/memo/interval/lazy/tree.go
@@ -121,7 +121,12 @@ func (n *node) applyShifts() {
 					n.iv.ivs[i].interval = iv.interval.Shift(sh.amt)
 				}
 			}
-			n.max += sh.amt
+			if sh.amt > 0 {
+				// the largest interval may begin before the shift and stay
+				// where it is, so max must remain an upper bound if the
+				// shift is negative
+				n.max += sh.amt
+			}
 			// n.updateMax()
 		}
 
-- 
2.43.0


From 797e1be84c0e30ff6628942dd6d70063306d41ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:29 +0000
Subject: [PATCH 17/36] fix: turn a rope node into a leaf when rebuilding it

---
 input/linerope/rope.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index 40a53f0..aaa2f51 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -384,9 +384,11 @@ func Join(a, b *Node, more ...*Node) *Node {
 func (n *Node) Rebuild() {
 	switch n.kind {
 	case tNode:
+		n.kind = tLeaf
 		n.value = concat(n.left.Value(), n.right.Value())
 		n.left = nil
 		n.right = nil
+		n.llength = llen(n.value, n.opts.LineSep)
 		n.adjust()
 	}
 }
-- 
2.43.0


From 79110f9da7b8a1af71d9ab8bad46015645c4aed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:59 +0000
Subject: [PATCH 18/36] fix: line positions with separators longer than one
 byte

---
 input/linerope/util.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/input/linerope/util.go b/input/linerope/util.go
index 596afa4..a5948f9 100644
--- a/input/linerope/util.go
+++ b/input/linerope/util.go
@@ -4,9 +4,13 @@ import (
 	"bytes"
 )
 
-// indexN finds the index of n-th sep in b.
+// indexN finds the index of n-th sep in b. The text is considered to be
+// preceded by a separator, which is number zero.
 func indexN(b, sep []byte, n int) (index int) {
 	index, idx, sepLen := 0, -1, len(sep)
+	if n == 0 {
+		return -sepLen
+	}
 	for i := 0; i < n; i++ {
 		if idx = bytes.Index(b, sep); idx == -1 {
 			break
@@ -31,7 +35,7 @@ func lineCol(b, sep []byte, pos int) loc {
 		idx := bytes.Index(b[last:], sep)
 		if idx < 0 {
 			break
-		} else if last+idx >= pos {
+		} else if last+idx+len(sep) > pos {
 			return loc{line, pos - last}
 		}
 		last += idx + len(sep)
-- 
2.43.0


From 3c1fcc358038cf2d88c8a812bb74ee0cc7080207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:09 +0000
Subject: [PATCH 19/36] fix: update the line count of a rope whose parts were
 rebalanced

---
 input/linerope/rope.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/input/linerope/rope.go b/input/linerope/rope.go
index aaa2f51..76a7cbd 100644
--- a/input/linerope/rope.go
+++ b/input/linerope/rope.go
@@ -404,6 +404,7 @@ func (n *Node) Rebalance() {
 		} else {
 			n.left.Rebalance()
 			n.right.Rebalance()
+			n.llength = addlocs(n.left.llength, n.right.llength)
 		}
 	}
 }
-- 
2.43.0


From cd435d4c6f147a382358ac22b10810a9147bcf50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:56 +0000
Subject: [PATCH 20/36] fix: serialize parsers with back-references

---
 vm/code.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/vm/code.go b/vm/code.go
index 06d568b..74662af 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -36,7 +37,7 @@ func (c *Code) Size() int {
 
 func init() {
 	gob.Register(isa.MapChecker{})
-	gob.Register(isa.BackReference{})
+	gob.Register(&isa.BackReference{})
 }
 
 // ToBytes serializes and compresses this Code.
@@ -304,7 +305,18 @@ func addError(code *Code, msg string) uint {
 	return uint(len(code.data.Errors) - 1)
 }
 
+// Adds the checker to the code's list of checkers, and returns its index.
+// Checkers that are shared pointers are added once, so that they are still
+// shared after serialization.
 func addChecker(code *Code, checker isa.Checker) uint {
+	if reflect.ValueOf(checker).Kind() == reflect.Ptr {
+		for i, c := range code.data.Checkers {
+			if reflect.ValueOf(c).Kind() == reflect.Ptr && c == checker {
+				return uint(i)
+			}
+		}
+	}
+
 	code.data.Checkers = append(code.data.Checkers, checker)
 	return uint(len(code.data.Checkers) - 1)
 }
-- 
2.43.0


From 2a589f496660b628c8079c0dbd9e36450078de09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:57 +0000
Subject: [PATCH 21/36] fix: verify the checksum of saved parsers when loading
 them

---
 vm/code.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/vm/code.go b/vm/code.go
index 74662af..ee82f85 100644
--- a/vm/code.go
+++ b/vm/code.go
@@ -7,6 +7,7 @@ import (
 	"encoding/gob"
 	"encoding/json"
 	"fmt"
+	"io/ioutil"
 	"reflect"
 
 	"github.com/zyedidia/gpeg/charset"
@@ -57,9 +58,15 @@ func FromBytes(b []byte) (Code, error) {
 	if err != nil {
 		return Code{}, err
 	}
-	dec := gob.NewDecoder(fz)
-	err = dec.Decode(&c)
+	// read all of the data before decoding it, so that its checksum is
+	// verified
+	data, err := ioutil.ReadAll(fz)
 	fz.Close()
+	if err != nil {
+		return Code{}, err
+	}
+	dec := gob.NewDecoder(bytes.NewReader(data))
+	err = dec.Decode(&c)
 	return Code{
 		data: c,
 	}, err
-- 
2.43.0


From 942049fb98f08aab99cbe7656daf8046466dca36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:25 +0000
Subject: [PATCH 22/36] fix: do not carry back-reference symbols over to later
 parses

---
 isa/checker.go | 12 ++++++++++++
 vm/vm.go       | 20 +++++++++++++++++++-
 2 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/isa/checker.go b/isa/checker.go
index 53863b6..1d5329c 100644
--- a/isa/checker.go
+++ b/isa/checker.go
@@ -37,6 +37,9 @@ const (
 	RefBlock
 )
 
+// A BackReference checker remembers matched text and matches it again. The
+// virtual machine runs every parse with its own copy, so parses do not see the
+// symbols of other parses.
 type BackReference struct {
 	Symbols map[int]string
 }
@@ -47,6 +50,15 @@ func NewBackRef() *BackReference {
 	}
 }
 
+// Clone returns a copy of this checker and its symbols.
+func (r *BackReference) Clone() *BackReference {
+	c := NewBackRef()
+	for id, sym := range r.Symbols {
+		c.Symbols[id] = sym
+	}
+	return c
+}
+
 func (r *BackReference) Check(b []byte, src *input.Input, id, flag int) int {
 	switch RefKind(flag) {
 	case RefDef:
diff --git a/vm/vm.go b/vm/vm.go
index d439c12..8456d00 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -9,6 +9,7 @@ import (
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/input"
+	"github.com/zyedidia/gpeg/isa"
 	"github.com/zyedidia/gpeg/memo"
 )
 
@@ -84,6 +85,8 @@ func (vm *Code) exec(ip int, st *stack, src *input.Input, memtbl memo.Table, int
 		memtbl.Put(id, pos, mlen, mexam, count, capt[:len(capt):len(capt)])
 	}
 
+	checkers := freshCheckers(vm.data.Checkers)
+
 	success := true
 	var errs []ParseError = nil
 
@@ -424,7 +427,7 @@ loop:
 				panic("check end needs check stack entry")
 			}
 			checkid := decodeU24(idata[ip+1:])
-			checker := vm.data.Checkers[checkid]
+			checker := checkers[checkid]
 
 			id := int(ent.memo.id)
 			flag := ent.memo.count
@@ -479,6 +482,21 @@ fail:
 	goto loop
 }
 
+// freshCheckers returns the checkers with those that keep state during a parse
+// replaced by copies.
+func freshCheckers(checkers []isa.Checker) []isa.Checker {
+	fresh := checkers
+	for i, c := range checkers {
+		if ref, ok := c.(*isa.BackReference); ok {
+			if &fresh[0] == &checkers[0] {
+				fresh = append([]isa.Checker(nil), checkers...)
+			}
+			fresh[i] = ref.Clone()
+		}
+	}
+	return fresh
+}
+
 func decodeU8(b []byte) byte {
 	return b[0]
 }
-- 
2.43.0


From a59ef128118fe8bfc0702f4562ff6a49fc4fdc34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:59 +0000
Subject: [PATCH 23/36] fix: octal escapes above 177 in textual patterns

---
 re/re.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/re/re.go b/re/re.go
index dcae4fe..99d127a 100644
--- a/re/re.go
+++ b/re/re.go
@@ -147,7 +147,7 @@ func parseChar(char string) byte {
 			}
 		}
 
-		i, _ := strconv.ParseInt(string(char[1:]), 8, 8)
+		i, _ := strconv.ParseUint(string(char[1:]), 8, 8)
 		return byte(i)
 	default:
 		return char[0]
-- 
2.43.0


From f4a767bd6decd3a68ad638beeee39c9757eb8228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:00 +0000
Subject: [PATCH 24/36] fix: compile the empty class to a pattern that never
 matches

---
 re/re.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/re/re.go b/re/re.go
index 99d127a..0e3101d 100644
--- a/re/re.go
+++ b/re/re.go
@@ -100,11 +100,8 @@ func compile(root *memo.Capture, s string, capg bool, ids map[string]int) patter
 		p = pattern.Literal(lit.String())
 	case idClass:
 		var set charset.Set
-		if root.NumChildren() <= 0 {
-			break
-		}
 		complement := false
-		if root.Child(0).Id() == idCARAT {
+		if root.NumChildren() > 0 && root.Child(0).Id() == idCARAT {
 			complement = true
 		}
 		it := root.ChildIterator(0)
-- 
2.43.0


From 5ea2382257f9a64f8d4b7f2879922fd4fb7b3b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:30 +0000
Subject: [PATCH 25/36] fix: reject single braces, which compiled to a nil
 pattern

---
 re/grammar.go | 17 -----------------
 1 file changed, 17 deletions(-)

diff --git a/re/grammar.go b/re/grammar.go
index 5466a70..d501239 100644
--- a/re/grammar.go
+++ b/re/grammar.go
@@ -17,7 +17,6 @@ import (
 // 			/ '(' Expression ')'
 // 			/ Literal / Class
 // 			/ BRACEPO Expression BRACEPC
-// 			/ BRACEO Expression BRACEC
 // 			/ DOT
 //
 // Identifier <- IdentStart IdentCont* Spacing_
@@ -40,8 +39,6 @@ import (
 // PLUS       <- '+' Spacing_
 // DOT        <- '.' Spacing_
 // CARAT      <- '^' Spacing_
-// BRACEO     <- '{' Spacing_
-// BRACEC     <- '}' Spacing_
 // BRACEPO    <- '{{' Spacing_
 // BRACEPC    <- '}}' Spacing_
 // LEFTARROW  <- '<-' Spacing_
@@ -79,7 +76,6 @@ const (
 	idDOT
 	idCARAT
 	idOPEN
-	idBRACEO
 	idBRACEPO
 )
 
@@ -137,11 +133,6 @@ var grammar = map[string]p.Pattern{
 			p.NonTerm("Expression"),
 			p.NonTerm("BRACEPC"),
 		),
-		p.Concat(
-			p.NonTerm("BRACEO"),
-			p.NonTerm("Expression"),
-			p.NonTerm("BRACEC"),
-		),
 		p.NonTerm("Literal"),
 		p.NonTerm("Class"),
 		p.NonTerm("DOT"),
@@ -258,14 +249,6 @@ var grammar = map[string]p.Pattern{
 		p.Literal(")"),
 		p.NonTerm("Spacing"),
 	),
-	"BRACEO": p.Cap(p.Concat(
-		p.Literal("{"),
-		p.NonTerm("Spacing"),
-	), idBRACEO),
-	"BRACEC": p.Concat(
-		p.Literal("}"),
-		p.NonTerm("Spacing"),
-	),
 	"BRACEPO": p.Cap(p.Concat(
 		p.Literal("{{"),
 		p.NonTerm("Spacing"),
-- 
2.43.0


From 52e4a67fbefc2addeb335a2089a1916a5be6af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 26/36] fix: convert non-greedy repetitions as non-greedy

---
 rxconv/rxconv.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index 3ea34e0..ff1af30 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -18,15 +18,25 @@ func uniq() string {
 	return "a" + strconv.Itoa(num)
 }
 
-func star(r *syntax.Regexp, k p.Pattern) p.Pattern {
+// star repeats r, preferring fewer repetitions if lazy is set.
+func star(r *syntax.Regexp, k p.Pattern, lazy bool) p.Pattern {
 	nterm := uniq()
 	nonterms := make(map[string]p.Pattern)
-	nonterms[nterm] = p.Or(pi(r, p.NonTerm(nterm)), k)
+	nonterms[nterm] = prefer(pi(r, p.NonTerm(nterm)), k, lazy)
 	return p.Grammar(nterm, nonterms)
 }
 
+// prefer tries more before less, or after it if lazy is set.
+func prefer(more, less p.Pattern, lazy bool) p.Pattern {
+	if lazy {
+		return p.Or(less, more)
+	}
+	return p.Or(more, less)
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
+	lazy := e.Flags&syntax.NonGreedy != 0
 	switch e.Op {
 	case syntax.OpEmptyMatch:
 		return k
@@ -68,11 +78,11 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpCapture:
 		return pi(e.Sub[0], k)
 	case syntax.OpStar:
-		return star(e.Sub[0], k)
+		return star(e.Sub[0], k, lazy)
 	case syntax.OpPlus:
-		return pi(e.Sub[0], star(e.Sub[0], k))
+		return pi(e.Sub[0], star(e.Sub[0], k, lazy))
 	case syntax.OpQuest:
-		return p.Or(pi(e.Sub[0], k), k)
+		return prefer(pi(e.Sub[0], k), k, lazy)
 	case syntax.OpBeginLine:
 		return p.Concat(p.EmptyOp(syntax.EmptyBeginLine), k)
 	case syntax.OpEndLine:
-- 
2.43.0


From 333cea36bcdfc1f3c1a76a85a1523cf2834c57d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:47 +0000
Subject: [PATCH 27/36] fix: convert case-insensitive literals of regular
 expressions

---
 rxconv/rxconv.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index ff1af30..eb813c3 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"unicode"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
@@ -34,6 +35,19 @@ func prefer(more, less p.Pattern, lazy bool) p.Pattern {
 	return p.Or(more, less)
 }
 
+// fold matches the runes regardless of their case.
+func fold(runes []rune) p.Pattern {
+	patts := make([]p.Pattern, 0, len(runes))
+	for _, r := range runes {
+		cases := []p.Pattern{p.Literal(string(r))}
+		for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
+			cases = append(cases, p.Literal(string(f)))
+		}
+		patts = append(patts, p.Or(cases...))
+	}
+	return p.Concat(patts...)
+}
+
 // continuation-based conversion
 func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	lazy := e.Flags&syntax.NonGreedy != 0
@@ -41,6 +55,9 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 	case syntax.OpEmptyMatch:
 		return k
 	case syntax.OpLiteral:
+		if e.Flags&syntax.FoldCase != 0 {
+			return p.Concat(fold(e.Rune), k)
+		}
 		return p.Concat(p.Literal(string(e.Rune)), k)
 	case syntax.OpCharClass:
 		lits := make([]p.Pattern, 0, len(e.Rune))
-- 
2.43.0


From f70178c26a35df26ab7bc48045eb593a10dd9270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:48 +0000
Subject: [PATCH 28/36] fix: convert negated classes of regular expressions

---
 rxconv/rxconv.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index eb813c3..b8083b9 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -64,6 +64,13 @@ func pi(e *syntax.Regexp, k p.Pattern) p.Pattern {
 		for i := 0; i < len(e.Rune); i += 2 {
 			start := e.Rune[i]
 			end := e.Rune[i+1]
+			if end == unicode.MaxRune {
+				// negated classes match the bytes of larger runes one by one
+				if start > 255 {
+					start = rune(string(start)[0])
+				}
+				end = 255
+			}
 			var patt p.Pattern
 			if start < 256 && end < 256 {
 				patt = p.Set(charset.Range(byte(start), byte(end)))
-- 
2.43.0


From 4a254d089c29aea3228592d8b48a311f0fdcc55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:58 +0000
Subject: [PATCH 29/36] fix: read positions of memoized captures under the
 table's lock

---
 memo/capture.go | 2 +-
 memo/entry.go   | 5 +++++
 memo/tree.go    | 1 +
 3 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/memo/capture.go b/memo/capture.go
index 039229a..2cf56ac 100644
--- a/memo/capture.go
+++ b/memo/capture.go
@@ -94,7 +94,7 @@ func (c *Capture) NumChildren() int {
 
 func (c *Capture) Start() int {
 	if c.ment != nil {
-		return c.ment.pos.Pos() + c.off
+		return c.ment.Pos() + c.off
 	}
 	return c.off
 }
diff --git a/memo/entry.go b/memo/entry.go
index 913bb12..b9c0166 100644
--- a/memo/entry.go
+++ b/memo/entry.go
@@ -1,6 +1,8 @@
 package memo
 
 import (
+	"sync"
+
 	"github.com/zyedidia/gpeg/memo/interval"
 )
 
@@ -15,6 +17,7 @@ type Entry struct {
 	count    int
 	captures []*Capture
 	pos      interval.Pos
+	lock     *sync.Mutex // lock of the table, reading pos may apply shifts
 }
 
 func (e *Entry) setPos(pos interval.Pos) {
@@ -26,6 +29,8 @@ func (e *Entry) setPos(pos interval.Pos) {
 
 // Pos returns this entry's starting position.
 func (e *Entry) Pos() int {
+	e.lock.Lock()
+	defer e.lock.Unlock()
 	return e.pos.Pos()
 }
 
diff --git a/memo/tree.go b/memo/tree.go
index d24dfae..d2e1d19 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -42,6 +42,7 @@ func (t *TreeTable) Put(id, start, length, examined, count int, captures []*Capt
 		examined: examined,
 		count:    count,
 		captures: captures,
+		lock:     &t.lock,
 	}
 	t.lock.Lock()
 	e.setPos(t.Map.Add(id, start, start+examined, e))
-- 
2.43.0


From 02f6455e9721724da2601021faf8bb128175034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:00 +0000
Subject: [PATCH 30/36] fix: take the table's lock in Size and AllValues

---
 memo/tree.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/memo/tree.go b/memo/tree.go
index d2e1d19..8dc633c 100644
--- a/memo/tree.go
+++ b/memo/tree.go
@@ -61,8 +61,17 @@ func (t *TreeTable) ApplyEdit(e Edit) {
 	t.lock.Unlock()
 }
 
+// Size returns the number of entries in the table.
+func (t *TreeTable) Size() int {
+	t.lock.Lock()
+	defer t.lock.Unlock()
+	return t.Map.Size()
+}
+
 func (t *TreeTable) AllValues() []*Entry {
+	t.lock.Lock()
 	vals := t.Map.AllValues()
+	t.lock.Unlock()
 	entries := make([]*Entry, len(vals))
 	for i, v := range vals {
 		entries[i] = v.(*Entry)
-- 
2.43.0


From 63257d6e0f11774c2543b6309898457d5022025c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:25 +0000
Subject: [PATCH 31/36] fix: hand out label, memo and rule numbers atomically

---
 isa/isa.go         |  6 +++---
 pattern/compile.go |  3 +--
 pattern/pattern.go | 23 ++++++++++++++++++++---
 rxconv/rxconv.go   |  6 +++---
 4 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/isa/isa.go b/isa/isa.go
index 80f4952..4f0b5f4 100644
--- a/isa/isa.go
+++ b/isa/isa.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 
 	"github.com/zyedidia/gpeg/charset"
 )
@@ -37,7 +38,7 @@ type JumpType interface {
 	jumpt()
 }
 
-var uniqId int
+var uniqId int64
 
 // Label is used for marking a location in the instruction code with
 // a unique ID
@@ -48,9 +49,8 @@ type Label struct {
 
 // NewLabel returns a new label with a unique ID
 func NewLabel() Label {
-	uniqId++
 	return Label{
-		Id: uniqId,
+		Id: int(atomic.AddInt64(&uniqId, 1)),
 	}
 }
 
diff --git a/pattern/compile.go b/pattern/compile.go
index b263ef5..0b2cd49 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -154,8 +154,7 @@ func (p *StarNode) Compile() (isa.Program, error) {
 		NoJump := isa.NewLabel()
 		// use a fresh ID, different from those of all existing and future
 		// memoization patterns
-		id := memoId
-		memoId++
+		id := newMemoId()
 
 		code = append(code, L1)
 		code = append(code, isa.MemoTreeOpen{Id: id, Lbl: L3})
diff --git a/pattern/pattern.go b/pattern/pattern.go
index 7cd1a8a..b497d4f 100644
--- a/pattern/pattern.go
+++ b/pattern/pattern.go
@@ -4,6 +4,7 @@ package pattern
 
 import (
 	"regexp/syntax"
+	"sync"
 
 	"github.com/zyedidia/gpeg/charset"
 	"github.com/zyedidia/gpeg/isa"
@@ -34,7 +35,22 @@ func CheckFlags(p Pattern, c isa.Checker, id, flag int) Pattern {
 	}
 }
 
-var memoId = 0
+// memoId is the next unused memoization ID, guarded by memoLock so that
+// patterns can be created and compiled concurrently.
+var (
+	memoId   = 0
+	memoLock sync.Mutex
+)
+
+// newMemoId returns an ID different from those of all existing memoization
+// patterns.
+func newMemoId() int {
+	memoLock.Lock()
+	defer memoLock.Unlock()
+	id := memoId
+	memoId++
+	return id
+}
 
 // MemoId marks a pattern as memoizable with a particular ID.
 func MemoId(p Pattern, id int) Pattern {
@@ -42,7 +58,9 @@ func MemoId(p Pattern, id int) Pattern {
 		Patt: p,
 		Id:   id,
 	}
+	memoLock.Lock()
 	memoId = max(memoId, id) + 1
+	memoLock.Unlock()
 	return m
 }
 
@@ -50,9 +68,8 @@ func MemoId(p Pattern, id int) Pattern {
 func Memo(p Pattern) Pattern {
 	m := &MemoNode{
 		Patt: p,
-		Id:   memoId,
+		Id:   newMemoId(),
 	}
-	memoId++
 	return m
 }
 
diff --git a/rxconv/rxconv.go b/rxconv/rxconv.go
index b8083b9..73184e4 100644
--- a/rxconv/rxconv.go
+++ b/rxconv/rxconv.go
@@ -6,17 +6,17 @@ import (
 	"fmt"
 	"regexp/syntax"
 	"strconv"
+	"sync/atomic"
 	"unicode"
 
 	"github.com/zyedidia/gpeg/charset"
 	p "github.com/zyedidia/gpeg/pattern"
 )
 
-var num = 0
+var num int64
 
 func uniq() string {
-	num++
-	return "a" + strconv.Itoa(num)
+	return "a" + strconv.FormatInt(atomic.AddInt64(&num, 1), 10)
 }
 
 // star repeats r, preferring fewer repetitions if lazy is set.
-- 
2.43.0


From 79c311f9063778814c5f50876ea6e92da79926f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 32/36] fix: remember once what a shared non-terminal was
 inlined to

---
 pattern/compile.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 0b2cd49..9228d3e 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -393,7 +393,9 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 	WalkPattern(p, false, func(sub Pattern) {
 		if t, ok := sub.(*NonTermNode); ok {
 			if _, ok := p.Defs[t.Name]; ok {
-				inlined[t] = t.Inlined
+				if _, ok := inlined[t]; !ok {
+					inlined[t] = t.Inlined
+				}
 				t.Inlined = nil
 			}
 		}
-- 
2.43.0


From c5e2399c446282ebbbc05e1ac153566780f6c097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:01:59 +0000
Subject: [PATCH 33/36] fix: find the last of several overlapping line
 separators

---
 input/linerope/line.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/input/linerope/line.go b/input/linerope/line.go
index 0925616..14f18f9 100644
--- a/input/linerope/line.go
+++ b/input/linerope/line.go
@@ -15,7 +15,9 @@ func llen(b, sep []byte) loc {
 	lines := bytes.Count(b, sep)
 
 	if lines != 0 {
-		last := bytes.LastIndex(b, sep) + len(sep)
+		// the separators may overlap, so the last one is not necessarily the
+		// last occurrence
+		last := indexN(b, sep, lines) + len(sep)
 		return loc{
 			line: lines,
 			col:  len(b) - last,
-- 
2.43.0


From 7088c0904db4d7ac5cf94b60128e02464439ef9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:09 +0000
Subject: [PATCH 34/36] fix: simplify the left side of an optional alternative
 once

Get simplified it again at every level, which took time exponential in
the nesting of alternatives with an empty right side.
---
 pattern/optimize.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pattern/optimize.go b/pattern/optimize.go
index 669d8d6..1b7c798 100644
--- a/pattern/optimize.go
+++ b/pattern/optimize.go
@@ -31,7 +31,12 @@ func Get(p Pattern) Pattern {
 			return n
 		}
 		if _, emptyR := r.(*EmptyNode); emptyR {
-			return Get(Optional(l))
+			// The left side is simplified already: doing it again at every
+			// level takes time exponential in the nesting.
+			if star, ok := l.(*StarNode); ok {
+				return star
+			}
+			return Optional(l)
 		}
 
 		// Combine the left and right sides of an alternation into a class node
-- 
2.43.0


From 82740fa0ad3056406f3841c392160c365a6306b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:32 +0000
Subject: [PATCH 35/36] fix: leave non-terminals as they were when printing a
 grammar

---
 pattern/compile.go | 30 +++++++++++++++++-------------
 pattern/string.go  |  1 +
 2 files changed, 18 insertions(+), 13 deletions(-)

diff --git a/pattern/compile.go b/pattern/compile.go
index 9228d3e..5988057 100644
--- a/pattern/compile.go
+++ b/pattern/compile.go
@@ -378,17 +378,11 @@ func (p *EmptyOpNode) Compile() (isa.Program, error) {
 	}, nil
 }
 
-// Compile this node.
-func (p *GrammarNode) Compile() (isa.Program, error) {
-	if _, ok := p.Defs[p.Start]; !ok {
-		return nil, &NotFoundError{
-			Name: p.Start,
-		}
-	}
-
-	// Non-terminals may be shared with other grammars that define them
-	// differently, so what is inlined for this grammar must not outlast its
-	// compilation.
+// resetInlined clears what the non-terminals of this grammar were inlined to,
+// and returns a function that puts it back. Non-terminals may be shared with
+// other grammars that define them differently, so what is inlined for this
+// grammar must not outlast its compilation or printing.
+func (p *GrammarNode) resetInlined() func() {
 	inlined := make(map[*NonTermNode]Pattern)
 	WalkPattern(p, false, func(sub Pattern) {
 		if t, ok := sub.(*NonTermNode); ok {
@@ -400,12 +394,22 @@ func (p *GrammarNode) Compile() (isa.Program, error) {
 			}
 		}
 	})
-	defer func() {
+	return func() {
 		for t, patt := range inlined {
 			t.Inlined = patt
 		}
-	}()
+	}
+}
+
+// Compile this node.
+func (p *GrammarNode) Compile() (isa.Program, error) {
+	if _, ok := p.Defs[p.Start]; !ok {
+		return nil, &NotFoundError{
+			Name: p.Start,
+		}
+	}
 
+	defer p.resetInlined()()
 	p.Inline()
 
 	used := make(map[string]bool)
diff --git a/pattern/string.go b/pattern/string.go
index 6acbe68..2c54408 100644
--- a/pattern/string.go
+++ b/pattern/string.go
@@ -43,6 +43,7 @@ func Prettify(p Pattern) string {
 		return fmt.Sprintf("empty(%v)", t.Op)
 	case *GrammarNode:
 		s := fmt.Sprintf("%s\n", t.Start)
+		defer t.resetInlined()()
 		t.Inline()
 		for name, patt := range t.Defs {
 			s += fmt.Sprintf("%s <- %s\n", name, Prettify(Get(patt)))
-- 
2.43.0


From bd479b6b6d62a70a2394011f6f75214c17786a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:41:50 +0000
Subject: [PATCH 36/36] fix: fail a check whose checker rejects with any
 negative number or asks for more than is left

---
 vm/vm.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/vm/vm.go b/vm/vm.go
index 8456d00..fa68f6d 100644
--- a/vm/vm.go
+++ b/vm/vm.go
@@ -432,10 +432,8 @@ loop:
 			id := int(ent.memo.id)
 			flag := ent.memo.count
 			n := checker.Check(src.Slice(int(ent.memo.pos), src.Pos()), src, id, flag)
-			if n == -1 {
+			if n < 0 || !src.Advance(n) {
 				goto fail
-			} else {
-				src.Advance(n)
 			}
 
 			ip += szCheckEnd
-- 
2.43.0

