//go:build sched

package main

// C27 and C29: goroutines sharing a parser, a memo table, a stream or a rope.
// This file is only part of builds against the instrumented overlay (see
// instrument.go and _sched): every statement of gpeg is a scheduling point, and
// the binary is built with the race detector, which judges every schedule by
// the program's own synchronization only.

import (
	"encoding/json"
	"fmt"
	"io"
	"os"
	"regexp/syntax"
	"runtime"
	"strings"
	"sync"

	sched "github.com/zyedidia/gpeg/verifsched"

	"github.com/zyedidia/gpeg/charset"
	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/input/linerope"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/re"
	"github.com/zyedidia/gpeg/rxconv"
	"github.com/zyedidia/gpeg/vm"
)

func init() { runtime.GOMAXPROCS(1) }

// A scenario is a closed concurrent program. mk builds fresh objects and
// returns the thread bodies and the check made after all have ended.
type scenario struct {
	name string
	pkgs []string // packages whose statements are scheduling points, nil: all
	mk   func() (bodies []func(), check func() string)
	cpus int
}

func ed(s, e int, ins string) edit { return edit{s: s, e: e, ins: ins} }

var points pointTable

func loadPoints() {
	if points.Locs != nil {
		return
	}
	b, err := os.ReadFile(os.Getenv("VERIF_POINTS"))
	if err != nil {
		panic(err)
	}
	if err := json.Unmarshal(b, &points); err != nil {
		panic(err)
	}
	copy(points.Locs[1:], []string{"blocked", "end of thread", "go", "lock", "unlock", "pool", "wait"})
}

// schedule describes the deviations of a schedule.
func schedule(ds []sched.Dev, locs []string) string {
	if len(ds) == 0 {
		return "no preemption (thread 0 first)"
	}
	var out []string
	for i, d := range ds {
		if d.Step < 0 {
			out = append(out, fmt.Sprintf("thread %d starts", d.Thread))
		} else {
			out = append(out, fmt.Sprintf("at step %d (before %s) thread %d goes on", d.Step, locs[i], d.Thread))
		}
	}
	return strings.Join(out, ", ")
}

type exploration struct {
	c     *Ctx
	s     *scenario
	gran  int
	bound int
}

// exec runs one schedule and checks it. It returns what could have been
// decided differently, or false if exploring below it makes no sense.
func (x *exploration) exec(ds []sched.Dev) (sched.Run, bool) {
	sched.SetNumCPU(x.s.cpus)
	defer sched.SetNumCPU(0)
	bodies, check := x.s.mk()
	races := runtime.RaceErrors()
	r := sched.Exec(bodies, ds, x.gran)
	x.c.Traces(1)
	x.c.Trans(r.Steps)
	x.c.States(1)
	where := func() string {
		locs := make([]string, len(ds))
		for i, d := range ds {
			if d.Step >= 0 && d.Step < r.Steps {
				locs[i] = points.Locs[r.Locs[d.Step]]
			}
		}
		return fmt.Sprintf("%s\nschedule: %s", x.s.name, schedule(ds, locs))
	}
	if r.Bad != "" {
		x.c.Note("schedule not replayable: " + r.Bad)
		return r, false
	}
	for i, p := range r.Panics {
		if p != nil {
			x.c.Violate("", "%s\nthread %d panicked: %v", where(), i, p)
			return r, false
		}
	}
	if r.Deadlock {
		x.c.Violate("", "%s\ndeadlock", where())
		return r, false
	}
	if r.Over {
		x.c.Violate("", "%s\nmore than %d steps", where(), sched.MaxSteps)
		return r, false
	}
	if runtime.RaceErrors() > races {
		x.c.Violate("", "%s\ndata race\n%s", where(), raceReport())
		return r, false
	}
	bad := ""
	if !x.c.Guard(where, func() { bad = check() }) {
		return r, false
	}
	if bad != "" {
		x.c.Violate("", "%s\n%s", where(), bad)
		return r, false
	}
	return r, true
}

// below explores all schedules that extend ds, of which the last deviation is
// at step from-1.
func (x *exploration) below(ds []sched.Dev, from, cost int) {
	r, ok := x.exec(ds)
	if !ok || x.c.itemViol {
		return
	}
	x.extend(r, ds, from, r.Steps, cost)
}

func (x *exploration) extend(r sched.Run, ds []sched.Dev, from, to, cost int) {
	type alt struct{ step, thread, cost int }
	var alts []alt
	for i := from; i < to; i++ {
		k := cost
		if r.Opts[i]>>31 == 0 {
			k++
		}
		if k > x.bound {
			continue
		}
		for t := 0; t < r.Threads && t < 16; t++ {
			if r.Opts[i]>>uint(t)&1 != 0 && int(r.Ran[i]) != t {
				alts = append(alts, alt{i, t, k})
			}
		}
	}
	for _, a := range alts {
		x.below(append(ds[:len(ds):len(ds)], sched.Dev{Step: a.step, Thread: a.thread}), a.step+1, a.cost)
		if x.c.itemViol || !x.c.Tick() {
			return
		}
	}
}

// exploreAll explores a scenario: every schedule with at most bound
// preemptions. Items are ranges of the first deviation.
func exploreAll(c *Ctx, s *scenario, gran, bound int) bool {
	loadPoints()
	var chans []string
	for _, at := range points.Chan {
		if strings.Contains(at, "/linerope/") && !strings.Contains(s.name, "rope") {
			continue // not used here
		}
		chans = append(chans, at)
	}
	if len(chans) > 0 {
		// The scheduler does not control channels: run the scenario a few
		// times, under the race detector, instead of exploring it.
		c.Note("not explored, the code uses channels: " + strings.Join(chans, ", "))
		c.cur.Incomplete = true
		return c.Item(func() {
			for i := 0; i < 12 && !c.itemViol; i++ {
				sched.SetNumCPU(s.cpus)
				freeRun(c, s)
				sched.SetNumCPU(0)
			}
		})
	}
	for pkg, r := range points.Pkgs {
		on := s.pkgs == nil
		for _, p := range s.pkgs {
			on = on || p == pkg
		}
		sched.SetOff(r[0], r[1], !on)
	}
	sched.SetNumCPU(s.cpus)
	bodies, _ := s.mk()
	sched.SetNumCPU(0)
	nthreads := len(bodies)
	x := &exploration{c, s, gran, bound}
	for first := 0; first < nthreads; first++ {
		var ds []sched.Dev
		if first > 0 {
			ds = []sched.Dev{{Step: -1, Thread: first}}
		}
		// the base execution, twice: replaying it must give the same
		var base sched.Run
		good := c.Item(func() {
			r, ok := x.exec(ds)
			if !ok {
				return
			}
			locs := append([]uint16(nil), r.Locs...)
			r, ok = x.exec(ds)
			if !ok {
				return
			}
			if len(locs) != len(r.Locs) {
				c.Note("not deterministic: " + s.name)
			}
			c.Outcome(fmt.Sprint(s.name, len(locs)))
			c.Sample(func() string {
				return fmt.Sprintf("%s: %d threads, %d steps in the default schedule, <=%d preemptions, granularity %d", s.name, r.Threads, r.Steps, bound, gran)
			})
		})
		if !good {
			return false
		}
		sched.SetNumCPU(s.cpus)
		b, _ := s.mk()
		base = sched.Exec(b, ds, gran)
		sched.SetNumCPU(0)
		opts := append([]uint32(nil), base.Opts...)
		ran := append([]uint8(nil), base.Ran...)
		base.Opts, base.Ran = opts, ran
		if base.Deadlock || base.Over || base.Bad != "" {
			continue // reported by the first item
		}
		chunk := base.Steps/48 + 1
		for i := 0; i < base.Steps; i += chunk {
			if !c.Item(func() { x.extend(base, ds, i, min(i+chunk, base.Steps), 0) }) {
				return false
			}
		}
	}
	return true
}

// freeRun runs the bodies of a scenario as goroutines.
func freeRun(c *Ctx, s *scenario) {
	bodies, check := s.mk()
	races := runtime.RaceErrors()
	pan := make([]interface{}, len(bodies))
	var wg sync.WaitGroup
	for i, b := range bodies {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { pan[i] = recover() }()
			b()
		}()
	}
	wg.Wait()
	c.States(1)
	c.Trans(len(bodies))
	c.Traces(1)
	for i, p := range pan {
		if p != nil {
			c.Violate("", "%s\nthread %d panicked: %v", s.name, i, p)
			return
		}
	}
	if runtime.RaceErrors() > races {
		c.Violate("", "%s\ndata race\n%s", s.name, raceReport())
		return
	}
	bad := ""
	if c.Guard(func() string { return s.name }, func() { bad = check() }) && bad != "" {
		c.Violate("", "%s\n%s", s.name, bad)
	}
}

func raceReport() string {
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			s := string(b)
			if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
				s = s[i:]
			}
			var out []string
			for _, l := range strings.Split(s, "\n") {
				if t := strings.TrimSpace(l); t != "" && !strings.HasPrefix(t, "====") {
					out = append(out, t)
				}
			}
			if len(out) > 24 {
				out = out[:24]
			}
			return strings.Join(out, "\n")
		}
	}
	return ""
}

// fullResult renders everything a thread observes of a parse.
func fullResult(ok bool, pos int, c *memo.Capture, errs []vm.ParseError) string {
	x := ires{ok, pos, c, errs}
	if ok {
		return fmt.Sprintf("%s root [%d,%d)", x, c.Start(), c.End())
	}
	return x.String()
}

// plain renders a reference result as a real one.
func plain(r mres) string {
	r.abort = false
	return r.String()
}

func compileP(p *P) isa.Program {
	return pattern.MustCompile(p.build())
}

// shareCode: threads run one parser on their own documents.
func shareCode(p *P, docs ...string) *scenario {
	prog := compileP(p)
	want := make([]string, len(docs))
	for i, d := range docs {
		r := ref(p, d)
		want[i] = plain(r)
	}
	return &scenario{name: fmt.Sprintf("%s shared by parses of %q", p, docs), mk: func() ([]func(), func() string) {
		code := vm.Encode(prog)
		got := make([]ires, len(docs))
		txt := make([]string, len(docs))
		bodies := make([]func(), len(docs))
		for i, d := range docs {
			bodies[i] = func() {
				got[i] = run(&code, d, memo.NoneTable{})
				txt[i] = got[i].String()
			}
		}
		return bodies, func() string {
			for i := range docs {
				if txt[i] != want[i] {
					return fmt.Sprintf("parse of %q: expected %s; got %s", docs[i], want[i], txt[i])
				}
				if t := got[i].String(); t != want[i] {
					return fmt.Sprintf("after both parses the result of %q reads %s; it was %s", docs[i], t, want[i])
				}
			}
			return ""
		}
	}}
}

// shareTable: n threads parse the same document with one parser and one table.
// before is parsed and edited first; after is an edit made when all are done,
// followed by one more parse.
func shareTable(p *P, n, threshold int, before string, es []edit, after *edit) *scenario {
	prog := compileP(p)
	d := before
	for _, e := range es {
		d = e.apply(d)
	}
	r := ref(p, d)
	want := plain(r)
	name := fmt.Sprintf("%s and a table with threshold %d shared by %d parses of %q", p, threshold, n, d)
	if len(es) > 0 {
		name += fmt.Sprintf(" (%q parsed before, edited by %v)", before, es)
	}
	return &scenario{name: name, mk: func() ([]func(), func() string) {
		code := vm.Encode(prog)
		tbl := memo.NewTreeTable(threshold)
		var old []ires
		if len(es) > 0 {
			cur := before
			old = append(old, run(&code, cur, tbl))
			for _, e := range es {
				tbl.ApplyEdit(memo.Edit{Start: e.s, End: e.e, Len: len(e.ins)})
				cur = e.apply(cur)
			}
		}
		got := make([]ires, n)
		txt := make([]string, n)
		bodies := make([]func(), n)
		for i := range bodies {
			bodies[i] = func() {
				got[i] = run(&code, d, tbl)
				txt[i] = got[i].String()
			}
		}
		return bodies, func() string {
			for i := range txt {
				if txt[i] != want {
					return fmt.Sprintf("parse %d: expected %s; got %s", i, want, txt[i])
				}
				if t := got[i].String(); t != want {
					return fmt.Sprintf("after all parses the result of parse %d reads %s; it was %s", i, t, want)
				}
			}
			if x := run(&code, d, tbl); x.String() != want {
				return fmt.Sprintf("a later parse with the table: expected %s; got %s", want, x)
			}
			if after != nil {
				tbl.ApplyEdit(memo.Edit{Start: after.s, End: after.e, Len: len(after.ins)})
				nd := after.apply(d)
				r2 := ref(p, nd)
				if r2.undef == "" {
					if x := run(&code, nd, tbl); diff(r2, x, false) != "" {
						return fmt.Sprintf("a later parse after edit %v: %s", *after, diff(r2, x, false))
					}
				}
			}
			return ""
		}
	}}
}

// shareStream: threads parse or read one wrapped stream.
func shareStream(p *P, d string, steps []sstep, n int, reads [][2]int) *scenario {
	var prog isa.Program
	want := ""
	if p != nil {
		prog = compileP(p)
		want = plain(ref(p, d))
	}
	name := fmt.Sprintf("a stream of %d bytes delivered as %s", len(d), scriptString(steps))
	if p != nil {
		name += fmt.Sprintf(" shared by %d parses with %s", n, p)
	}
	for _, r := range reads {
		name += fmt.Sprintf(", read [%d,%d)", r[0], r[0]+r[1])
	}
	return &scenario{name: name, mk: func() ([]func(), func() string) {
		s := &scripted{b: []byte(d), steps: append([]sstep(nil), steps...), final: io.EOF}
		at := input.FromReader(s)
		var code vm.Code
		if p != nil {
			code = vm.Encode(prog)
		}
		var bodies []func()
		txt := make([]string, n)
		for i := 0; i < n; i++ {
			bodies = append(bodies, func() {
				ok, pos, c, errs := code.Exec(at, memo.NoneTable{})
				txt[i] = ires{ok, pos, c, errs}.String()
			})
		}
		bads := make([]string, len(reads))
		for i, r := range reads {
			bodies = append(bodies, func() {
				buf := make([]byte, r[1])
				k, err := at.ReadAt(buf, int64(r[0]))
				w := ""
				if r[0] < len(d) {
					w = d[r[0]:min(len(d), r[0]+r[1])]
				}
				if string(buf[:k]) != w || (err == nil) != (k == r[1]) && !(k == r[1] && err == io.EOF) {
					bads[i] = fmt.Sprintf("ReadAt(%d bytes, %d) gave %q, %v; expected %q", r[1], r[0], clip(string(buf[:k])), err, clip(w))
				}
			})
		}
		return bodies, func() string {
			for i := range txt {
				if txt[i] != want {
					return fmt.Sprintf("parse %d: expected %s; got %s", i, want, txt[i])
				}
			}
			for _, b := range bads {
				if b != "" {
					return b
				}
			}
			return ""
		}
	}}
}

// tabOp is an atomic operation on a table.
type tabOp struct {
	name string
	do   func(t *memo.TreeTable) string
}

func tabPut(id, pos, n, exam int) tabOp {
	return tabOp{fmt.Sprintf("Put(%d,%d,len %d,examined %d)", id, pos, n, exam), func(t *memo.TreeTable) string {
		t.Put(id, pos, n, exam, 1, []*memo.Capture{memo.NewCaptureNode(id, pos, n, nil)})
		return ""
	}}
}

func tabGet(id, pos int) tabOp {
	return tabOp{fmt.Sprintf("Get(%d,%d)", id, pos), func(t *memo.TreeTable) string {
		e, ok := t.Get(id, pos)
		if !ok {
			return "none"
		}
		return fmt.Sprint(e.Length(), e.Examined(), e.Pos(), e.Captures()[0].Start())
	}}
}

func tabSize() tabOp {
	return tabOp{"Size()", func(t *memo.TreeTable) string { return fmt.Sprint(t.Size()) }}
}

func tabAll() tabOp {
	return tabOp{"AllValues()", func(t *memo.TreeTable) string {
		s := ""
		for _, e := range t.AllValues() {
			s += fmt.Sprint(e.Length(), ",", e.Examined(), ",", e.Pos(), " ")
		}
		return s
	}}
}

func tabFinal(t *memo.TreeTable) string {
	return tabAll().do(t) + tabSize().do(t) + tabGet(1, 2).do(t) + tabGet(1, 3).do(t)
}

// shareTabOps: threads run short operation sequences on one table; every
// combination of answers must be one that some serial order gives.
func shareTabOps(pre []tabOp, shift bool, seqs ...[]tabOp) *scenario {
	var names []string
	for _, s := range seqs {
		var ns []string
		for _, o := range s {
			ns = append(ns, o.name)
		}
		names = append(names, strings.Join(ns, "; "))
	}
	var pn []string
	for _, o := range pre {
		pn = append(pn, o.name)
	}
	fresh := func() *memo.TreeTable {
		t := memo.NewTreeTable(0)
		for _, o := range pre {
			o.do(t)
		}
		if shift {
			t.ApplyEdit(memo.Edit{Start: 0, End: 0, Len: 1})
		}
		return t
	}
	// all serial orders
	legal := map[string]bool{}
	idx := make([]int, len(seqs))
	var order []int
	var rec func()
	rec = func() {
		done := true
		for i := range seqs {
			if idx[i] < len(seqs[i]) {
				done = false
				idx[i]++
				order = append(order, i)
				rec()
				order = order[:len(order)-1]
				idx[i]--
			}
		}
		if done {
			t := fresh()
			at := make([]int, len(seqs))
			out := make([]string, len(seqs))
			for _, i := range order {
				out[i] += seqs[i][at[i]].do(t) + "; "
				at[i]++
			}
			legal[strings.Join(out, "| ")+" final "+tabFinal(t)] = true
		}
	}
	rec()
	return &scenario{name: fmt.Sprintf("table after [%s] (shifted: %v) used by threads [%s]", strings.Join(pn, "; "), shift, strings.Join(names, " | ")), mk: func() ([]func(), func() string) {
		t := fresh()
		out := make([]string, len(seqs))
		bodies := make([]func(), len(seqs))
		for i, s := range seqs {
			bodies[i] = func() {
				for _, o := range s {
					out[i] += o.do(t) + "; "
				}
			}
		}
		return bodies, func() string {
			got := strings.Join(out, "| ") + " final " + tabFinal(t)
			if !legal[got] {
				return fmt.Sprintf("answers %s are those of no serial order (%d possible)", got, len(legal))
			}
			return ""
		}
	}}
}

// compiling: threads build and compile their own patterns.
func compiling(name string, pkgs []string, work ...func() string) *scenario {
	want := make([]string, len(work))
	for i, w := range work {
		want[i] = w()
	}
	return &scenario{name: name, pkgs: pkgs, mk: func() ([]func(), func() string) {
		got := make([]string, len(work))
		bodies := make([]func(), len(work))
		for i, w := range work {
			bodies[i] = func() { got[i] = w() }
		}
		return bodies, func() string {
			for i := range got {
				if got[i] != want[i] {
					return fmt.Sprintf("thread %d: alone it gives %s, here %s", i, want[i], got[i])
				}
			}
			return ""
		}
	}}
}

// useMemo compiles a pattern with memo entries of its own and parses with a
// table, so that two patterns with one id show.
func useMemo(mk func() pattern.Pattern, docs ...string) func() string {
	return func() string {
		code := vm.Encode(pattern.MustCompile(mk()))
		t := memo.NewTreeTable(0)
		s := ""
		for _, d := range docs {
			s += run(&code, d, t).String() + "; "
			t.ApplyEdit(memo.Edit{Start: 0, End: 1000, Len: 1000})
		}
		return s
	}
}

func runAllScenarios(c *Ctx, ss []*scenario, gran, bound int) {
	for _, s := range ss {
		if !exploreAll(c, s, gran, bound) {
			return
		}
	}
}

// Patterns the threads share.
func concPatterns() []*P {
	bs := check(plus(set("ab")), chkMap, 1, 2)
	return []*P{
		star(capt(or(lit("a"), lit("bb"), any(1)), 1)),
		seq(star(set("ab")), capt(opt(lit("c")), 2), not(any(1))),
		gram("S", map[string]*P{"S": capt(or(seq(lit("("), nt("S"), lit(")"), nt("S")), empty()), 1)}),
		star(or(capt(seq(lit("a"), or(lit("b"), errp("want b", and(any(1))))), 1), errp("skip", any(1)))),
		seq(star(capt(lit("a"), 1)), or(lit("b"), errp("fatal", nil))),
		seq(capt(bs, 3), star(any(1))),
		seq(refChk(plus(lit("a")), 1, lit("b")), capt(star(any(1)), 2)),
		search(capt(lit("ab"), 1)),
		star(or(seq(assertp(syntax.EmptyWordBoundary), capt(any(1), 1)), any(1))),
		star(memoP(capt(set("ab"), 1))),
	}
}

func init() {
	stmts := func(th bool) string { return fmt.Sprintf("<=%d preemptions at statement granularity", pick(th, 1, 2)) }
	register(&Property{ID: "C27",
		Assume: []string{"between two statements a thread is not interrupted, except as far as the race detector covers it: it runs on every schedule and sees only the program's own synchronization", "each goroutine compiles its own pattern values", "the table is shared by full parses (not interval parses) of one document, errors reported inside memoized patterns excepted"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"parser", "10 parsers (captures, recursion, errors, map checkers, back-references, search, word boundaries, memo), each shared by 2 parses of its own documents: all schedules with " + stmts(th), func(c *Ctx) {
					docs := [][2]string{{"ab", "ba"}, {"abb", "abb"}, {"aab", ""}}
					var ss []*scenario
					for _, p := range concPatterns() {
						if p.Op == oGram {
							ss = append(ss, shareCode(p, "(())", "()"))
							continue
						}
						for _, d := range docs {
							ss = append(ss, shareCode(p, d[0], d[1]))
						}
					}
					runAllScenarios(c, ss, 0, pick(th, 1, 2))
				}},
				{"parser-3", "the same parsers shared by 3 parses: all schedules with <=1 preemption at statement granularity", func(c *Ctx) {
					var ss []*scenario
					for _, p := range concPatterns() {
						ss = append(ss, shareCode(p, "ab", "ba", "aa"))
					}
					runAllScenarios(c, ss, 0, 1)
				}},
				{"table-locks", "7 memoizing grammars, a parser and a memo table (thresholds 0 and 2) shared by 2 parses of one document: all schedules with <=3 preemptions at synchronization operations", func(c *Ctx) {
					runAllScenarios(c, tableScenarios(2), 1, 3)
				}},
				{"table-locks-3", fmt.Sprintf("the same shared by 3 parses: all schedules with <=%d preemptions at synchronization operations", pick(th, 1, 2)), func(c *Ctx) {
					runAllScenarios(c, tableScenarios(3), 1, pick(th, 1, 2))
				}},
				{"table", "the same grammars shared by 2 parses: all schedules with <=1 preemption at statement granularity", func(c *Ctx) {
					runAllScenarios(c, tableScenarios(2), 0, 1)
				}},
				{"table-small", fmt.Sprintf("memoized repetitions and rules on documents of 1 and 2 bytes, 2 parses: all schedules with <=%d preemptions at the statements of package memo and its interval tree, and <=%d at synchronization operations", pick(th, 1, 2), pick(th, 4, 6)), func(c *Ctx) {
					var ss, locks []*scenario
					for _, p := range []*P{star(memoP(capt(set("ab"), 1))), memoP(capt(star(set("ab")), 1)), seq(memoP(capt(lit("a"), 1)), memoP(opt(lit("b")))), star(memoP(capt(memoP(set("ab")), 2)))} {
						for _, d := range []string{"a", "ab"} {
							e := ed(0, 0, "b")
							s := shareTable(p, 2, 0, d, nil, &e)
							s.pkgs = []string{"memo", "memo/interval", "memo/interval/lazylog"}
							ss = append(ss, s)
							if len(d) == 1 || p.Op != oStar {
								locks = append(locks, s)
							}
						}
					}
					runAllScenarios(c, ss, 0, pick(th, 1, 2))
					runAllScenarios(c, locks, 1, pick(th, 4, 6))
				}},
				{"table-edited", fmt.Sprintf("tables filled by an earlier parse and edited (pending shifts), then shared by 2 parses: all schedules with <=%d preemptions at synchronization operations, and 1 at statement granularity", pick(th, 2, 3)), func(c *Ctx) {
					var ss []*scenario
					for _, x := range []struct {
						p *P
						d string
						e []edit
					}{
						{star(memoP(capt(set("ab"), 1))), "ab", []edit{ed(0, 0, "a")}},
						{star(memoP(capt(set("ab"), 1))), "abb", []edit{ed(1, 2, "")}},
						{tokensG(), "a b", []edit{ed(0, 0, "b ")}},
						{arithG(), "1+2", []edit{ed(0, 0, "1+"), ed(3, 4, "*")}},
						{parensG(), "()", []edit{ed(1, 1, "()")}},
						{seq(memoP(capt(lit("a"), 1)), star(capt(memoP(seq(lit("b"), opt(lit("c")))), 2))), "abcb", []edit{ed(1, 1, "b")}},
					} {
						ss = append(ss, shareTable(x.p, 2, 0, x.d, x.e, &edit{s: 0, e: 0, ins: "a"}))
					}
					runAllScenarios(c, ss, 1, pick(th, 2, 3))
					runAllScenarios(c, ss, 0, 1)
				}},
				{"table-operations", "a memo table used directly by 2 threads with 1-2 operations each and by 3 threads with 1 out of {Put, Get, Size, AllValues} on colliding keys, empty, pre-filled and shifted tables: every schedule with <=2 preemptions at statement granularity; answers must be those of a serial order", func(c *Ctx) {
					ops := []tabOp{tabPut(1, 2, 1, 2), tabPut(1, 2, 2, 5), tabPut(1, 3, 1, 1), tabGet(1, 2), tabGet(1, 3), tabSize(), tabAll()}
					pre := [][]tabOp{nil, {tabPut(1, 2, 1, 3), tabPut(1, 3, 2, 2), tabPut(2, 2, 1, 1), tabPut(1, 5, 1, 1)}}
					for pi, p := range pre {
						for _, shift := range []bool{false, true} {
							if shift && pi == 0 {
								continue
							}
							for i, a := range ops {
								for j, b := range ops {
									if j < i {
										continue
									}
									if !exploreAll(c, shareTabOps(p, shift, []tabOp{a}, []tabOp{b}), 0, pick(th, 1, 2)) {
										return
									}
									for k, x := range ops {
										if !exploreAll(c, shareTabOps(p, shift, []tabOp{a, x}, []tabOp{b}), 1, 3) {
											return
										}
										if k >= j && !exploreAll(c, shareTabOps(p, shift, []tabOp{a}, []tabOp{b}, []tabOp{x}), 1, 2) {
											return
										}
									}
								}
							}
						}
					}
				}},
				{"stream", fmt.Sprintf("a wrapped stream (several delivery scripts) shared by 2 parses, or by 2 and 3 reads at colliding offsets: all schedules with <=%d preemptions at synchronization operations and %s", pick(th, 3, 4), stmts(th)), func(c *Ctx) {
					long := docBytes(4096 + 40)
					var ss []*scenario
					one := func(n int) (s []sstep) {
						for i := 0; i < n; i++ {
							s = append(s, sstep{1, nil})
						}
						return s
					}
					for _, p := range []*P{star(capt(set("ab"), 1)), seq(star(lit("a")), capt(star(any(1)), 2)), search(capt(lit("b"), 1))} {
						for _, st := range [][]sstep{nil, one(4), {{2, nil}, {0, nil}, {2, nil}}, {{4, io.EOF}}} {
							ss = append(ss, shareStream(p, "aabb", st, 2, nil))
						}
						ss = append(ss, shareStream(p, "aabb", one(4), 1, [][2]int{{1, 2}}), shareStream(p, "", nil, 2, nil))
					}
					skip := seq(repeat(any(128), 32), capt(any(8), 1), star(any(16)))
					ss = append(ss, shareStream(skip, string(long), nil, 2, nil), shareStream(skip, string(long), []sstep{{4095, nil}, {2, nil}}, 2, nil))
					offs := [][2]int{{0, 2}, {1, 3}, {3, 4}, {0, 6}, {5, 1}, {7, 2}}
					for i, a := range offs {
						for _, b := range offs[i:] {
							for _, st := range [][]sstep{one(6), {{3, nil}, {3, nil}}, {{2, nil}, {4, io.EOF}}} {
								ss = append(ss, shareStream(nil, "abcdef", st, 0, [][2]int{a, b}))
								if st[0].n == 3 {
									ss = append(ss, shareStream(nil, "abcdef", st, 0, [][2]int{a, b, {2, 3}}))
								}
							}
						}
					}
					runAllScenarios(c, ss, 1, pick(th, 3, 4))
					runAllScenarios(c, ss, 0, pick(th, 1, 2))
				}},
				{"compile", "2 threads that construct, compile and use their own patterns (memo, memoized repetitions, choices with labels, grammars, textual PEGs, converted regular expressions, sets): all schedules with <=1 preemption at the statements of packages pattern, isa, re, rxconv, charset", func(c *Ctx) {
					pk := []string{"pattern", "isa", "charset", "rxconv", "re"}
					m := func() pattern.Pattern {
						return pattern.Concat(pattern.Memo(pattern.Cap(pattern.Literal("a"), 1)), pattern.Star(pattern.Memo(pattern.Cap(pattern.Set(charset.New([]byte("bc"))), 2))), pattern.Memo(pattern.Cap(pattern.Optional(pattern.Literal("d")), 3)))
					}
					ch2 := func() pattern.Pattern {
						return pattern.Or(pattern.Concat(pattern.Literal("ab"), pattern.Optional(pattern.Literal("xy"))), pattern.Concat(pattern.Star(pattern.Literal("ac")), pattern.Not(pattern.Literal("d"))))
					}
					peg := func(s string) func() pattern.Pattern {
						return func() pattern.Pattern { return re.MustCompile(s) }
					}
					rx := func(s string) func() pattern.Pattern {
						return func() pattern.Pattern {
							p, err := rxconv.FromRegexp(s, 0)
							if err != nil {
								panic(err)
							}
							return p
						}
					}
					runAllScenarios(c, []*scenario{
						compiling("two patterns with memo entries", pk, useMemo(m, "abcd", "ab"), useMemo(m, "accd", "ad")),
						compiling("two patterns with choices", pk, useMemo(ch2, "abxy", "acac"), useMemo(ch2, "ab", "d")),
						compiling("memo entries and choices", pk, useMemo(m, "abcd", "ab"), useMemo(ch2, "ab", "acd")),
						compiling("two regular expressions", pk, useMemo(rx("(a|b)*c"), "abc", "ac"), useMemo(rx("(x|y*)z"), "yyz", "xz")),
					}, 0, 1)
					runAllScenarios(c, []*scenario{
						compiling("two textual patterns", pk, useMemo(peg("'a' [b-c]* / 'd'"), "abc", "d"), useMemo(peg("{{ 'a' }} !'b' ."), "ac", "ab")),
						compiling("the same textual pattern", pk, useMemo(peg("('a' / 'b')+"), "ab", "c"), useMemo(peg("('a' / 'b')+"), "ab", "c")),
					}, 0, 1)
				}},
				{"compile-paths", "2 threads that each work through one part of the interface with objects of their own, " + map[bool]string{true: "all pairs out of", false: "the same one out of"}[th] + " 16 parts (textual grammars with names, escapes, classes, comments, also malformed and capturing ones; regular expressions with flags; grammars, searches, repetitions, checkers, errors; printing; the binary and JSON forms; tables with edits; streams; ropes): every schedule with <=1 preemption at synchronization operations, under the race detector", func(c *Ctx) {
					parts := apiParts()
					for i := range parts {
						for j := i; j < len(parts) && (th || j == i); j++ {
							sc := compiling(parts[i].name+" and "+parts[j].name, nil, parts[i].do, parts[j].do)
							sc.cpus = 1
							if !exploreAll(c, sc, 1, 1) {
								return
							}
						}
					}
				}},
				{"compile-names", "2 threads that compile textual grammars with names, escapes and classes, or regular expressions: all schedules with <=1 preemption at the statements of packages re and rxconv", func(c *Ctx) {
					parts := apiParts()
					for _, x := range [][2]int{{0, 1}, {1, 2}, {0, 3}, {5, 6}, {2, 2}} {
						a, b := parts[x[0]], parts[x[1]]
						if !exploreAll(c, compiling(a.name+" and "+b.name, []string{"re", "rxconv"}, a.do, b.do), 0, 1) {
							return
						}
					}
				}},
			}
		}})
	register(&Property{ID: "C29",
		Assume: []string{"between two statements a thread is not interrupted, except as far as the race detector covers it"},
		Spaces: func(th bool) []Space {
			return []Space{
				{"build", fmt.Sprintf("ropes of 0..12 bytes, leaf sizes 1..4, built on 1..4 cores: all schedules of the loading goroutines with <=%d preemptions at statement granularity", pick(th, 1, 2)), func(c *Ctx) {
					for cpus := 1; cpus <= 4; cpus++ {
						for n := 0; n <= 12; n++ {
							for split := 1; split <= 4; split++ {
								bound := pick(th, 1, 2)
								if cpus > 3 || cpus*n/split > 12 {
									bound = 1
								}
								if !exploreAll(c, ropeBuild(n, split, cpus), 0, bound) {
									return
								}
							}
						}
					}
				}},
				{"build-locks", "the same, all schedules with <=3 preemptions at synchronization operations", func(c *Ctx) {
					for cpus := 2; cpus <= 4; cpus++ {
						for n := 0; n <= 12; n += 3 {
							if !exploreAll(c, ropeBuild(n, 2, cpus), 1, pick(th, 2, 3)) {
								return
							}
						}
					}
				}},
				{"readers", fmt.Sprintf("one rope (fresh, edited, unbalanced, rebalanced) read by 2 goroutines with every pair of read operations, or parsed by 2 goroutines: all schedules with <=%d preemptions (<=1 with a parse) at statement granularity", pick(th, 1, 2)), func(c *Ctx) {
					for kind := 0; kind < 4; kind++ {
						for i := range ropeReads {
							for j := i; j < len(ropeReads); j++ {
								bound := pick(th, 1, 2)
								if j == len(ropeReads)-1 {
									bound = 1 // a parse takes too many steps
								}
								if !exploreAll(c, ropeReaders(kind, i, j), 0, bound) {
									return
								}
							}
						}
					}
				}},
			}
		}})
}

func tableScenarios(n int) (ss []*scenario) {
	ab := star(memoP(capt(set("ab"), 1)))
	nest := star(seq(memoP(capt(seq(lit("a"), star(memoP(capt(lit("b"), 2)))), 1)), opt(lit(";"))))
	add := func(p *P, d string, e edit) {
		for _, t := range []int{0, 2} {
			ss = append(ss, shareTable(p, n, t, d, nil, &e))
		}
	}
	if n == 2 {
		add(ab, "abab", ed(1, 1, "b"))
		add(nest, "abb;a", ed(0, 0, "a"))
		add(arithG(), "1+2*1", ed(2, 3, "2"))
		add(parensG(), "(())", ed(1, 1, "()"))
		add(tokensG(), "ab b", ed(2, 3, ""))
		add(stmtsG(), "ab;{b}", ed(1, 2, ""))
		add(lookG(1), "aab", ed(2, 2, "a"))
		return
	}
	add(ab, "aba", ed(1, 1, "b"))
	add(nest, "abb", ed(0, 0, "a"))
	add(arithG(), "1+2", ed(2, 3, "2"))
	add(tokensG(), "a b", ed(1, 2, ""))
	return
}

func ropeBuild(n, split, cpus int) *scenario {
	text := []byte(strings.Repeat("ab\ncd", 4)[:n])
	return &scenario{name: fmt.Sprintf("linerope.NewWithOpts of %d bytes with SplitLen %d on %d cores", n, split, cpus), cpus: cpus, mk: func() ([]func(), func() string) {
		var r *linerope.Node
		b := append([]byte(nil), text...)
		var val string
		body := func() {
			r = linerope.NewWithOpts(b, ropeOpts(split, max(1, split/2), "\n"))
			val = string(r.Value())
		}
		return []func(){body}, func() string {
			if val != string(text) {
				return fmt.Sprintf("the rope read %q when its constructor returned, expected %q", val, text)
			}
			if bad := checkText(r, string(text)); bad != "" {
				return bad
			}
			return checkLines(r, string(text), "\n")
		}
	}}
}

var ropeReads = []struct {
	name string
	do   func(r *linerope.Node, code *vm.Code) string
}{
	{"Value", func(r *linerope.Node, _ *vm.Code) string { return string(r.Value()) }},
	{"ReadAt", func(r *linerope.Node, _ *vm.Code) string {
		b := make([]byte, 5)
		n, err := r.ReadAt(b, 2)
		return fmt.Sprint(string(b[:n]), err)
	}},
	{"LineColAt and OffsetAt", func(r *linerope.Node, _ *vm.Code) string {
		l, c := r.LineColAt(5)
		return fmt.Sprint(l, c, r.OffsetAt(1, 1), r.NumLines())
	}},
	{"SliceLC", func(r *linerope.Node, _ *vm.Code) string { return string(r.SliceLC(0, 1, 1, 2)) }},
	{"At and EachLeaf", func(r *linerope.Node, _ *vm.Code) string {
		s := string(r.At(3))
		r.EachLeaf(func(l *linerope.Node) bool { s += string(l.Value()) + "|"; return false })
		return s
	}},
	{"WriteTo", func(r *linerope.Node, _ *vm.Code) string {
		var sb strings.Builder
		r.WriteTo(&sb)
		return sb.String()
	}},
	{"parse", func(r *linerope.Node, code *vm.Code) string {
		ok, pos, c, errs := code.Exec(r, memo.NoneTable{})
		return fullResult(ok, pos, c, errs)
	}},
}

func ropeReaders(kind, i, j int) *scenario {
	prog := compileP(star(capt(or(plus(set("abcd")), any(1)), 1)))
	mkRope := func() *linerope.Node {
		r := linerope.NewWithOpts([]byte("ab\ncdab\n"), ropeOpts(3, 2, "\n"))
		switch kind {
		case 1:
			r.Insert(3, []byte("xy\nz"))
			r.Remove(1, 2)
		case 2, 3:
			for k := 0; k < 4; k++ {
				r.Insert(r.Len(), []byte("q\nr"))
			}
			if kind == 3 {
				r.Rebalance()
			}
		}
		return r
	}
	kinds := []string{"fresh", "edited", "unbalanced", "rebalanced"}
	sched.SetNumCPU(1)
	defer sched.SetNumCPU(0)
	ops := []int{i, j}
	want := make([]string, 2)
	for k, o := range ops {
		code := vm.Encode(prog)
		want[k] = ropeReads[o].do(mkRope(), &code)
	}
	return &scenario{name: fmt.Sprintf("%s rope, %s | %s", kinds[kind], ropeReads[i].name, ropeReads[j].name), cpus: 1, mk: func() ([]func(), func() string) {
		r := mkRope()
		code := vm.Encode(prog)
		got := make([]string, 2)
		var bodies []func()
		for k, o := range ops {
			bodies = append(bodies, func() { got[k] = ropeReads[o].do(r, &code) })
		}
		return bodies, func() string {
			for k := range got {
				if got[k] != want[k] {
					return fmt.Sprintf("%s gave %q, expected %q", ropeReads[ops[k]].name, got[k], want[k])
				}
			}
			return ""
		}
	}}
}

type apiPart struct {
	name string
	do   func() string
}

// apiParts are pieces of work on objects of their own that together go through
// the whole interface.
func apiParts() []apiPart {
	peg := func(s string, docs ...string) func() string {
		return func() string {
			p, err := re.Compile(s)
			if err != nil {
				return "error: " + err.Error()
			}
			code := vm.Encode(pattern.MustCompile(p))
			out := ""
			for _, d := range docs {
				out += run(&code, d, memo.NoneTable{}).String() + "; "
			}
			return out
		}
	}
	rx := func(s string, flags syntax.Flags, docs ...string) func() string {
		return func() string {
			p, err := rxconv.FromRegexp(s, flags)
			if err != nil {
				return "error: " + err.Error()
			}
			code := vm.Encode(pattern.MustCompile(p))
			out := ""
			for _, d := range docs {
				out += run(&code, d, memo.NoneTable{}).String() + "; "
			}
			return out
		}
	}
	spec := func(p func() *P, docs ...string) func() string {
		return func() string {
			code := vm.Encode(pattern.MustCompile(p().build()))
			out := ""
			for _, d := range docs {
				tbl := memo.NewTreeTable(0)
				out += run(&code, d, tbl).String() + run(&code, d, tbl).String() + "; "
			}
			return out
		}
	}
	return []apiPart{
		{"a grammar with names", peg("Alpha <- Beta 'x' Gamma / Gamma\nBeta <- 'b'+ # rest\nGamma <- !Beta . Alpha?", "bx", "bbxcbx", "c")},
		{"a grammar with escapes", peg("S1 <- '\\n' \"\\x\" / [\\101-\\103\\]\\-] T2*\nT2 <- '\\'' / [^a-z\\t]", "\n", "A", "B'Z", "]-")},
		{"a capturing grammar", func() string {
			ids := map[string]int{}
			p, err := re.CompileCap("Expr <- {{ [0-9]+ }} ('+' Expr)?", ids)
			if err != nil {
				return err.Error()
			}
			code := vm.Encode(pattern.MustCompile(p))
			return fmt.Sprint(ids, run(&code, "1+22", memo.NewTreeTable(0)), run(&code, "x", memo.NewTreeTable(0)))
		}},
		{"malformed texts", func() string {
			out := ""
			for _, s := range []string{"A <-", "'a", "[z", "A <- B", "(a", "&", "A <- 'a' B <- C"} {
				_, err := re.Compile(s)
				out += fmt.Sprint(err != nil, "; ")
			}
			return out
		}},
		{"precedence and spacing", peg("('a'+ / !'d' .)+  &'d'?\r\n 'd'", "aad", "d", "xd")},
		{"a regular expression", rx("^(ab|c+?d)*[^x-z]$", 0, "abq", "ccdab\n", "z")},
		{"a folded regular expression", rx("(?i)k(s|[a-c])\\b|(?s).x", syntax.Perl, "K\u017f", "ks", "\nx", "kB ")},
		{"a grammar value", spec(func() *P {
			return gram("S", map[string]*P{"S": or(seq(lit("("), nt("S"), lit(")"), nt("T")), nt("T")), "T": star(memoP(capt(set("ab"), 1)))})
		}, "(ab)a", "((b))", "")},
		{"searches and repetitions", spec(func() *P {
			return seq(search(seq(set("k"), repeat(any(1), 2))), plus(or(lit("ab"), capt(nset("x"), 3))), not(lit("x")))
		}, "aak12abc", "k1", "xxk12cx")},
		{"checkers", spec(func() *P {
			return seq(refChk(plus(lit("a")), 1, lit("b")), opt(check(any(2), chkMap, 1, 2)))
		}, "aabaa", "abab", "abbb")},
		{"errors and assertions", spec(func() *P {
			return star(or(capt(seq(lit("a"), assertp(syntax.EmptyWordBoundary)), 1), errp("no word", any(1))))
		}, "a a", "ab", "  a")},
		{"printing", func() string {
			p := arithG().build()
			prog := pattern.MustCompile(p)
			return fmt.Sprint(len(prog.String()) > 0, charset.Range('a', 'f').String(), prog.Size())
		}},
		{"binary and JSON forms", func() string {
			code := vm.Encode(pattern.MustCompile(star(or(capt(lit("a"), 1), set("xy"), check(lit("b"), chkMap, 1, 1), errp("e", any(1)))).build()))
			b, err := code.ToBytes()
			if err != nil {
				return err.Error()
			}
			c2, err := vm.FromBytes(b)
			if err != nil {
				return err.Error()
			}
			plain := vm.Encode(pattern.MustCompile(star(or(capt(lit("a"), 1), set("xy"))).build()))
			j, err := plain.ToJson()
			if err != nil {
				return err.Error()
			}
			c3, err := vm.FromJson(j)
			if err != nil {
				return err.Error()
			}
			return run(&c2, "axbyc", memo.NoneTable{}).String() + run(&c3, "axya", memo.NoneTable{}).String()
		}},
		{"a table with edits", func() string {
			code := vm.Encode(pattern.MustCompile(tokensG().build()))
			t := memo.NewTreeTable(0)
			out := run(&code, "ab #b\na", t).String()
			t.ApplyEdit(memo.Edit{Start: 1, End: 2, Len: 3})
			out += run(&code, "aaba #b\na", t).String()
			t.ApplyEdit(memo.Edit{Start: 4, End: 6, Len: 0})
			out += run(&code, "aabab\na", t).String()
			return out + fmt.Sprint(t.Size())
		}},
		{"a stream", func() string {
			code := vm.Encode(pattern.MustCompile(star(capt(set("ab"), 1)).build()))
			s := &scripted{b: []byte("abbac"), steps: []sstep{{1, nil}, {2, nil}, {0, nil}, {2, nil}}, final: io.EOF}
			ok, pos, cp, errs := code.Exec(input.FromReader(s), memo.NoneTable{})
			return ires{ok, pos, cp, errs}.String()
		}},
		{"a rope", func() string {
			r := linerope.NewWithOpts([]byte("ab\ncd\nef"), ropeOpts(3, 2, "\n"))
			r.Insert(3, []byte("x\ny"))
			r.Remove(1, 4)
			l, col := r.LineColAt(4)
			a, b := r.SplitAt(3)
			a = linerope.Join(a, b)
			code := vm.Encode(pattern.MustCompile(star(capt(nset("\n"), 1)).build()))
			ok, pos, cp, errs := code.Exec(a, memo.NoneTable{})
			return fmt.Sprint(string(a.Value()), l, col, a.NumLines(), ires{ok, pos, cp, errs})
		}},
	}
}
