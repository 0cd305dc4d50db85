package main

// Running the real code and comparing its results with the reference.

import (
	"fmt"
	"io"
	"strings"

	"github.com/zyedidia/gpeg/input"
	"github.com/zyedidia/gpeg/isa"
	"github.com/zyedidia/gpeg/memo"
	"github.com/zyedidia/gpeg/pattern"
	"github.com/zyedidia/gpeg/vm"
)

// recChecker is a user-supplied checker that records its calls.
type recChecker struct {
	spec *chkSpec
	log  *[]chkCall
}

func (r *recChecker) Check(b []byte, src *input.Input, id, flag int) int {
	if r.log != nil {
		*r.log = append(*r.log, chkCall{string(b), src.Pos(), id, flag})
	}
	rest := make([]byte, 64)
	n, _ := src.ReadAt(rest, int64(src.Pos()))
	return r.spec.Fn(string(b), string(rest[:n]), id, flag)
}

var _ isa.Checker = &recChecker{}

// ires is the outcome of an execution of the real code.
type ires struct {
	ok   bool
	pos  int
	root *memo.Capture
	errs []vm.ParseError
}

func run(code *vm.Code, doc string, tbl memo.Table) ires {
	ok, pos, c, errs := code.Exec(strings.NewReader(doc), tbl)
	return ires{ok, pos, c, errs}
}

func compileSpec(p *P) (vm.Code, error) { return compileB(&builder{}, p) }

func compileB(b *builder, p *P) (vm.Code, error) {
	prog, err := pattern.Compile(b.build(p))
	if err != nil {
		return vm.Code{}, err
	}
	return vm.Encode(prog), nil
}

// writeCap writes a capture the way cnode.write does, using the iterator.
func writeCap(sb *strings.Builder, c *memo.Capture, depth int) {
	if depth > 200000 {
		sb.WriteString("<too deep>")
		return
	}
	writeSpan(sb, c.Id(), c.Start(), c.End())
	if c.Dummy() {
		sb.WriteString("<grouping node>")
	}
	it := c.ChildIterator(0)
	first := true
	for ch := it(); ch != nil; ch = it() {
		if first {
			sb.WriteByte('{')
			first = false
		} else {
			sb.WriteByte(' ')
		}
		writeCap(sb, ch, depth+1)
	}
	if !first {
		sb.WriteByte('}')
	}
}

// rootCaps renders the children of the root.
func rootCaps(root *memo.Capture) string {
	if root == nil {
		return ""
	}
	var sb strings.Builder
	it := root.ChildIterator(0)
	first := true
	for ch := it(); ch != nil; ch = it() {
		if !first {
			sb.WriteByte(' ')
		}
		first = false
		writeCap(&sb, ch, 0)
	}
	return sb.String()
}

func (r mres) String() string {
	if r.abort {
		return fmt.Sprintf("no match (aborted), errors %v", r.errs)
	}
	if !r.ok {
		return fmt.Sprintf("no match, errors %v", r.errs)
	}
	return fmt.Sprintf("match, end %d, captures (%s), errors %v", r.pos, capsString(r.caps), r.errs)
}

func (r ires) String() string {
	if !r.ok {
		return fmt.Sprintf("no match, errors %v", toPerrs(r.errs))
	}
	return fmt.Sprintf("match, end %d, captures (%s), errors %v", r.pos, rootCaps(r.root), toPerrs(r.errs))
}

func toPerrs(es []vm.ParseError) []perr {
	var out []perr
	for _, e := range es {
		out = append(out, perr{e.Pos, e.Message})
	}
	return out
}

// diff compares a real result with the reference; "" means they agree.
func diff(r mres, x ires, errsToo bool) string {
	if r.ok != x.ok {
		return fmt.Sprintf("expected %s; got %s", brief(r.String()), brief(x.String()))
	}
	if r.ok {
		if r.pos != x.pos {
			return fmt.Sprintf("expected %s; got %s", brief(r.String()), brief(x.String()))
		}
		if x.root == nil {
			return "match without a capture root"
		}
		if x.root.Start() != 0 || x.root.End() != r.pos || x.root.Len() != r.pos {
			return fmt.Sprintf("root covers [%d,%d), expected [0,%d)", x.root.Start(), x.root.End(), r.pos)
		}
		if (len(r.caps) != 0 || x.root.NumChildren() != 0) && capsString(r.caps) != rootCaps(x.root) {
			return fmt.Sprintf("expected %s; got %s", brief(r.String()), brief(x.String()))
		}
	}
	if errsToo {
		if len(r.errs) != len(x.errs) {
			return fmt.Sprintf("expected %s; got %s", brief(r.String()), brief(x.String()))
		}
		for i, e := range r.errs {
			if x.errs[i].Pos != e.pos || x.errs[i].Message != e.msg {
				return fmt.Sprintf("expected %s; got %s", brief(r.String()), brief(x.String()))
			}
		}
	}
	return ""
}

// same compares two real results.
func same(a, b ires, errsToo bool) string {
	if a.ok != b.ok || (a.ok && (a.pos != b.pos || rootCaps(a.root) != rootCaps(b.root))) {
		return fmt.Sprintf("expected %s; got %s", brief(a.String()), brief(b.String()))
	}
	if a.ok && (a.root.Start() != b.root.Start() || a.root.End() != b.root.End()) {
		return fmt.Sprintf("root differs: [%d,%d) and [%d,%d)", a.root.Start(), a.root.End(), b.root.Start(), b.root.End())
	}
	if errsToo && fmt.Sprint(a.errs) != fmt.Sprint(b.errs) {
		return fmt.Sprintf("expected %s; got %s", brief(a.String()), brief(b.String()))
	}
	return ""
}

// checkPattern compiles p and compares it with the reference on all docs.
// Returns false after a violation.
func checkPattern(c *Ctx, p *P, docs []string, errsToo bool) bool {
	refs := make([]mres, len(docs))
	any := false
	for i, d := range docs {
		refs[i] = ref(p, d)
		if refs[i].undef == "" {
			any = true
		}
	}
	if !any {
		c.Skip(len(docs))
		return true
	}
	var code vm.Code
	var err error
	if !c.Guard(func() string { return "compiling " + p.String() }, func() { code, err = compileSpec(p) }) {
		return false
	}
	if err != nil {
		c.Violate("", "pattern: %s\ncompilation failed: %v", p, err)
		return false
	}
	return checkCode(c, p, &code, docs, refs, errsToo, "")
}

func checkCode(c *Ctx, p *P, code *vm.Code, docs []string, refs []mres, errsToo bool, how string) bool {
	for i, d := range docs {
		r := refs[i]
		if r.undef != "" {
			c.Skip(1)
			continue
		}
		good := c.Guard(func() string { return fmt.Sprintf("pattern: %s%s\ninput: %q", p, how, clip(d)) }, func() {
			x := run(code, d, memo.NoneTable{})
			c.States(1)
			c.Traces(1)
			c.Trans(r.steps)
			if e := diff(r, x, errsToo); e != "" {
				c.Violate("", "pattern: %s%s\ninput: %q\n%s", p, how, clip(d), e)
			}
			if i&3 == 0 {
				c.Outcome(r.String())
			}
		})
		if !good || c.itemViol {
			return false
		}
	}
	c.Sample(func() string {
		i := len(docs) - 1
		return fmt.Sprintf("%s%s on %q -> %s", p, how, clip(docs[i]), refs[i])
	})
	return true
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:150] + fmt.Sprintf("...(%d bytes)...", len(s)-300) + s[len(s)-150:]
	}
	return s
}

var _ io.ReaderAt = (*strings.Reader)(nil)
