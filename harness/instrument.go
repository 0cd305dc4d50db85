package main

// Instrumentation for C27 and C29: writes an overlay in which every statement
// of gpeg's packages is preceded by a scheduling point, package sync is
// replaced by one that the scheduler controls, and go statements start threads
// of the scheduler. /repo itself is not touched.

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// libraryPackages lists the directories of repo that hold a package other than
// main, relative to it.
func libraryPackages(repo string) []string {
	var out []string
	filepath.WalkDir(repo, func(p string, d fs.DirEntry, err error) error {
		if err != nil || !d.IsDir() {
			return nil
		}
		if n := d.Name(); p != repo && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
			return filepath.SkipDir
		}
		if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil && p != repo {
			return filepath.SkipDir // another module
		}
		files, _ := filepath.Glob(filepath.Join(p, "*.go"))
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.PackageClauseOnly)
			if err == nil && a.Name.Name != "main" {
				rel, _ := filepath.Rel(repo, p)
				out = append(out, rel)
				break
			}
		}
		return nil
	})
	return out
}

type pointTable struct {
	Pkgs map[string][2]int // range of point numbers of each package
	Locs []string          // point number to position
	Chan []string          // where channels are used, which the scheduler does not control
}

type insertion struct {
	off  int
	del  int
	text string
	ord  int
}

const schedPath = "github.com/zyedidia/gpeg/verifsched"

func instrument(args []string) int {
	if len(args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: gpegmc instrument REPO SCHEDDIR OUT")
		return 2
	}
	repo, schedDir, out := args[0], args[1], args[2]
	overlay := map[string]string{
		filepath.Join(repo, "verifsched/sched.go"):     filepath.Join(schedDir, "sched.go"),
		filepath.Join(repo, "verifsched/sync/sync.go"): filepath.Join(schedDir, "sync/sync.go"),
	}
	tbl := pointTable{Pkgs: map[string][2]int{}, Locs: make([]string, 16)}
	for _, pkg := range libraryPackages(repo) {
		dir := filepath.Join(repo, pkg)
		ents, err := os.ReadDir(dir)
		if err != nil {
			continue // the package is gone
		}
		first := len(tbl.Locs)
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			src, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			txt, err := instrumentFile(filepath.Join(pkg, n), src, &tbl)
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			dst := filepath.Join(out, strings.ReplaceAll(filepath.Join(pkg, n), "/", "__"))
			if err := os.WriteFile(dst, []byte(txt), 0644); err != nil {
				fmt.Fprintln(os.Stderr, err)
				return 2
			}
			overlay[filepath.Join(dir, n)] = dst
		}
		tbl.Pkgs[pkg] = [2]int{first, len(tbl.Locs)}
	}
	for name, v := range map[string]interface{}{"overlay.json": map[string]interface{}{"Replace": overlay}, "points.json": tbl} {
		b, _ := json.Marshal(v)
		if err := os.WriteFile(filepath.Join(out, name), b, 0644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	return 0
}

func instrumentFile(name string, src []byte, tbl *pointTable) (string, error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return "", err
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ins []insertion
	add := func(o, del int, text string) { ins = append(ins, insertion{o, del, text, len(ins)}) }
	runtimeName := ""
	for _, im := range f.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		switch path {
		case "sync":
			add(off(im.Path.Pos()), len(im.Path.Value), strconv.Quote(schedPath+"/sync"))
		case "runtime":
			runtimeName = "runtime"
			if im.Name != nil {
				runtimeName = im.Name.Name
			}
		}
	}
	point := func(s ast.Stmt) {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			return
		}
		pos := fset.Position(s.Pos())
		text := string(src[off(s.Pos()):off(s.End())])
		kind := "P"
		switch s.(type) {
		case *ast.SendStmt, *ast.SelectStmt:
			kind = "S"
		case *ast.ExprStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.IncDecStmt:
			if strings.Contains(text, "atomic.") || strings.Contains(text, "<-") {
				kind = "S"
			}
		}
		add(off(s.Pos()), 0, fmt.Sprintf("verifsched.%s(%d); ", kind, len(tbl.Locs)))
		tbl.Locs = append(tbl.Locs, fmt.Sprintf("%s:%d", name, pos.Line))
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			point(s)
		}
	}
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		switch t := n.(type) {
		case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
			tbl.Chan = append(tbl.Chan, fset.Position(n.Pos()).String())
		case *ast.BlockStmt:
			list(t.List)
		case *ast.CaseClause:
			list(t.Body)
		case *ast.CommClause:
			list(t.Body)
		case *ast.GoStmt:
			// go f(a, b) becomes verifsched.Go(f, a, b)
			call := t.Call
			if call.Ellipsis != token.NoPos {
				add(off(t.Go), len("go"), "verifsched.Go(func() {")
				add(off(t.End()), 0, "})")
				return true
			}
			add(off(t.Go), off(call.Fun.Pos())-off(t.Go), "verifsched.Go(")
			sep := ""
			if len(call.Args) > 0 {
				sep = ", "
			}
			add(off(call.Lparen), 1, sep)
		case *ast.SelectorExpr:
			if x, ok := t.X.(*ast.Ident); ok && runtimeName != "" && x.Name == runtimeName && x.Obj == nil && (t.Sel.Name == "NumCPU" || t.Sel.Name == "GOMAXPROCS") {
				add(off(t.X.Pos()), len(x.Name), "verifsched")
				used = true
			}
		}
		return true
	})
	add(off(f.Name.End()), 0, fmt.Sprintf("; import verifsched %q", schedPath))
	tail := "\nvar _ = verifsched.P\n"
	if used {
		tail += "var _ = " + runtimeName + ".NumCPU\n"
	}
	sort.SliceStable(ins, func(i, j int) bool {
		if ins[i].off != ins[j].off {
			return ins[i].off < ins[j].off
		}
		// insertions before replacements at the same place
		return ins[i].del == 0 && ins[j].del != 0
	})
	var sb strings.Builder
	last := 0
	for _, x := range ins {
		sb.Write(src[last:x.off])
		sb.WriteString(x.text)
		last = x.off + x.del
	}
	sb.Write(src[last:])
	sb.WriteString(tail)
	return sb.String(), nil
}
