// Command instr writes an instrumented copy of the non-test Go source of a module and a -overlay file for go build.
//
// The instrumentation is purely textual and independent of what the code does: before every statement of every function
// body a call to the simulator's yield function is inserted, package sync is replaced by the simulator's primitives, and
// go statements start simulated threads. Line numbers are preserved.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off int
	end int
	txt string
}

type site struct {
	File string `json:"f"`
	Line int    `json:"l"`
	Func string `json:"fn"`
}

var sites []site

func main() {
	repo := flag.String("repo", "/repo", "module to instrument")
	out := flag.String("out", "", "output directory")
	skip := flag.String("skip", "dgo_test,testdata,.git", "directories to leave alone")
	flag.Parse()
	skips := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		skips[s] = true
	}
	overlay := map[string]string{}
	var files []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			if p != *repo && (skips[fi.Name()] || strings.HasPrefix(fi.Name(), ".")) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	check(err)
	sort.Strings(files)
	for _, f := range files {
		rel, err := filepath.Rel(*repo, f)
		check(err)
		src, err := os.ReadFile(f)
		check(err)
		res := instrument(rel, src)
		dst := filepath.Join(*out, `src`, rel)
		check(os.MkdirAll(filepath.Dir(dst), 0o755))
		check(os.WriteFile(dst, res, 0o644))
		overlay[f] = dst
	}
	// the standard library's sync.Pool would both hide races (it orders its users) and behave randomly under -race
	if gr := os.Getenv(`INSTR_POOL`); gr != `` {
		overlay[gr] = os.Getenv(`INSTR_POOL_REPL`)
	}
	js, err := json.MarshalIndent(map[string]interface{}{`Replace`: overlay}, ``, ` `)
	check(err)
	check(os.WriteFile(filepath.Join(*out, `overlay.json`), js, 0o644))
	js, err = json.Marshal(sites)
	check(err)
	check(os.WriteFile(filepath.Join(*out, `sites.json`), js, 0o644))
	fmt.Printf("instrumented %d files, %d yield sites\n", len(files), len(sites))
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, `instr:`, err)
		os.Exit(2)
	}
}

func instrument(rel string, src []byte) []byte {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, rel, src, parser.ParseComments)
	check(err)
	tf := fset.File(f.Pos())
	off := func(p token.Pos) int { return tf.Offset(p) }
	var edits []edit
	used := false
	fn := ``
	var visit func(n ast.Node) bool
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			id := len(sites) + 1
			if id >= 1<<16-1 {
				id = 1<<16 - 2
			} else {
				sites = append(sites, site{File: rel, Line: fset.Position(s.Pos()).Line, Func: fn})
			}
			edits = append(edits, edit{off: off(s.Pos()), end: -1, txt: fmt.Sprintf("simrt.Y(%d); ", id)})
			used = true
		}
	}
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			fn = n.Name.Name
			if n.Recv != nil && len(n.Recv.List) > 0 {
				t := n.Recv.List[0].Type
				if s, ok := t.(*ast.StarExpr); ok {
					t = s.X
				}
				if id, ok := t.(*ast.Ident); ok {
					fn = id.Name + `.` + fn
				}
			}
			for _, c := range docLines(n.Doc) {
				if strings.HasPrefix(c, `//go:nosplit`) || strings.HasPrefix(c, `//go:linkname`) {
					return false
				}
			}
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.GoStmt:
			// go f(args): arguments are evaluated by the starter
			used = true
			if fl, ok := n.Call.Fun.(*ast.FuncLit); ok && len(n.Call.Args) == 0 {
				edits = append(edits,
					edit{off: off(n.Pos()), end: off(fl.Pos()), txt: `simrt.Go(`},
					edit{off: off(fl.End()), end: off(n.End()), txt: `)`})
			} else {
				fmt.Fprintf(os.Stderr, "instr: %s: go statement with arguments is started outside of the simulator\n", fset.Position(n.Pos()))
			}
		case *ast.SwitchStmt:
			// the body of a switch holds case clauses, not statements
			if n.Init != nil {
				ast.Inspect(n.Init, visit)
			}
			if n.Tag != nil {
				ast.Inspect(n.Tag, visit)
			}
			for _, c := range n.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.TypeSwitchStmt:
			if n.Init != nil {
				ast.Inspect(n.Init, visit)
			}
			ast.Inspect(n.Assign, visit)
			for _, c := range n.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		case *ast.SelectStmt:
			for _, c := range n.Body.List {
				ast.Inspect(c, visit)
			}
			return false
		}
		return true
	}
	for _, d := range f.Decls {
		fn = `init`
		ast.Inspect(d, visit)
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == `sync` {
			repl := `"verif.local/sim/simsync"`
			if im.Name == nil {
				repl = `sync ` + repl
			}
			edits = append(edits, edit{off: off(im.Path.Pos()), end: off(im.Path.End()), txt: repl})
		}
	}
	if used {
		edits = append(edits, edit{off: off(f.Name.End()), end: -1, txt: `; import simrt "verif.local/sim/rt"`})
	}
	sort.SliceStable(edits, func(i, j int) bool { return edits[i].off < edits[j].off })
	var b strings.Builder
	at := 0
	for _, e := range edits {
		if e.off < at {
			continue
		}
		b.Write(src[at:e.off])
		b.WriteString(e.txt)
		at = e.off
		if e.end >= 0 {
			at = e.end
		}
	}
	b.Write(src[at:])
	return []byte(b.String())
}

func docLines(g *ast.CommentGroup) []string {
	if g == nil {
		return nil
	}
	r := make([]string, len(g.List))
	for i, c := range g.List {
		r[i] = c.Text
	}
	return r
}
