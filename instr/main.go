// instr rewrites the repository's own Go files for simulation: it inserts a
// preemption point in front of every statement. Line numbers are kept. It is
// purely syntactic and knows nothing about the code it rewrites.
//
// usage: instr ROOT OUTDIR SUBDIR... ; prints "src<TAB>dst" lines.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	root, out := os.Args[1], os.Args[2]
	for _, sub := range os.Args[3:] {
		dir := filepath.Join(root, sub)
		filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return nil
			}
			if fi.IsDir() {
				b := filepath.Base(p)
				if p != dir && (b == "testdata" || strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_")) {
					return filepath.SkipDir
				}
				return nil
			}
			if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			res, ok := rewrite(p, src)
			if !ok {
				return nil
			}
			rel, _ := filepath.Rel(root, p)
			dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
			old, err := os.ReadFile(dst)
			if err != nil || string(old) != string(res) {
				if err := os.WriteFile(dst, res, 0o644); err != nil {
					fmt.Fprintln(os.Stderr, err)
					os.Exit(1)
				}
			}
			fmt.Printf("%s\t%s\n", p, dst)
			return nil
		})
	}
}

func rewrite(name string, src []byte) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false // let the compiler report it
	}
	for _, c := range f.Comments {
		if c.Pos() < f.Package && (strings.Contains(c.Text(), "+build") || strings.Contains(c.Text(), "DO NOT EDIT")) {
			return nil, false
		}
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, false
		}
	}
	var at []int
	add := func(list []ast.Stmt) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			at = append(at, fset.Position(s.Pos()).Offset)
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			// bodies of switch/select hold clauses, not statements
			for _, s := range x.List {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			add(x.List)
		case *ast.CaseClause:
			add(x.Body)
		case *ast.CommClause:
			add(x.Body)
		}
		return true
	})
	if len(at) == 0 {
		return nil, false
	}
	sort.Ints(at)
	var b strings.Builder
	pos := fset.Position(f.Name.End()).Offset
	b.Write(src[:pos])
	b.WriteString(`; import simrt "runtime"`)
	last := pos
	prev := -1
	for _, o := range at {
		if o == prev || o < pos {
			continue
		}
		prev = o
		b.Write(src[last:o])
		b.WriteString("simrt.SimYield(); ")
		last = o
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
