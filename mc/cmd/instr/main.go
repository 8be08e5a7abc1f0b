// Command instr writes an instrumented copy of the library's sources and a build overlay for it: a scheduling
// point before every statement of every function, and a snapshot of every package-level variable, so that an
// explored schedule starts from the initial state of the package. It reads the current tree, so it follows
// whatever the code looks like.
//
// usage: instr REPO OUTDIR SCHEDSRC
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const schedPkg = "github.com/fivebinaries/go-cardano-serialization/internal/verifsched"

type ins struct {
	off  int
	text string
}

func main() {
	repo, out, sched := os.Args[1], os.Args[2], os.Args[3]
	replace := map[string]string{}
	var positions []string
	vars := map[string][]string{} // dir -> package variables
	pkgName := map[string]string{}
	err := filepath.Walk(repo, func(path string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(repo, path)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(fi.Name(), ".") || fi.Name() == "testdata" || rel == "examples" || rel == "node" || fi.Name() == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(path, ".go") || strings.HasSuffix(path, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return err
		}
		if f.Name.Name == "main" || constrained(f) {
			return nil
		}
		dir := filepath.Dir(path)
		pkgName[dir] = f.Name.Name
		tf := fset.File(f.Pos())
		var all []ins
		point := func(list []ast.Stmt) {
			for _, s := range list {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				p := fset.Position(s.Pos())
				all = append(all, ins{tf.Offset(s.Pos()), fmt.Sprintf("verifsched.P(%d); ", len(positions))})
				positions = append(positions, fmt.Sprintf("%s:%d", rel, p.Line))
			}
		}
		ast.Inspect(f, inspector(point))
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "_" {
						vars[dir] = append(vars[dir], n.Name)
					}
				}
			}
		}
		if len(all) == 0 {
			return nil
		}
		all = append(all, ins{tf.Offset(f.Name.End()), fmt.Sprintf("; import verifsched %q", schedPkg)})
		sort.SliceStable(all, func(i, j int) bool { return all[i].off < all[j].off })
		var b strings.Builder
		last := 0
		for _, x := range all {
			b.Write(src[last:x.off])
			b.WriteString(x.text)
			last = x.off
		}
		b.Write(src[last:])
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__"))
		replace[path] = dst
		return os.WriteFile(dst, []byte(b.String()), 0o644)
	})
	check(err)
	for dir, vs := range vars {
		rel, _ := filepath.Rel(repo, dir)
		var b strings.Builder
		fmt.Fprintf(&b, "package %s\n\nimport verifsched %q\n\nfunc init() {\n", pkgName[dir], schedPkg)
		for _, v := range vs {
			fmt.Fprintf(&b, "\tverifsched.Keep(&%s)\n", v)
		}
		b.WriteString("}\n")
		dst := filepath.Join(out, strings.ReplaceAll(rel, "/", "__")+"__zzz_verif.go")
		check(os.WriteFile(dst, []byte(b.String()), 0o644))
		replace[filepath.Join(dir, "zzz_verif.go")] = dst
	}
	var b strings.Builder
	b.WriteString("package verifsched\n\n// Positions names the scheduling points.\nvar Positions = []string{\n")
	for _, p := range positions {
		fmt.Fprintf(&b, "\t%q,\n", p)
	}
	b.WriteString("}\n")
	pos := filepath.Join(out, "positions.go")
	check(os.WriteFile(pos, []byte(b.String()), 0o644))
	sd := filepath.Join(repo, "internal", "verifsched")
	replace[filepath.Join(sd, "positions.go")] = pos
	replace[filepath.Join(sd, "sched.go")] = sched
	js, _ := json.Marshal(map[string]any{"Replace": replace})
	check(os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644))
	fmt.Printf("%d scheduling points, %d files\n", len(positions), len(replace))
}

// inspector visits the statement lists (the body of a switch holds clauses, not statements).
func inspector(point func([]ast.Stmt)) func(ast.Node) bool {
	var insp func(n ast.Node) bool
	insp = func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			point(x.List)
		case *ast.CaseClause:
			point(x.Body)
		case *ast.CommClause:
			point(x.Body)
		case *ast.SwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, insp)
			}
			if x.Init != nil {
				ast.Inspect(x.Init, insp)
			}
			if x.Tag != nil {
				ast.Inspect(x.Tag, insp)
			}
			return false
		case *ast.TypeSwitchStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, insp)
			}
			if x.Init != nil {
				ast.Inspect(x.Init, insp)
			}
			ast.Inspect(x.Assign, insp)
			return false
		case *ast.SelectStmt:
			for _, c := range x.Body.List {
				ast.Inspect(c, insp)
			}
			return false
		}
		return true
	}
	return insp
}

// constrained reports whether the file has a build constraint (it is left alone).
func constrained(f *ast.File) bool {
	for _, g := range f.Comments {
		if g.Pos() > f.Package {
			break
		}
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:build") || strings.HasPrefix(c.Text, "// +build") {
				return true
			}
		}
	}
	return false
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}
