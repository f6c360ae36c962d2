package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Statement-level schedule perturbation: every Go file of the module under
// test is compiled from a copy in which each statement of a statement list is
// preceded, on the same line, by a call of a hook that now and then yields or
// sleeps. Nothing else changes and /repo is not touched; the copies go in
// through the build overlay.

func instrumentModule(dir string) (map[string]string, int, error) {
	out := map[string]string{}
	total := 0
	pkgs := map[string]string{} // directory -> package name
	err := filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		n := d.Name()
		if d.IsDir() {
			if p != repoDir && (strings.HasPrefix(n, ".") || strings.HasPrefix(n, "_") || n == "testdata" || n == "vendor") {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || strings.HasPrefix(n, "_") || strings.HasPrefix(n, ".") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.SkipObjectResolution)
		if err != nil {
			return nil // the compiler will say so
		}
		var at []int
		lists := func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				at = append(at, fset.Position(s.Pos()).Offset)
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				// initialisation order and main itself are left alone
				if x.Recv == nil && x.Name.Name == "init" {
					return false
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch s.(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true // body of a switch or select
					}
				}
				lists(x.List)
			case *ast.CaseClause:
				lists(x.Body)
			case *ast.CommClause:
				lists(x.Body)
			}
			return true
		})
		sort.Ints(at)
		var b strings.Builder
		last := 0
		for _, o := range at {
			b.Write(src[last:o])
			b.WriteString("verifStep();")
			last = o
		}
		b.Write(src[last:])
		total += len(at)
		dst := filepath.Join(dir, fmt.Sprintf("stmt%d_%s", len(out), n))
		if err := os.WriteFile(dst, []byte(b.String()), 0o644); err != nil {
			return err
		}
		out[p] = dst
		pkgs[filepath.Dir(p)] = f.Name.Name
		return nil
	})
	if err != nil {
		return nil, 0, err
	}
	for d, name := range pkgs {
		dst := filepath.Join(dir, fmt.Sprintf("stmt%d_hook.go", len(out)))
		src := "package " + name + "\n\nimport verifsync \"sync\"\n\nfunc verifStep() {\n\tif verifsync.VerifStep != nil {\n\t\tverifsync.VerifStep()\n\t}\n}\n"
		if err := os.WriteFile(dst, []byte(src), 0o644); err != nil {
			return nil, 0, err
		}
		out[filepath.Join(d, "zz_verif_step.go")] = dst
	}
	return out, total, nil
}
