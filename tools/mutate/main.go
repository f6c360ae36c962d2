// mutate enumerates small edits of the Go files under a directory, for testing
// the checks: "mutate list DIR" prints one line per mutant, "mutate apply DIR N"
// applies mutant N to the files in place.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mutant struct {
	file       string
	line       int
	op         string
	from, to   int // byte range
	text       string
	from2, to2 int
	text2      string
}

func main() {
	dir := os.Args[2]
	ms := collect(dir)
	switch os.Args[1] {
	case "list":
		for i, m := range ms {
			rel, _ := filepath.Rel(dir, m.file)
			fmt.Printf("%d\t%s:%d\t%s\n", i, rel, m.line, m.op)
		}
	case "apply":
		n, _ := strconv.Atoi(os.Args[3])
		m := ms[n]
		b, _ := os.ReadFile(m.file)
		s := string(b)
		if m.to2 > 0 {
			s = s[:m.from2] + m.text2 + s[m.to2:]
		}
		s = s[:m.from] + m.text + s[m.to:]
		os.WriteFile(m.file, []byte(s), 0o644)
	}
}

func collect(dir string) (out []mutant) {
	var files []string
	filepath.WalkDir(dir, func(p string, d os.DirEntry, err error) error {
		if d.IsDir() && strings.HasPrefix(d.Name(), ".") {
			return filepath.SkipDir
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	for _, f := range files {
		src, _ := os.ReadFile(f)
		fs := token.NewFileSet()
		af, err := parser.ParseFile(fs, f, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		add := func(n ast.Node, op, text string) {
			out = append(out, mutant{file: f, line: fs.Position(n.Pos()).Line, op: op + ": " + one(txt(n)) + " => " + one(text), from: off(n.Pos()), to: off(n.End()), text: text})
		}
		add2 := func(a, b ast.Node, op, ta, tb string) {
			out = append(out, mutant{file: f, line: fs.Position(a.Pos()).Line, op: op + ": " + one(txt(a)) + " / " + one(txt(b)) + " => " + one(ta) + " / " + one(tb),
				from: off(a.Pos()), to: off(a.End()), text: ta, from2: off(b.Pos()), to2: off(b.End()), text2: tb})
		}
		block := func(l []ast.Stmt) {
			for i, st := range l {
				var next ast.Stmt
				if i+1 < len(l) {
					next = l[i+1]
				}
				if lockish(txt(st)) && next != nil && strings.HasPrefix(txt(next), "defer") {
					add2(st, next, "nolock", "", "")
					add2(st, next, "earlyunlock", txt(st), strings.TrimPrefix(txt(next), "defer "))
					if strings.Contains(txt(st), "Lock(") && !strings.Contains(txt(st), "RLock(") {
						add2(st, next, "rlock", strings.Replace(strings.Replace(txt(st), ".Lock(", ".RLock(", 1), ".MLock(", ".MRLock(", 1),
							strings.NewReplacer(".UnLock(", ".RUnLock(", ".Unlock(", ".RUnlock(", ".MUnLock(", ".MRUnLock(").Replace(txt(next)))
					}
					continue
				}
				switch x := st.(type) {
				case *ast.ExprStmt:
					if _, ok := x.X.(*ast.CallExpr); ok {
						add(st, "del", "")
					}
				case *ast.IncDecStmt:
					add(st, "del", "")
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						add(st, "del", "")
					}
				case *ast.DeferStmt:
					if !strings.Contains(txt(st), "nlock") && !strings.Contains(txt(st), "nLock") {
						add(st, "del", "")
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						add(st, "branch", "break")
					} else if x.Tok == token.BREAK {
						add(st, "branch", "continue")
					}
				}
				if next != nil && simple(st) && simple(next) {
					add2(st, next, "swap", txt(next), txt(st))
				}
			}
		}
		ast.Inspect(af, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.BlockStmt:
				block(x.List)
			case *ast.CaseClause:
				block(x.Body)
			case *ast.CommClause:
				block(x.Body)
			case *ast.IfStmt:
				add(x.Cond, "cond", "!("+txt(x.Cond)+")")
				add(x.Cond, "cond", "false && ("+txt(x.Cond)+")")
				add(x.Cond, "cond", "true || ("+txt(x.Cond)+")")
			case *ast.BinaryExpr:
				rep := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.EQL: {"!="}, token.NEQ: {"=="}}[x.Op]
				for _, r := range rep {
					if x.Op == token.ADD && (strings.Contains(txt(x), `"`)) {
						continue
					}
					add(x, "binop", txt(x.X)+" "+r+" "+txt(x.Y))
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					add(x, "dropterm", txt(x.X))
					add(x, "dropterm", txt(x.Y))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						add(x, "lit", fmt.Sprint(v+1))
						if v > 0 {
							add(x, "lit", fmt.Sprint(v-1))
						}
					}
				}
			}
			return true
		})
	}
	return
}

func one(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 70 {
		s = s[:70] + "..."
	}
	return s
}

func lockish(s string) bool { return strings.Contains(s, "Lock(") && !strings.HasPrefix(s, "defer") }

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt:
		return true
	case *ast.AssignStmt:
		return x.Tok != token.DEFINE
	}
	return false
}
