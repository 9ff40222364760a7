// instr writes copies of the repository's sources with scheduling points in
// them, and an overlay that puts the copies in place of the sources:
//
//	instr REPO OUTDIR OVERLAY.json EXTRA=FILE...
//
// Level 1 points stand before and after statements that use package-level
// variables, sync or atomic operations and channels; level 2 points at the
// start of every function. Locks are taken by trying (unless NOLOCKS is set), so
// that the scheduler knows who waits.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const module = "github.com/patrickhuang888/goorc"

var syncNames = map[string]bool{"Lock": true, "Unlock": true, "RLock": true, "RUnlock": true, "TryLock": true, "Get": true, "Put": true, "Do": true,
	"LoadOrStore": true, "LoadAndDelete": true, "Store": true, "Load": true, "CompareAndSwap": true, "Swap": true, "Wait": true, "Done": true, "Signal": true, "Broadcast": true}

var fileOps = map[string]bool{"Seek": true, "Read": true, "ReadAt": true, "Write": true, "WriteAt": true}

type pkg struct {
	files map[string]*ast.File
	src   map[string][]byte
	vars  map[string]bool
}

func main() {
	repo, out := os.Args[1], os.Args[2]
	replace := map[string]string{}
	for _, a := range os.Args[4:] {
		kv := strings.SplitN(a, "=", 2)
		replace[kv[0]] = kv[1]
	}
	pkgs := map[string]*pkg{}
	fset := token.NewFileSet()
	filepath.Walk(filepath.Join(repo, "orc"), func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		f, err := parser.ParseFile(fset, p, src, parser.ParseComments)
		if err != nil {
			return nil
		}
		d := filepath.Dir(p)
		if pkgs[d] == nil {
			pkgs[d] = &pkg{map[string]*ast.File{}, map[string][]byte{}, map[string]bool{}}
		}
		pkgs[d].files[p], pkgs[d].src[p] = f, src
		for _, x := range f.Decls {
			g, ok := x.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, n := range s.(*ast.ValueSpec).Names {
					if n.Name != "logger" && n.Name != "_" {
						pkgs[d].vars[n.Name] = true
					}
				}
			}
		}
		return nil
	})
	points := [3]int{}
	n := 0
	for d, pk := range pkgs {
		for p, f := range pk.files {
			imports := map[string]map[string]bool{}
			syncs := map[string]bool{}
			system := false // files of the operating system are used here
			for _, im := range f.Imports {
				path := strings.Trim(im.Path.Value, `"`)
				name := filepath.Base(path)
				if im.Name != nil {
					name = im.Name.Name
				}
				system = system || path == "os" && filepath.Base(d) == "io"
				if path == "sync/atomic" {
					syncs[name] = true
				}
				if strings.HasPrefix(path, module) {
					if o := pkgs[repo+strings.TrimPrefix(path, module)]; o != nil {
						imports[name] = o.vars
					}
				}
			}
			type ins struct {
				at, del int
				text    string
			}
			var l []ins
			tf := fset.File(f.Pos())
			add := func(pos token.Pos, level int, after bool) {
				points[level]++
				s := fmt.Sprintf("zzsched.Y(%d); ", level)
				if after {
					s = fmt.Sprintf("; zzsched.Y(%d)", level)
				}
				l = append(l, ins{tf.Offset(pos), 0, s})
			}
			uses := func(n ast.Node) (hit bool) {
				if n == nil {
					return
				}
				ast.Inspect(n, func(x ast.Node) bool {
					switch x := x.(type) {
					case *ast.BlockStmt, *ast.FuncLit:
						return false
					case *ast.Ident:
						hit = hit || pk.vars[x.Name]
					case *ast.SelectorExpr:
						if id, ok := x.X.(*ast.Ident); ok && (imports[id.Name][x.Sel.Name] || syncs[id.Name]) {
							hit = true
						}
						if _, ok := x.X.(*ast.SelectorExpr); ok && system && fileOps[x.Sel.Name] {
							hit = true
						}
						if id, ok := x.X.(*ast.Ident); !ok || imports[id.Name] == nil {
							hit = hit || syncNames[x.Sel.Name]
						}
					case *ast.UnaryExpr:
						hit = hit || x.Op == token.ARROW
					case *ast.SendStmt, *ast.GoStmt, *ast.SelectStmt:
						hit = true
					}
					return true
				})
				return
			}
			stmts := func(b []ast.Stmt) {
				last := false
				for i, s := range b {
					hit := uses(s)
					if hit || last {
						add(s.Pos(), 1, false)
					}
					if hit && i == len(b)-1 {
						switch s.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt:
							add(s.End(), 1, true)
						}
					}
					last = hit
				}
			}
			ast.Inspect(f, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.FuncDecl:
					if x.Body != nil && x.Name.Name != "init" {
						add(x.Body.Lbrace+1, 2, false)
					}
				case *ast.BlockStmt:
					stmts(x.List)
				case *ast.CaseClause:
					stmts(x.Body)
				case *ast.CommClause:
					stmts(x.Body)
				}
				return true
			})
			if os.Getenv("NOLOCKS") == "" {
				ast.Inspect(f, func(x ast.Node) bool {
					call, ok := x.(*ast.CallExpr)
					if !ok || len(call.Args) > 0 {
						return true
					}
					if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
						from, to := tf.Offset(sel.Sel.Pos()), tf.Offset(call.End())
						switch sel.Sel.Name {
						case "Lock", "RLock":
							l = append(l, ins{tf.Offset(call.Pos()), 0, "zzsched.Lock("}, ins{from, to - from, "Try" + sel.Sel.Name + ")"})
						case "Unlock", "RUnlock":
							l = append(l, ins{tf.Offset(call.Pos()), 0, "zzsched.Unlock("}, ins{from, to - from, sel.Sel.Name + ")"})
						}
					}
					return true
				})
			}
			if len(l) == 0 {
				continue
			}
			// bodies of switch and select have clauses, not statements: points before clauses are no Go
			var keep []ins
			clause := map[int]bool{}
			ast.Inspect(f, func(x ast.Node) bool {
				switch x := x.(type) {
				case *ast.CaseClause:
					clause[tf.Offset(x.Pos())] = true
				case *ast.CommClause:
					clause[tf.Offset(x.Pos())] = true
				}
				return true
			})
			for _, i := range l {
				if !clause[i.at] {
					keep = append(keep, i)
				}
			}
			sort.SliceStable(keep, func(i, j int) bool { return keep[i].at < keep[j].at })
			src := pk.src[p]
			var b strings.Builder
			end := tf.Offset(f.Name.End())
			b.Write(src[:end])
			b.WriteString(`; import zzsched "` + module + `/orc/zzsched"`)
			for _, i := range keep {
				b.Write(src[end:i.at])
				b.WriteString(i.text)
				end = i.at + i.del
			}
			b.Write(src[end:])
			b.WriteString("\nvar _ = zzsched.Y\n")
			rel, _ := filepath.Rel(repo, p)
			o := filepath.Join(out, strings.ReplaceAll(rel, "/", "_"))
			if _, err := parser.ParseFile(token.NewFileSet(), o, b.String(), 0); err != nil {
				fmt.Fprintln(os.Stderr, "instr:", p, err)
				continue
			}
			if err := os.WriteFile(o, []byte(b.String()), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, "instr:", err)
				os.Exit(1)
			}
			replace[p] = o
			n++
		}
		_ = d
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(os.Args[3], j, 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(1)
	}
	fmt.Printf("instrumented %d files, %d points of shared state, %d functions\n", n, points[1], points[2])
}
