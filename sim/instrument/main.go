// Command instrument copies the Go module at SRC to DST/simK for every K below COPIES and inserts a
// scheduling point (runtime.SimYield) before every statement of every non-test Go file. Lines keep their
// numbers. Package main becomes an importable package with an exported SimMain.
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type ins struct {
	off int
	txt string
}

func die(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	copies, _ := strconv.Atoi(os.Args[3])
	gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	mod := ""
	for _, l := range strings.Split(string(gm), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			mod = strings.Trim(f[1], `"`)
		}
	}
	if mod == "" {
		die("no module path in go.mod")
	}
	write(filepath.Join(dst, "go.mod"), gm)
	if gs, err := os.ReadFile(filepath.Join(src, "go.sum")); err == nil {
		write(filepath.Join(dst, "go.sum"), gs)
	}
	want := map[string]bool{filepath.Join(dst, "go.mod"): true, filepath.Join(dst, "go.sum"): true}
	filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			die("%v", err)
		}
		rel, _ := filepath.Rel(src, p)
		b := filepath.Base(p)
		if fi.IsDir() {
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor") {
				return filepath.SkipDir
			}
			if rel != "." {
				if _, err := os.Stat(filepath.Join(p, "go.mod")); err == nil {
					return filepath.SkipDir
				}
			}
			return nil
		}
		if !strings.HasSuffix(b, ".go") || strings.HasSuffix(b, "_test.go") || strings.HasPrefix(b, "_") || strings.HasPrefix(b, ".") {
			return nil
		}
		data, err := os.ReadFile(p)
		if err != nil {
			die("%v", err)
		}
		for k := 0; k < copies; k++ {
			o := filepath.Join(dst, "sim"+strconv.Itoa(k), rel)
			want[o] = true
			write(o, instrument(p, data, mod, mod+"/sim"+strconv.Itoa(k)))
		}
		return nil
	})
	filepath.Walk(dst, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && !want[p] {
			os.Remove(p)
		}
		return nil
	})
}

func write(p string, b []byte) {
	if old, err := os.ReadFile(p); err == nil && bytes.Equal(old, b) {
		return
	}
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(p, b, 0o644); err != nil {
		die("%v", err)
	}
}

func instrument(name string, data []byte, mod, newmod string) []byte {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, data, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	var is []ins
	yielded := false
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			p := s
			// a label belongs before the yield: goto, break and continue keep their meaning because
			// the yield goes before the label
			is = append(is, ins{off(p.Pos()), "simrt.SimYield();"})
			yielded = true
			if ls, ok := s.(*ast.LabeledStmt); ok {
				// a plain label (target of goto) also gets one after it
				switch ls.Stmt.(type) {
				case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
				default:
					is = append(is, ins{off(ls.Colon) + 1, "simrt.SimYield();"})
				}
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			// the case clauses of a switch are not statements to yield before
			if len(n.List) > 0 {
				switch n.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(n.List)
		case *ast.CallExpr:
			// the copies of the program share the protobuf registry, which refuses the same enum twice
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok && sel.Sel.Name == "RegisterEnum" && len(n.Args) == 3 {
				if l, ok := n.Args[0].(*ast.BasicLit); ok && l.Kind == token.STRING {
					is = append(is, ins{off(l.Pos()), strconv.Quote(filepath.Base(newmod)+"_") + "+"})
				}
			}
		case *ast.CaseClause:
			stmts(n.Body)
		case *ast.CommClause:
			stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				is = append(is, ins{off(n.Body.Lbrace) + 1, "simrt.SimYield();"})
				yielded = true
			}
		case *ast.RangeStmt:
			if len(n.Body.List) == 0 {
				is = append(is, ins{off(n.Body.Lbrace) + 1, "simrt.SimYield();"})
				yielded = true
			}
		}
		return true
	})
	// a statement-level declaration after a goto would be jumped over only if it already were; yields
	// declare nothing. Imports:
	var edits []ins
	type cut struct{ a, b int }
	cuts := map[int]cut{}
	for _, im := range f.Imports {
		v, _ := strconv.Unquote(im.Path.Value)
		if v == mod || strings.HasPrefix(v, mod+"/") {
			cuts[off(im.Path.Pos())] = cut{off(im.Path.Pos()), off(im.Path.End())}
			edits = append(edits, ins{off(im.Path.Pos()), strconv.Quote(newmod + strings.TrimPrefix(v, mod))})
		}
	}
	head := ""
	if yielded {
		head = `;import simrt "runtime"`
	}
	pkgEnd := off(f.Name.End())
	tail := ""
	if f.Name.Name == "main" {
		cuts[off(f.Name.Pos())] = cut{off(f.Name.Pos()), pkgEnd}
		edits = append(edits, ins{off(f.Name.Pos()), "simmain"})
		for _, d := range f.Decls {
			if fd, ok := d.(*ast.FuncDecl); ok && fd.Name.Name == "main" && fd.Recv == nil {
				tail = "\nfunc SimMain() { main() }\n"
			}
		}
	}
	is = append(is, edits...)
	sort.SliceStable(is, func(i, j int) bool { return is[i].off < is[j].off })
	// a trailing line comment on the package line would swallow the import: put it right after the name
	var out bytes.Buffer
	at := 0
	hd := false
	for _, e := range append(is, ins{len(data), ""}) {
		if !hd && e.off >= pkgEnd {
			out.Write(data[at:pkgEnd])
			at = pkgEnd
			out.WriteString(head)
			hd = true
		}
		if e.off > at {
			out.Write(data[at:e.off])
			at = e.off
		}
		out.WriteString(e.txt)
		if c, ok := cuts[e.off]; ok && !strings.HasPrefix(e.txt, "simrt") {
			at = c.b
			if c.b == pkgEnd && !hd {
				out.WriteString(head)
				hd = true
			}
		}
	}
	out.Write(data[at:])
	out.WriteString(tail)
	return out.Bytes()
}
