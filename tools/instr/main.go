// instr writes copies of the Go files of a repository with a scheduling point
// (verifsched.P) before every statement, and an overlay file for 'go build'.
// The repository itself is left as it is.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type insertion struct {
	off  int
	text string
	end  int /* end of the text that is replaced, if any */
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "directory for the rewritten files")
	sched := flag.String("sched", "", "source of the verifsched package")
	dirs := flag.String("dirs", ".,net,net/client,net/client/connection,net/server", "")
	plain := flag.Bool("plain", false, "only add the package, do not instrument")
	flag.Parse()
	replace := map[string]string{filepath.Join(*repo, "verifsched", "sched.go"): *sched}
	var sites []string
	if !*plain {
		for _, d := range strings.Split(*dirs, ",") {
			files, _ := filepath.Glob(filepath.Join(*repo, d, "*.go"))
			sort.Strings(files)
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := os.ReadFile(f)
				if err != nil {
					fatal(err)
				}
				res, changed, err := rewrite(*repo, f, src, &sites)
				if err != nil {
					fatal(err)
				}
				if !changed {
					continue
				}
				dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(f, *repo+"/"), "/", "__"))
				if err := os.WriteFile(dst, res, 0644); err != nil {
					fatal(err)
				}
				replace[f] = dst
			}
		}
	}
	b, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0644); err != nil {
		fatal(err)
	}
	b, _ = json.Marshal(sites)
	if err := os.WriteFile(filepath.Join(*out, "sites.json"), b, 0644); err != nil {
		fatal(err)
	}
}

func fatal(err error) { fmt.Fprintln(os.Stderr, err); os.Exit(2) }

func rewrite(repo, name string, src []byte, sites *[]string) (res []byte, changed bool, err error) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		return nil, false, err
	}
	var ins []insertion
	add := func(list []ast.Stmt, fn string) {
		for _, s := range list {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			case *ast.DeclStmt:
				continue
			}
			p := fset.Position(s.Pos())
			ins = append(ins, insertion{p.Offset, fmt.Sprintf("verifsched.P(%d);", len(*sites)), 0})
			*sites = append(*sites, fmt.Sprintf("%s:%d %s", strings.TrimPrefix(name, repo+"/"), p.Line, fn))
		}
	}
	// x.f++ and x.f += e read and write: others may run in between
	split := func(s ast.Stmt, lhs ast.Expr, op, rhs string, fn string) {
		e := lhs
		for {
			sel, ok := e.(*ast.SelectorExpr)
			if !ok {
				break
			}
			e = sel.X
		}
		if _, ok := e.(*ast.Ident); !ok || e == lhs {
			return
		}
		p, q := fset.Position(s.Pos()), fset.Position(s.End())
		l := string(src[fset.Position(lhs.Pos()).Offset:fset.Position(lhs.End()).Offset])
		ins = append(ins, insertion{p.Offset, fmt.Sprintf("func() { verifT := %s; verifsched.P(%d); %s = verifT %s (%s) }()", l, len(*sites), l, op, rhs), q.Offset})
		*sites = append(*sites, fmt.Sprintf("%s:%d %s", strings.TrimPrefix(name, repo+"/"), p.Line, fn))
	}
	simple := func(e ast.Expr) (ok bool) {
		ok = true
		ast.Inspect(e, func(n ast.Node) bool {
			switch n.(type) {
			case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit, *ast.UnaryExpr:
				ok = false
			}
			return ok
		})
		return
	}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil || fd.Name.Name == "init" {
			continue
		}
		fn := fd.Name.Name
		if fd.Recv != nil && len(fd.Recv.List) > 0 {
			t := fd.Recv.List[0].Type
			if st, ok := t.(*ast.StarExpr); ok {
				t = st.X
			}
			if id, ok := t.(*ast.Ident); ok {
				fn = id.Name + "." + fn
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.IncDecStmt:
				split(x, x.X, x.Tok.String()[:1], "1", fn)
			case *ast.AssignStmt:
				if len(x.Lhs) == 1 && x.Tok != token.ASSIGN && x.Tok != token.DEFINE && simple(x.Rhs[0]) {
					op := x.Tok.String()
					split(x, x.Lhs[0], op[:len(op)-1], string(src[fset.Position(x.Rhs[0].Pos()).Offset:fset.Position(x.Rhs[0].End()).Offset]), fn)
				}
			case *ast.BlockStmt:
				// bodies of switch and select contain clauses, not statements
				if len(x.List) > 0 {
					switch x.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				add(x.List, fn)
			case *ast.CaseClause:
				add(x.Body, fn)
			case *ast.CommClause:
				add(x.Body, fn)
			}
			return true
		})
	}
	if len(ins) == 0 {
		return src, false, nil
	}
	ins = append(ins, insertion{fset.Position(f.Name.End()).Offset, `; import verifsched "github.com/funny-falcon/go-iproto/verifsched"`, 0})
	sort.SliceStable(ins, func(i, j int) bool { return ins[i].off < ins[j].off })
	last := 0
	for _, in := range ins {
		res = append(res, src[last:in.off]...)
		res = append(res, in.text...)
		last = in.off
		if in.end > last {
			last = in.end
		}
	}
	res = append(res, src[last:]...)
	return res, true, nil
}
