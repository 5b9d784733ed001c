// Package instr writes an overlay of a Go package with a scheduling point before every statement.
package instr

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
)

type ins struct {
	off  int
	text string
}

// Site is one scheduling point.
type Site struct {
	File string
	Line int
	Func string
}

// Overlay instruments the files (relative to repo) and writes the overlay description; it returns
// its path and the sites, and leaves repo alone.
func Overlay(repo, out string, files []string) (string, []Site, error) {
	replace := map[string]string{}
	var sites []Site
	for _, f := range files {
		path := filepath.Join(repo, f)
		src, err := os.ReadFile(path)
		if err != nil {
			return "", nil, err
		}
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			return "", nil, err
		}
		var list []ins
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		add := func(stmts []ast.Stmt) {
			for _, s := range stmts {
				switch s.(type) {
				case *ast.CaseClause, *ast.CommClause, *ast.EmptyStmt:
					continue
				}
				list = append(list, ins{off(s.Pos()), fmt.Sprintf("verifyield.P(%d); ", len(sites))})
				sites = append(sites, Site{f, fset.Position(s.Pos()).Line, fn})
			}
		}
		for _, d := range af.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					add(x.List)
				case *ast.CaseClause:
					add(x.Body)
				case *ast.CommClause:
					add(x.Body)
				}
				return true
			})
		}
		if len(list) == 0 {
			continue
		}
		list = append(list, ins{off(af.Name.End()), "; import verifyield \"verif.local/harness/yield\""})
		sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
		var b []byte
		last := 0
		for _, x := range list {
			b = append(b, src[last:x.off]...)
			b = append(b, x.text...)
			last = x.off
		}
		b = append(b, src[last:]...)
		dst := filepath.Join(out, "instr_"+f)
		if err := os.WriteFile(dst, b, 0644); err != nil {
			return "", nil, err
		}
		replace[path] = dst
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": replace})
	p := filepath.Join(out, "overlay.json")
	return p, sites, os.WriteFile(p, j, 0644)
}
