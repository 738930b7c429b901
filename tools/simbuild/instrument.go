package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const rubiStub = `// Package rubi_snapshot stands in for the generated package that the pinned
// tree does not contain: no snapshot is available.
package rubi_snapshot

import "errors"

func Asset(name string) ([]byte, error) {
	return nil, errors.New("rubi snapshot not available: " + name)
}
`

type site struct {
	Pos  string `json:"p"`
	Func string `json:"f"`
}

// genRepo writes the instrumented copies of the repository's packages.
func genRepo(repo, dir string, ov map[string]string, repl bool) int {
	var files []string
	for _, root := range []string{"expreduce", "pkg"} {
		err := filepath.Walk(filepath.Join(repo, root), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() && (fi.Name() == "testdata" || fi.Name() == "rubi_snapshot") {
				return filepath.SkipDir
			}
			if !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
				files = append(files, p)
			}
			return nil
		})
		if err != nil {
			die("%v", err)
		}
	}
	sort.Strings(files)
	var sites []site
	sites = append(sites, site{"", ""}) // ids start at 1
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			die("%v", err)
		}
		if len(b) > 1<<20 {
			continue // embedded resources
		}
		rel, _ := filepath.Rel(repo, f)
		out, ok := instrument(rel, f, b, &sites)
		if !ok {
			continue
		}
		dst := filepath.Join(dir, "repo", rel)
		writeIfChanged(dst, out)
		ov[f] = dst
	}
	if repl {
		genRepl(repo, dir, ov, &sites)
	}
	snap := filepath.Join(repo, "expreduce", "rubi_snapshot")
	if ents, err := os.ReadDir(snap); err != nil || len(ents) == 0 {
		dst := filepath.Join(dir, "repo", "expreduce", "rubi_snapshot", "rubi_resources.go")
		writeIfChanged(dst, []byte(rubiStub))
		ov[filepath.Join(snap, "rubi_resources.go")] = dst
	}
	js, _ := json.Marshal(sites)
	writeIfChanged(filepath.Join(dir, "sites.json"), js)
	return len(sites) - 1
}

func instrument(rel, path string, src []byte, sites *[]site) ([]byte, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("cannot parse %s: %v", rel, err)
	}
	type ins struct {
		off int
		txt string
	}
	var inss []ins
	var fn string
	n := 0
	add := func(pos token.Pos, after bool) {
		p := fset.Position(pos)
		id := len(*sites)
		*sites = append(*sites, site{fmt.Sprintf("%s:%d", rel, p.Line), fn})
		off := p.Offset
		if after {
			off++
		}
		inss = append(inss, ins{off, fmt.Sprintf("simrt_.Y(%d);", id)})
		n++
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if e, ok := s.(*ast.EmptyStmt); ok && e.Implicit {
				continue
			}
			add(s.Pos(), false)
		}
	}
	var bodies map[*ast.BlockStmt]bool = map[*ast.BlockStmt]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		fn = ""
		if ok {
			if fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			bodies[fd.Body] = true
		}
		ast.Inspect(d, func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.FuncLit:
				bodies[x.Body] = true
			case *ast.ForStmt:
				bodies[x.Body] = true
			case *ast.RangeStmt:
				bodies[x.Body] = true
			case *ast.SwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
				bodies[x.Body] = false
			case *ast.TypeSwitchStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CaseClause).Body)
				}
				bodies[x.Body] = false
			case *ast.SelectStmt:
				for _, c := range x.Body.List {
					list(c.(*ast.CommClause).Body)
				}
				bodies[x.Body] = false
			case *ast.BlockStmt:
				if want, seen := bodies[x]; seen && !want {
					return true // clause list, handled above
				} else if len(x.List) == 0 && seen {
					add(x.Lbrace, true)
				} else {
					list(x.List)
				}
			}
			return true
		})
	}
	if n == 0 {
		return nil, false
	}
	pk := fset.Position(f.Name.End())
	inss = append(inss, ins{pk.Offset, `; import simrt_ "github.com/corywalker/expreduce/verifsim/simrt"`})
	sort.SliceStable(inss, func(i, j int) bool { return inss[i].off < inss[j].off })
	var b strings.Builder
	last := 0
	for _, in := range inss {
		b.Write(src[last:in.off])
		b.WriteString(in.txt)
		last = in.off
	}
	b.Write(src[last:])
	return []byte(b.String()), true
}
