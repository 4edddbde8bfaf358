// instr writes copies of the Go files of a module tree in which a noise point
// precedes every statement, and the overlay that puts the copies in place of
// the originals. It judges nothing: any Go code is accepted, and files that do
// not parse are left to the compiler to report.
//
//	instr -root DIR -out DIR -ids FILE -rt RT.go -overlay FILE [-base N] [-skip a,b] [-append overlay.json]
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

const rtImport = "github.com/chenquan/go-pkg/verifrt"

func main() {
	root := flag.String("root", "", "module root")
	out := flag.String("out", "", "directory of the instrumented copies")
	ids := flag.String("ids", "", "file for the table of points")
	rt := flag.String("rt", "", "runtime source to overlay (empty: none)")
	overlay := flag.String("overlay", "", "overlay file to write; empty: write copies in place")
	base := flag.Int("base", 1, "first point id")
	skip := flag.String("skip", "", "comma separated directories left alone")
	none := flag.Bool("none", false, "overlay the runtime only")
	flag.Parse()

	skipped := map[string]bool{}
	for _, s := range strings.Split(*skip, ",") {
		if s != "" {
			skipped[s] = true
		}
	}
	replace := map[string]string{}
	if *rt != "" {
		replace[filepath.Join(*root, "verifrt", "rt.go")] = *rt
	}
	var table []string
	id := *base
	var files []string
	_ = filepath.Walk(*root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		rel, _ := filepath.Rel(*root, p)
		if fi.IsDir() {
			b := filepath.Base(p)
			if rel != "." && (strings.HasPrefix(b, ".") || strings.HasPrefix(b, "_") || b == "testdata" || b == "vendor" || skipped[rel]) {
				return filepath.SkipDir
			}
			return nil
		}
		if strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") && filepath.Dir(rel) != "." {
			files = append(files, p)
		}
		return nil
	})
	sort.Strings(files)
	if *none {
		files = nil
	}
	for _, p := range files {
		src, err := os.ReadFile(p)
		if err != nil {
			fatal(err)
		}
		rel, _ := filepath.Rel(*root, p)
		dst, points, ok := instrument(p, rel, src, id)
		if !ok {
			continue
		}
		id += len(points)
		table = append(table, points...)
		o := filepath.Join(*out, rel)
		if err := os.MkdirAll(filepath.Dir(o), 0o755); err != nil {
			fatal(err)
		}
		if err := os.WriteFile(o, dst, 0o644); err != nil {
			fatal(err)
		}
		replace[p] = o
	}
	if *ids != "" {
		f, err := os.OpenFile(*ids, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
		if err != nil {
			fatal(err)
		}
		for _, t := range table {
			fmt.Fprintln(f, t)
		}
		f.Close()
	}
	if *overlay != "" {
		b, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
		if err := os.WriteFile(*overlay, b, 0o644); err != nil {
			fatal(err)
		}
	}
	fmt.Println(id)
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "instr:", err)
	os.Exit(1)
}

func instrument(path, rel string, src []byte, base int) ([]byte, []string, bool) {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		return nil, nil, false
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return nil, nil, false
		}
	}
	type ins struct {
		off  int
		text string
	}
	var list []ins
	var points []string
	add := func(pos token.Pos) {
		po := fset.PositionFor(pos, false)
		id := base + len(points)
		points = append(points, fmt.Sprintf("%d %s:%d:%d", id, rel, po.Line, po.Column))
		list = append(list, ins{po.Offset, fmt.Sprintf("verifrt.Y(%d);", id)})
	}
	stmts := func(l []ast.Stmt) {
		for _, s := range l {
			if _, ok := s.(*ast.EmptyStmt); ok {
				continue
			}
			add(s.Pos())
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch v := n.(type) {
		case *ast.BlockStmt:
			// A switch or select body is a list of clauses, not statements.
			if len(v.List) > 0 {
				switch v.List[0].(type) {
				case *ast.CaseClause, *ast.CommClause:
					return true
				}
			}
			stmts(v.List)
		case *ast.CaseClause:
			stmts(v.Body)
		case *ast.CommClause:
			stmts(v.Body)
		case *ast.FuncDecl:
			// Functions with compiler directives are left alone.
			if v.Doc != nil {
				for _, c := range v.Doc.List {
					if strings.HasPrefix(c.Text, "//go:") {
						return false
					}
				}
			}
		}
		return true
	})
	if len(points) == 0 {
		return nil, nil, false
	}
	po := fset.PositionFor(f.Name.End(), false)
	list = append(list, ins{po.Offset, "; import verifrt \"" + rtImport + "\""})
	sort.SliceStable(list, func(i, j int) bool { return list[i].off < list[j].off })
	var b []byte
	last := 0
	for _, i := range list {
		b = append(b, src[last:i.off]...)
		b = append(b, i.text...)
		last = i.off
	}
	b = append(b, src[last:]...)
	b = append(b, "\nvar _ = verifrt.Y\n"...)
	return b, points, true
}
