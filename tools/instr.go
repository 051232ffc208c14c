// Command instr inserts scheduling points into Go source files in place.
//
// usage: instr PKGNAME-IMPORT FILE...   (prints a site table to stdout)
//
// A call simrt_.Y(id) is put in front of every statement of every block, on
// the statement's own line, so that line numbers do not change.
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"hash/fnv"
	"io/ioutil"
	"os"
	"sort"
	"strings"
)

func main() {
	imp := os.Args[1]
	root := os.Args[2]
	for _, f := range os.Args[3:] {
		instrument(imp, root, f)
	}
}

func instrument(imp, root, name string) {
	src, err := ioutil.ReadFile(name)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	file, err := parser.ParseFile(fset, name, src, parser.ParseComments)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(1)
	}
	var offs []int
	blk := func(l []ast.Stmt) {
		for _, s := range l {
			switch s.(type) {
			case *ast.EmptyStmt:
				continue
			}
			offs = append(offs, fset.Position(s.Pos()).Offset)
		}
	}
	for _, d := range file.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if fd.Name.Name == "init" && fd.Recv == nil {
			continue
		}
		// tiny functions that only compare or format stay untouched: they run inside sort and fmt
		if fd.Recv != nil {
			switch fd.Name.Name {
			case "String", "Len", "Less", "Swap", "Error", "MarshalJSON", "UnmarshalJSON":
				continue
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch b := n.(type) {
			case *ast.BlockStmt:
				if len(b.List) > 0 {
					switch b.List[0].(type) {
					case *ast.CaseClause, *ast.CommClause:
						return true
					}
				}
				blk(b.List)
			case *ast.CaseClause:
				blk(b.Body)
			case *ast.CommClause:
				blk(b.Body)
			}
			return true
		})
	}
	if len(offs) == 0 {
		return
	}
	sort.Ints(offs)
	rel := strings.TrimPrefix(strings.TrimPrefix(name, root), "/")
	var out strings.Builder
	pk := fset.Position(file.Name.End()).Offset
	out.Write(src[:pk])
	out.WriteString("; import simrt_ \"" + imp + "\"")
	prev := pk
	for k, o := range offs {
		if k > 0 && offs[k-1] == o {
			continue
		}
		h := fnv.New32a()
		line := fset.Position(file.Pos()).Line
		_ = line
		fmt.Fprintf(h, "%s:%d", rel, k)
		out.Write(src[prev:o])
		fmt.Fprintf(&out, "simrt_.Y(%d);", h.Sum32())
		prev = o
	}
	out.Write(src[prev:])
	if err := ioutil.WriteFile(name, []byte(out.String()), 0644); err != nil {
		panic(err)
	}
	fmt.Printf("%s %d\n", rel, len(offs))
}
