// shapes prints the declarations of a package: for each type its members and
// their types, and under "" what is declared at the top level, in the order of
// the files' names and of the source.
package main

import (
	"bytes"
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

var fset = token.NewFileSet()

func str(n ast.Node) string {
	var b bytes.Buffer
	_ = printer.Fprint(&b, fset, n)
	return strings.Join(strings.Fields(b.String()), " ")
}

func list(l *ast.FieldList) (r []string) {
	if l == nil {
		return
	}
	for _, f := range l.List {
		n := len(f.Names)
		if n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			r = append(r, str(f.Type))
		}
	}
	return
}

func sig(f *ast.FuncType) string {
	return "func(" + strings.Join(list(f.Params), ", ") + ") (" + strings.Join(list(f.Results), ", ") + ")"
}

func main() {
	out := map[string][][2]string{}
	add := func(t, name, s string) { out[t] = append(out[t], [2]string{name, s}) }
	files, _ := filepath.Glob(filepath.Join(os.Args[1], "*.go"))
	sort.Strings(files)
	for _, name := range files {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		f, err := parser.ParseFile(fset, name, nil, 0)
		if err != nil {
			continue
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				t := ""
				if d.Recv != nil && len(d.Recv.List) == 1 {
					t = strings.TrimPrefix(str(d.Recv.List[0].Type), "*")
				}
				add(t, d.Name.Name, sig(d.Type))
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						for i, n := range s.Names {
							v := d.Tok.String()
							if s.Type != nil {
								v += " " + str(s.Type)
							}
							if i < len(s.Values) {
								if x := str(s.Values[i]); len(x) < 200 {
									v += " = " + x
								}
							}
							add("", n.Name, v)
						}
					case *ast.TypeSpec:
						if out[s.Name.Name] == nil {
							out[s.Name.Name] = [][2]string{}
						}
						switch x := s.Type.(type) {
						case *ast.StructType:
							for _, m := range x.Fields.List {
								for _, n := range m.Names {
									add(s.Name.Name, n.Name, str(m.Type))
								}
								if m.Names == nil {
									p := strings.Split(strings.TrimPrefix(str(m.Type), "*"), ".")
									add(s.Name.Name, p[len(p)-1], "embedded "+str(m.Type))
								}
							}
						case *ast.InterfaceType:
							for _, m := range x.Methods.List {
								for _, n := range m.Names {
									if ft, ok := m.Type.(*ast.FuncType); ok {
										add(s.Name.Name, n.Name, sig(ft))
									}
								}
							}
						default:
							add(s.Name.Name, "", str(s.Type))
						}
					}
				}
			}
		}
	}
	json.NewEncoder(os.Stdout).Encode(out)
}
