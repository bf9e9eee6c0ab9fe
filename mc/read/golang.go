package read

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/scanner"
	"go/token"
	"reflect"
	"strconv"
	"strings"
)

func readGo(src string) (*File, error) {
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, fmt.Errorf("Go: not well-formed: %v", err)
	}
	f := &File{Lang: "Go", Package: af.Name.Name}
	var s scanner.Scanner
	sf := fset.AddFile("y.go", -1, len(src))
	s.Init(sf, []byte(src), nil, 0)
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			break
		}
		if t == token.SEMICOLON {
			lit = ";"
		}
		if lit == "" {
			lit = t.String()
		}
		f.Tokens = append(f.Tokens, lit)
	}
	for _, d := range af.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok {
			return nil, fmt.Errorf("Go: function declaration")
		}
		for _, sp := range g.Specs {
			switch v := sp.(type) {
			case *ast.ImportSpec:
				i, _ := strconv.Unquote(v.Path.Value)
				f.Imports = append(f.Imports, i)
			case *ast.TypeSpec:
				dd := Decl{Name: v.Name.Name}
				if g.Doc != nil {
					dd.Doc = g.Doc.Text()
				}
				if v.Doc != nil {
					dd.Doc = v.Doc.Text()
				}
				if st, ok := v.Type.(*ast.StructType); ok {
					dd.Kind = "struct"
					for _, fl := range st.Fields.List {
						ft, err := goType(fl.Type)
						if err != nil {
							return nil, err
						}
						fd := Field{Type: ft}
						if fl.Tag != nil {
							tag, _ := strconv.Unquote(fl.Tag.Value)
							x, ok := reflect.StructTag(tag).Lookup("xml")
							if !ok {
								return nil, fmt.Errorf("Go: struct tag %q", tag)
							}
							parts := strings.Split(x, ",")
							fd.XML, fd.HasXML = parts[0], true
							for _, o := range parts[1:] {
								switch o {
								case "attr":
									fd.Attr = true
								case "omitempty":
									fd.Optional = true
								case "chardata":
									fd.Text = true
									fd.HasXML = false
								default:
									return nil, fmt.Errorf("Go: xml tag option %q", o)
								}
							}
						}
						if len(fl.Names) == 0 {
							fd.Embed = true
							fd.Name = ft.Name
							dd.Fields = append(dd.Fields, fd)
						}
						for _, n := range fl.Names {
							fd.Name = n.Name
							if n.Name == "XMLName" {
								dd.XML = fd.XML
								continue
							}
							dd.Fields = append(dd.Fields, fd)
						}
					}
				} else {
					dd.Kind = "alias"
					dd.Type, err = goType(v.Type)
					if err != nil {
						return nil, err
					}
				}
				f.Decls = append(f.Decls, dd)
			default:
				return nil, fmt.Errorf("Go: unexpected declaration")
			}
		}
	}
	return f, nil
}

func goType(e ast.Expr) (t Type, err error) {
	switch v := e.(type) {
	case *ast.Ident:
		return Type{Name: v.Name}, nil
	case *ast.StarExpr:
		return goType(v.X)
	case *ast.ArrayType:
		if v.Len != nil {
			return t, fmt.Errorf("Go: array type")
		}
		t, err = goType(v.Elt)
		t.Lists++
		return
	case *ast.SelectorExpr:
		if x, ok := v.X.(*ast.Ident); ok {
			return Type{Name: x.Name + "." + v.Sel.Name}, nil
		}
	case *ast.InterfaceType:
		return Type{Name: "interface{}"}, nil
	}
	return t, fmt.Errorf("Go: type expression %T", e)
}
