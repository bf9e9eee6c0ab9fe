package read

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
)

type fakeImporter map[string]*types.Package

func (f fakeImporter) Import(path string) (*types.Package, error) {
	if p, ok := f[path]; ok {
		return p, nil
	}
	return nil, fmt.Errorf("import of %q", path)
}

var goImports = func() fakeImporter {
	f := fakeImporter{}
	for path, def := range map[string][2]string{"encoding/xml": {"xml", "Name"}, "time": {"time", "Time"}} {
		p := types.NewPackage(path, def[0])
		n := types.NewNamed(types.NewTypeName(token.NoPos, p, def[1], nil), types.NewStruct(nil, nil), nil)
		p.Scope().Insert(n.Obj())
		p.MarkComplete()
		f[path] = p
	}
	return f
}()

// CheckGo type-checks generated Go files of one package, and returns the first
// error.
func CheckGo(srcs ...string) string {
	fset := token.NewFileSet()
	var files []*ast.File
	for i, src := range srcs {
		f, err := parser.ParseFile(fset, fmt.Sprintf("x%d.go", i), src, 0)
		if err != nil {
			return err.Error()
		}
		files = append(files, f)
	}
	conf := types.Config{Importer: goImports, Error: func(error) {}}
	if _, err := conf.Check("schema", fset, files, nil); err != nil {
		return err.Error()
	}
	return ""
}
