// Command instr writes an instrumented copy of the implementation and an
// overlay for the go command that puts it in the place of the original: calls
// of the environment (files, locks, goroutines, time, random numbers) go to
// package rt, map iterations take the order rt chooses, and rt may switch
// threads before every statement that touches a mutable package variable.
//
//	instr -mod go.mod -out dir   (run in the explorer's module)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const target = "github.com/xuri/xgen"

// mirrored packages and the prefix of their stand-ins
var mirrored = map[string]string{"os": "Os_", "io/ioutil": "Ioutil_", "path/filepath": "Filepath_", "sync": "Sync_", "time": "Time_", "math/rand": "Rand_"}

// what keeps the import of a mirrored package used
var keep = map[string]string{"os": "Args", "io/ioutil": "Discard", "path/filepath": "Separator", "sync": "NewCond", "time": "Second", "math/rand": "NewSource"}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
}

func fail(a ...interface{}) {
	fmt.Fprintln(os.Stderr, append([]interface{}{"instr:"}, a...)...)
	os.Exit(2)
}

type edit struct {
	at, end int
	text    string
	seq     int
}

func main() {
	mod := flag.String("mod", "go.mod", "module file")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	cmd := exec.Command("go", "list", "-modfile", *mod, "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles", target+"/cmd/xgen")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fail("go list:", err)
	}
	exports := map[string]string{}
	var pkgs []pkgInfo
	for d := json.NewDecoder(bytes.NewReader(b)); ; {
		var p pkgInfo
		if err := d.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fail(err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == target || strings.HasPrefix(p.ImportPath, target+"/") {
			pkgs = append(pkgs, p)
		}
	}
	names := standIns()
	replace := map[string]string{}
	report := map[string][]string{}
	for _, p := range pkgs {
		instrument(p, exports, names, *out, replace, report)
	}
	active, _ := filepath.Abs("rt/active.go")
	replace[active] = filepath.Join(*out, "active.go")
	if err := ioutil.WriteFile(replace[active], []byte("package rt\n\n// Active: instrumented.\nconst Active = true\n"), 0644); err != nil {
		fail(err)
	}
	j, _ := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	if err := ioutil.WriteFile(filepath.Join(*out, "overlay.json"), j, 0644); err != nil {
		fail(err)
	}
	for k := range report {
		sort.Strings(report[k])
	}
	j, _ = json.MarshalIndent(report, "", " ")
	ioutil.WriteFile(filepath.Join(*out, "points.json"), j, 0644)
}

// standIns are the names package rt declares.
func standIns() map[string]bool {
	m := map[string]bool{}
	fset := token.NewFileSet()
	ps, err := parser.ParseDir(fset, "rt", nil, 0)
	if err != nil {
		fail(err)
	}
	for _, p := range ps {
		for _, f := range p.Files {
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						m[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							m[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								m[n.Name] = true
							}
						}
					}
				}
			}
		}
	}
	return m
}

func instrument(p pkgInfo, exports map[string]string, names map[string]bool, out string, replace map[string]string, report map[string][]string) {
	fset := token.NewFileSet()
	var fs []*ast.File
	var paths []string
	for _, g := range p.GoFiles {
		path := filepath.Join(p.Dir, g)
		f, err := parser.ParseFile(fset, path, nil, parser.ParseComments)
		if err != nil {
			fail(err)
		}
		fs = append(fs, f)
		paths = append(paths, path)
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if e := exports[path]; e != "" {
			return os.Open(e)
		}
		return nil, fmt.Errorf("no export data for %s", path)
	})}
	pkg, err := conf.Check(p.ImportPath, fset, fs, info)
	if err != nil {
		fail(err)
	}
	shared := sharedVars(pkg, fs, info)
	for v := range shared {
		report["mutable package variables"] = append(report["mutable package variables"], p.ImportPath+"."+v.Name())
	}
	for i, f := range fs {
		src, err := ioutil.ReadFile(paths[i])
		if err != nil {
			fail(err)
		}
		text := rewrite(fset, f, src, pkg, info, names, shared, report)
		o := filepath.Join(out, strings.ReplaceAll(p.ImportPath, "/", "_")+"_"+filepath.Base(paths[i]))
		if err := ioutil.WriteFile(o, text, 0644); err != nil {
			fail(err)
		}
		replace[paths[i]] = o
	}
}

// sharedVars are the package variables whose memory may change after
// initialisation: all those not merely looked up, iterated or called upon as
// a value that is safe to share.
func sharedVars(pkg *types.Package, fs []*ast.File, info *types.Info) map[*types.Var]bool {
	read := map[*ast.Ident]bool{} // uses that cannot change the variable
	for _, f := range fs {
		var stack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				stack = stack[:len(stack)-1]
				return true
			}
			if id, ok := n.(*ast.Ident); ok {
				if len(stack) > 0 && (onlyRead(id, stack) || basic(info.Uses[id]) && !written(id, stack[len(stack)-1])) {
					read[id] = true
				}
			}
			stack = append(stack, n)
			return true
		})
	}
	m := map[*types.Var]bool{}
	for id, o := range info.Uses {
		v, ok := o.(*types.Var)
		if !ok || v.IsField() || v.Pkg() != pkg || v.Parent() != pkg.Scope() || v.Name() == "_" {
			continue
		}
		if safe(v.Type()) || read[id] {
			continue
		}
		m[v] = true
	}
	return m
}

func basic(o types.Object) bool {
	if o == nil {
		return false
	}
	_, ok := o.Type().Underlying().(*types.Basic)
	return ok
}

// written tells whether the parent may change a variable of a basic type.
func written(id *ast.Ident, parent ast.Node) bool {
	switch p := parent.(type) {
	case *ast.AssignStmt:
		for _, l := range p.Lhs {
			if l == id {
				return true
			}
		}
	case *ast.IncDecStmt, *ast.ParenExpr:
		return true
	case *ast.UnaryExpr:
		return p.Op == token.AND
	case *ast.RangeStmt:
		return p.Key == id || p.Value == id
	}
	return false
}

// safe tells whether values of the type may be shared as they are.
func safe(t types.Type) bool {
	s := t.String()
	return strings.HasSuffix(s, "regexp.Regexp") || strings.HasPrefix(s, "sync.") || strings.HasPrefix(s, "*sync.") || s == "error" || strings.HasSuffix(s, "strings.Replacer")
}

// onlyRead tells whether the use of the variable at the end of the stack is
// v[k] as a value, range v, len(v), or v as an operand of a basic type.
func onlyRead(id *ast.Ident, stack []ast.Node) bool {
	switch p := stack[len(stack)-1].(type) {
	case *ast.IndexExpr:
		if p.X != id {
			return true // an index
		}
		if len(stack) < 2 {
			return false
		}
		// v[k] must not be changed, nor taken apart for change
		var cur ast.Expr = p
		for i := len(stack) - 2; i >= 0; i-- {
			switch q := stack[i].(type) {
			case *ast.IndexExpr:
				if q.X != cur {
					return true
				}
				cur = q
				continue
			case *ast.SelectorExpr:
				cur = q
				continue
			case *ast.ParenExpr:
				cur = q
				continue
			case *ast.AssignStmt:
				for _, l := range q.Lhs {
					if l == cur {
						return false
					}
				}
				return true
			case *ast.IncDecStmt:
				return false
			case *ast.UnaryExpr:
				return q.Op != token.AND
			case *ast.SliceExpr:
				return false
			default:
				return true
			}
		}
		return true
	case *ast.RangeStmt:
		return p.X == id
	case *ast.CallExpr:
		f, ok := p.Fun.(*ast.Ident)
		return ok && f.Name == "len"
	case *ast.BinaryExpr:
		return true
	}
	return false
}

func rewrite(fset *token.FileSet, f *ast.File, src []byte, pkg *types.Package, info *types.Info, names map[string]bool, shared map[*types.Var]bool, report map[string][]string) []byte {
	var edits []edit
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	add := func(at, end int, text string) { edits = append(edits, edit{at, end, text, len(edits)}) }
	add(off(f.Name.End()), off(f.Name.End()), "; import vrt \"verif/mc/rt\"")
	add(len(src), len(src), "\nvar _ = vrt.Used\n")
	local := map[string]string{} // import path to name in this file
	for _, im := range f.Imports {
		path := strings.Trim(im.Path.Value, `"`)
		name := path[strings.LastIndex(path, "/")+1:]
		if im.Name != nil {
			name = im.Name.Name
		}
		local[path] = name
		if k, ok := keep[path]; ok && name != "_" && name != "." {
			add(len(src), len(src), fmt.Sprintf("var _ = %s.%s\n", name, k))
		}
	}
	usable := true
	qual := func(p *types.Package) string {
		if p == pkg {
			return ""
		}
		n, ok := local[p.Path()]
		if !ok || n == "_" || n == "." {
			usable = false
		}
		return n
	}
	where := func(n ast.Node) string {
		p := fset.Position(n.Pos())
		return fmt.Sprintf("%s:%d", filepath.Base(p.Filename), p.Line)
	}
	count := 0
	touches := func(n ast.Node) (name string) { // in the head of a statement, not in nested statements
		ast.Inspect(n, func(k ast.Node) bool {
			switch k := k.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.Ident:
				if v, ok := info.Uses[k].(*types.Var); ok && shared[v] && name == "" {
					name = v.Name()
				}
			}
			return name == ""
		})
		return
	}
	list := func(l []ast.Stmt) {
		for _, s := range l {
			if n := touches(s); n != "" {
				add(off(s.Pos()), off(s.Pos()), "vrt.Yield(); ")
				report["accesses to mutable package variables"] = append(report["accesses to mutable package variables"], where(s)+" "+n)
			}
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.CommClause:
			list(n.Body)
		case *ast.ForStmt:
			if n.Cond != nil && touches(n.Cond) != "" {
				add(off(n.Body.Lbrace)+1, off(n.Body.Lbrace)+1, " vrt.Yield(); ")
			}
		case *ast.SelectorExpr:
			x, ok := n.X.(*ast.Ident)
			if !ok {
				break
			}
			pn, ok := info.Uses[x].(*types.PkgName)
			if !ok {
				break
			}
			if pre, ok := mirrored[pn.Imported().Path()]; ok && names[pre+n.Sel.Name] {
				add(off(n.Pos()), off(n.End()), "vrt."+pre+n.Sel.Name)
				report["stand-ins"] = append(report["stand-ins"], where(n)+" "+pre+n.Sel.Name)
				return false
			}
		case *ast.RangeStmt:
			t, ok := info.Types[n.X].Type.Underlying().(*types.Map)
			if !ok || n.Key == nil {
				break
			}
			usable = true
			count++
			e := fmt.Sprintf("vrtE%d", count)
			var decl, ks, vs = "", "nil", "nil"
			part := func(x ast.Expr, typ types.Type, tmp string) string {
				if x == nil {
					return "nil"
				}
				if id, ok := x.(*ast.Ident); ok && id.Name == "_" {
					return "nil"
				}
				s := string(src[off(x.Pos()):off(x.End())])
				if n.Tok == token.DEFINE {
					decl += fmt.Sprintf("var %s %s; ", s, types.TypeString(typ, qual))
				}
				return "&" + s
			}
			ks = part(n.Key, t.Key(), "k")
			vs = part(n.Value, t.Elem(), "v")
			if !usable {
				fmt.Fprintln(os.Stderr, "instr: type of", where(n), "cannot be written; left as it is")
				break
			}
			add(off(n.Pos()), off(n.X.Pos()), fmt.Sprintf("for _, %s := range vrt.Entries(", e))
			add(off(n.X.End()), off(n.Body.Lbrace)+1, fmt.Sprintf(") { if !%s.Live() { continue }; %s%s.Load(%s, %s);", e, decl, e, ks, vs))
			report["iterations over maps"] = append(report["iterations over maps"], where(n))
		case *ast.GoStmt:
			count++
			report["goroutines"] = append(report["goroutines"], where(n))
			var pre, args []string
			pre = append(pre, fmt.Sprintf("vrtF%d := ", count))
			c := n.Call
			add(off(n.Pos()), off(c.Fun.Pos()), "{ "+pre[0])
			last := c.Fun.End()
			for i, a := range c.Args {
				tv := info.Types[a]
				if tv.Value != nil || tv.IsNil() {
					args = append(args, string(src[off(a.Pos()):off(a.End())]))
					add(off(last), off(a.End()), "")
				} else {
					args = append(args, fmt.Sprintf("vrtA%d_%d", count, i))
					add(off(last), off(a.Pos()), fmt.Sprintf("; vrtA%d_%d := ", count, i))
				}
				last = a.End()
			}
			dots := ""
			if c.Ellipsis != token.NoPos {
				dots = "..."
			}
			add(off(last), off(n.End()), fmt.Sprintf("; vrt.Go(func() { vrtF%d(%s%s) }) }", count, strings.Join(args, ", "), dots))
		}
		return true
	})
	// outer insertions come first at the same place
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].at != edits[j].at {
			return edits[i].at < edits[j].at
		}
		if (edits[i].end > edits[i].at) != (edits[j].end > edits[j].at) {
			return edits[i].end == edits[i].at // insertions before replacements
		}
		return edits[i].seq < edits[j].seq
	})
	var o bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.at < pos {
			continue // within a replaced part
		}
		o.Write(src[pos:e.at])
		o.WriteString(e.text)
		pos = e.end
	}
	o.Write(src[pos:])
	return o.Bytes()
}
