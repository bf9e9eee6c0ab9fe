package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

// linkage is how the files of a set are connected.
type linkage int

const (
	includes  linkage = iota // all files of one namespace
	imports                  // a namespace per file
	chameleon                // as includes, only the first file has a namespace
	nameless                 // as imports, only the first file has a namespace
	mixed                    // the last file has a namespace of its own, which the others import
)

var linkName = []string{"include", "import", "chameleon include", "import without namespace", "include and import"}

// fileSet is a state: files, their connections, a chain of components.
type fileSet struct {
	n     int
	link  linkage
	edges []bool // from*n+to
	dirs  []string
	form  int // how the files are written, see forms

	names    []string // of the files, a.xsd, b.xsd and so on if not given
	location func(from, rel string) string
}

// forms are lexical forms of the files that keep the prefix of the target
// namespace.
var forms = []func(st *xsd.Style){
	func(*xsd.Style) {},
	func(st *xsd.Style) { st.RevAttr = true },
	func(st *xsd.Style) { st.XS = "" },
	func(st *xsd.Style) { st.XS = "a-b.c_1"; st.LateNS = true },
	func(st *xsd.Style) { st.Quote = "'"; st.Pretty = false },
	func(st *xsd.Style) { st.CharRef = true },
	func(st *xsd.Style) { st.Comment = true; st.PI = true },
	func(st *xsd.Style) { st.Long = true; st.SpaceAttr = true },
	func(st *xsd.Style) { st.Foreign = true; st.ForeignEl = true },
	func(st *xsd.Style) { st.CRLF = true; st.Pad = " \n " },
	func(st *xsd.Style) { st.RevAttr = true; st.LateNS = true; st.Foreign = true; st.Pad = "\t" },
}

func (f fileSet) edge(i, j int) bool { return f.edges[i*f.n+j] }

// visible tells whether file i may refer to components of file j.
func (f fileSet) visible(i, j int) bool {
	if i == j {
		return true
	}
	if f.link == imports || f.link == nameless || f.link == mixed && j == f.n-1 {
		return f.edge(i, j)
	}
	if f.link == mixed && i == f.n-1 {
		return false
	}
	seen := make([]bool, f.n)
	todo := []int{i}
	for len(todo) > 0 {
		k := todo[0]
		todo = todo[1:]
		if seen[k] {
			continue
		}
		seen[k] = true
		for l := 0; l < f.n; l++ {
			if f.edge(k, l) {
				todo = append(todo, l)
			}
		}
	}
	return seen[j]
}

func (f fileSet) name(i int) string {
	dir, name := "", string(rune('a'+i))+".xsd"
	if f.dirs != nil {
		dir = f.dirs[i]
	}
	if f.names != nil {
		name = f.names[i]
	}
	return filepath.Join(dir, name)
}

func (f fileSet) String() string {
	var l []string
	for i := 0; i < f.n; i++ {
		if f.n > 4 {
			l = append(l, fmt.Sprintf("%d files", f.n))
			break
		}
		for j := 0; j < f.n; j++ {
			if f.edge(i, j) {
				l = append(l, fmt.Sprintf("%s->%s", f.name(i), f.name(j)))
			}
		}
	}
	return fmt.Sprintf("%ss {%s}, form %d", linkName[f.link], strings.Join(l, " "), f.form)
}

// ref refers from file i to a component in file j.
func (f fileSet) ref(i, j int, name string) xsd.Ref {
	if f.link == chameleon && i > 0 || f.link == nameless && j > 0 {
		return xsd.Ref{NS: "-", Name: name}
	}
	if f.link == nameless && i > 0 {
		return xsd.Ref{NS: "fa", Name: name}
	}
	if f.link != imports && f.link != mixed || i == j || f.link == mixed && j != f.n-1 {
		return xsd.T(name)
	}
	return xsd.Ref{NS: "f" + string(rune('a'+j)), Name: name}
}

// schemas makes the documents without components.
func (f fileSet) schemas() (l []*xsd.Schema) {
	for i := 0; i < f.n; i++ {
		s := &xsd.Schema{}
		if f.link == imports {
			s.TNS = "urn:" + string(rune('a'+i))
			for j := 0; j < f.n; j++ {
				if j != i {
					s.NSs = append(s.NSs, [2]string{"f" + string(rune('a'+j)), "urn:" + string(rune('a'+j))})
				}
			}
		}
		if f.link == mixed {
			if i == f.n-1 {
				s.TNS = "urn:z"
			} else {
				s.NSs = append(s.NSs, [2]string{"f" + string(rune('a'+f.n-1)), "urn:z"})
			}
		}
		if (f.link == chameleon || f.link == nameless) && i > 0 {
			s.NoTNS = true
		}
		if f.link == nameless && i > 0 {
			s.NSs = [][2]string{{"fa", "urn:t"}}
		}
		for j := 0; j < f.n; j++ {
			if !f.edge(i, j) {
				continue
			}
			loc, _ := filepath.Rel(filepath.Dir(filepath.Join("/r", f.name(i))), filepath.Join("/r", f.name(j)))
			if f.location != nil {
				loc = f.location(f.name(i), loc)
			}
			if f.link == nameless && i == 0 {
				s.Imports = append(s.Imports, [2]string{"", loc})
			} else if f.link == nameless && j == 0 {
				s.Imports = append(s.Imports, [2]string{"urn:t", loc})
			} else if f.link == imports {
				s.Imports = append(s.Imports, [2]string{"urn:" + string(rune('a'+j)), loc})
			} else if f.link == mixed && j == f.n-1 {
				s.Imports = append(s.Imports, [2]string{"urn:z", loc})
			} else {
				s.Includes = append(s.Includes, loc)
			}
		}
		l = append(l, s)
	}
	return
}

func (f fileSet) style(i int) xsd.Style {
	st := xsd.Plain
	forms[f.form](&st)
	if (f.link == chameleon || f.link == nameless) && i > 0 {
		st.T = ""
	}
	return st
}

// chain is a reference from file user over aliases to an end, each in a file.
type chain struct {
	user  int
	kind  space.RefUser
	via   string // "", "element", "attribute", "group", "attributeGroup": what stands between
	viaAt int
	alias []int // files of the aliases, nearest to the end first
	end   string
	endAt int
}

func (c chain) String() string {
	return fmt.Sprintf("%s %s in %c over %v to %s in %c", c.kind.Name, c.via, 'a'+c.user, c.alias, c.end, 'a'+c.endAt)
}

var ends = map[string]func() *xsd.Comp{
	"builtin": func() *xsd.Comp { return nil },
	"list": func() *xsd.Comp {
		return &xsd.Comp{S: &xsd.Simple{Name: "EndL", Variety: "list", Base: xsd.XS("short")}}
	},
	"union": func() *xsd.Comp {
		return &xsd.Comp{S: &xsd.Simple{Name: "EndU", Variety: "union", Members: []xsd.Ref{xsd.XS("int"), xsd.XS("date")}}}
	},
	"complex": func() *xsd.Comp {
		return &xsd.Comp{C: &xsd.Complex{Name: "EndC", Content: space.Seq(space.El("ec", xsd.XS("int"), ""))}}
	},
}

// build places the components; ok is false if a reference is not allowed.
func (f fileSet) build(c chain) (ss []*xsd.Schema, ok bool) {
	ss = f.schemas()
	at := c.endAt
	var r func(from int) xsd.Ref
	last := "unsignedShort"
	if e := ends[c.end](); e != nil {
		last = e.Name()
		ss[at].Comps = append(ss[at].Comps, *e)
		n := last
		r = func(from int) xsd.Ref { return f.ref(from, at, n) }
	} else {
		at = -1
		r = func(int) xsd.Ref { return xsd.XS("unsignedShort") }
	}
	step := func(to int) bool { return at < 0 || f.visible(to, at) }
	for i, a := range c.alias {
		if !step(a) {
			return nil, false
		}
		n := fmt.Sprintf("Al%d", i)
		ss[a].Comps = append(ss[a].Comps, xsd.Comp{S: space.Re(n, r(a))})
		at = a
		b := a
		r = func(from int) xsd.Ref { return f.ref(from, b, n) }
	}
	if c.via == "" {
		if !step(c.user) {
			return nil, false
		}
		ss[c.user].Comps = append(ss[c.user].Comps, c.kind.Make(r(c.user)))
		return ss, true
	}
	if !step(c.viaAt) || !f.visible(c.user, c.viaAt) {
		return nil, false
	}
	u := &xsd.Complex{Name: "User", Content: space.Seq(space.El("v", xsd.XS("date"), ""))}
	v := r(c.viaAt)
	switch c.via {
	case "element":
		ss[c.viaAt].Comps = append(ss[c.viaAt].Comps, xsd.Comp{E: &xsd.Elem{Name: "glob", Type: v}})
		u.Content.Kids = append(u.Content.Kids, space.ElE(&xsd.Elem{Ref: f.ref(c.user, c.viaAt, "glob"), Max: "2"}))
	case "attribute":
		ss[c.viaAt].Comps = append(ss[c.viaAt].Comps, xsd.Comp{A: space.At("glob", v, "")})
		u.Attrs = append(u.Attrs, &xsd.Attr{Ref: f.ref(c.user, c.viaAt, "glob")})
	case "group":
		ss[c.viaAt].Comps = append(ss[c.viaAt].Comps, xsd.Comp{G: &xsd.Group{Name: "Glob", Content: space.Seq(space.El("g", v, ""))}})
		u.Content.Kids = append(u.Content.Kids, &xsd.Particle{Kind: "group", Ref: f.ref(c.user, c.viaAt, "Glob")})
	case "attributeGroup":
		ss[c.viaAt].Comps = append(ss[c.viaAt].Comps, xsd.Comp{AG: &xsd.AttrGroup{Name: "Glob", Attrs: []*xsd.Attr{space.At("g", v, "")}}})
		u.Attrs = append(u.Attrs, &xsd.Attr{Group: f.ref(c.user, c.viaAt, "Glob")})
	}
	ss[c.user].Comps = append(ss[c.user].Comps, xsd.Comp{C: u})
	return ss, true
}

func wipe(dir string) {
	es, _ := ioutil.ReadDir(dir)
	for _, e := range es {
		os.RemoveAll(filepath.Join(dir, e.Name()))
	}
}

// runSet converts the files of a set in the given order for a language and
// returns the outputs, as paths relative to the output directory.
func runSet(c *eng.Ctx, docs map[string]string, order []string, lang string) (outs map[string]string, bad string) {
	in, out := filepath.Join(c.Dir, "fin"), filepath.Join(c.Dir, "fout")
	os.MkdirAll(out, 0755)
	wipe(out)
	for _, n := range order {
		err, p := conv.Parse(conv.Options(filepath.Join(in, n), in, out, lang, "schema"))
		c.Transition(1, 1)
		if p != "" {
			return nil, n + ": panic: " + p
		}
		if err != nil {
			return nil, n + ": error: " + err.Error()
		}
	}
	outs = map[string]string{}
	filepath.Walk(out, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := ioutil.ReadFile(p)
			r, _ := filepath.Rel(out, p)
			outs[r] = string(b)
		}
		return nil
	})
	return
}

var lastDocs = map[int]string{}

func writeDocs(c *eng.Ctx, docs map[string]string) {
	in := filepath.Join(c.Dir, "fin")
	os.MkdirAll(in, 0755)
	wipe(in)
	for n, d := range docs {
		os.MkdirAll(filepath.Dir(filepath.Join(in, n)), 0755)
		if err := ioutil.WriteFile(filepath.Join(in, n), []byte(d), 0644); err != nil {
			panic(err)
		}
	}
}

// compareSet compares the files generated for a set with the model of all
// components in one file.
func compareSet(c *eng.Ctx, f fileSet, ss []*xsd.Schema, what string) {
	docs := map[string]string{}
	var order []string
	for i, s := range ss {
		docs[f.name(i)] = s.Text(f.style(i))
		order = append(order, f.name(i))
	}
	compareDocs(c, order, docs, ss, linkName[f.link], what, true)
}

// compareDocs compares the files generated for schemas with the model of all
// their components in one file.
func compareDocs(c *eng.Ctx, order []string, docs map[string]string, ss []*xsd.Schema, link, what string, literally bool) {
	flat := &xsd.Schema{}
	for _, s := range ss {
		flat.Comps = append(flat.Comps, s.Comps...)
	}
	writeDocs(c, docs)
	m := spec.Build(flat)
	splits, given := map[string]*read.File{}, map[string]map[string]string{}
	for _, lang := range conv.Langs {
		outs, bad := runSet(c, docs, order, lang)
		files := map[string]string{}
		for n, d := range docs {
			files["in/"+n] = d
		}
		for n, d := range outs {
			files["out/"+n] = d
		}
		if bad != "" {
			c.Report(lang+" noout "+link+what+firstWord(bad), lang+": "+bad, "", files)
			continue
		}
		all := &read.File{Lang: lang}
		var names []string
		for n := range outs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			r, err := read.Read(lang, outs[n])
			if err != nil {
				c.Report(lang+" syntax "+what, n+": "+err.Error(), "", files)
				continue
			}
			all.Decls = append(all.Decls, r.Decls...)
		}
		for i, s := range ss {
			out, ok := outs[order[i]+read.Ext(lang)]
			if !ok {
				c.Report(lang+" no output"+what, lang+": no output for "+order[i], "", files)
				continue
			}
			// a file declares what its schema declares, and nothing else
			r, err := read.Read(lang, out)
			if err != nil {
				continue
			}
			want := map[string]bool{}
			for _, d := range spec.Build(s).Decls {
				want[spec.Fold(d.Name)] = true
			}
			for _, d := range r.Decls {
				if !want[spec.Fold(d.Name)] {
					c.Report(lang+" misplaced"+what, lang+": "+d.Name+" is declared in the output of "+order[i], "", files)
				}
			}
		}
		for _, d := range m.Compare(all) {
			if d.Class == "optional" || d.Class == "xmlname" || d.Class == "decl-order" {
				continue
			}
			c.Report(lang+" "+d.Class+" "+link+" "+what+" "+d.Comp, d.String(), "", files)
		}
		splits[lang] = all
		given[lang] = files
	}
	if !literally {
		return
	}
	// the same types of the language as in one file
	localRefs(reflect.ValueOf(flat.Comps))
	doc := flat.Text(xsd.Plain)
	for _, lang := range conv.Langs {
		all := splits[lang]
		one, _, bad := readAll(c, doc, lang)
		if all == nil || bad != "" {
			continue
		}
		files := given[lang]
		files["one.xsd"] = doc
		decls := map[string]read.Decl{}
		for _, d := range one.Decls {
			decls[spec.Fold(d.Name)] = d
		}
		for _, d := range all.Decls {
			o, ok := decls[spec.Fold(d.Name)]
			if !ok {
				continue
			}
			differ := func(name string, got, want read.Type) {
				// the name of a declared type may stand for what it is one of
				if _, ok := decls[spec.Fold(want.Name)]; !ok && got != want {
					c.Report(lang+" split "+link+" "+what, fmt.Sprintf("%s: the type of %s is %s, in one file %s", lang, name, got, want), "", files)
				}
			}
			differ(d.Name, d.Type, o.Type)
			if len(d.Fields) != len(o.Fields) {
				continue
			}
			at, has := map[string]int{}, map[string]bool{}
			for i, g := range o.Fields {
				at[spec.Fold(g.Name)] = i
			}
			for _, g := range d.Fields {
				has[spec.Fold(g.Name)] = true
			}
			for i, g := range d.Fields {
				if k, ok := at[spec.Fold(g.Name)]; ok {
					i = k // members of a union are sorted by type
				} else if has[spec.Fold(o.Fields[i].Name)] {
					continue
				}
				differ(d.Name+"."+g.Name, g.Type, o.Fields[i].Type)
			}
		}
	}
}

// localRefs makes all references to components ones to the target namespace.
func localRefs(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			localRefs(v.Elem())
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			localRefs(v.Index(i))
		}
	case reflect.Struct:
		if r, ok := v.Interface().(xsd.Ref); ok {
			if r.Name != "" && r.NS != "xs" && r.NS != "xml" {
				v.Set(reflect.ValueOf(xsd.T(r.Name)))
			}
			return
		}
		for i := 0; i < v.NumField(); i++ {
			localRefs(v.Field(i))
		}
	}
}

// formedSet checks that the files generated for a set are well-formed, and refer
// to types that one of them declares.
func formedSet(c *eng.Ctx, f fileSet, ch chain) {
	ss, _ := f.build(ch)
	docs := map[string]string{}
	var order []string
	for i, s := range ss {
		docs[f.name(i)] = s.Text(f.style(i))
		order = append(order, f.name(i))
	}
	writeDocs(c, docs)
	what := ch.kind.Name + " " + ch.via + " to " + ch.end
	for _, lang := range conv.Langs {
		outs, bad := runSet(c, docs, order, lang)
		files := map[string]string{}
		for n, d := range docs {
			files["in/"+n] = d
		}
		for n, d := range outs {
			files["out/"+n] = d
		}
		if bad != "" {
			c.Report(lang+" noout "+what, lang+": "+bad, "", files)
			continue
		}
		all := &read.File{Lang: lang}
		known := map[string]bool{}
		var names, goFiles []string
		var each []*read.File
		for n := range outs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			goFiles = append(goFiles, outs[n])
			r, err := read.Read(lang, outs[n])
			if err != nil {
				c.Report(lang+" syntax "+what, n+": "+err.Error(), "", files)
				continue
			}
			each = append(each, r)
			all.Decls = append(all.Decls, r.Decls...)
			all.Imports = append(all.Imports, r.Imports...)
			for _, d := range r.Decls {
				known[spec.Fold(d.Name)] = true
			}
		}
		for _, r := range append(each, all) {
			for _, d := range spec.Formedness(r, known) {
				c.Report(lang+" "+d.Class+" "+linkName[f.link]+" "+what, d.String(), "", files)
			}
		}
		for _, d := range spec.Formedness(all, nil) {
			c.Report(lang+" "+d.Class+" "+linkName[f.link]+" "+what, "all files: "+d.String(), "", files)
		}
		if lang == "Go" {
			if e := read.CheckGo(goFiles...); e != "" {
				c.Report("Go typecheck "+linkName[f.link]+" "+what, e, "", files)
			}
		}
	}
}

// formedSets enumerates the file sets whose outputs have to fit together.
func formedSets(tier string) []eng.Space {
	flat := []string{"", "", ""}
	return []eng.Space{
		{Name: "two files", Bound: "all graphs of include, import, chameleon include or import without namespace over two files x all referring positions x all targets over up to 1 (thorough: 2) aliases x all placements: the outputs together", Gen: setsOf{n: 2, self: true, dirs: flat, users: space.RefUsers(), vias: allVias, ends: allEnds, maxAlias: pick(tier, 1, 2), eval: formedSet}.gen},
		{Name: "three files", Bound: "all graphs over three files x referring positions x targets over up to 1 alias x all placements: the outputs together", Gen: setsOf{n: 3, dirs: flat, users: pickUsers("local element", "attribute", "complex extension", "member"), ends: []string{"builtin", "complex", "list"}, maxAlias: pick(tier, 0, 1), onlyUser: true, eval: formedSet}.gen},
	}
}

func firstWord(s string) string {
	if i := strings.Index(s, ": "); i >= 0 {
		s = s[i+2:]
	}
	if i := strings.Index(s, "/"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 40 {
		s = s[:40]
	}
	return " " + s
}

func graphs(n int, self bool, emit func(edges []bool)) {
	var slots []int
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if i != j || self {
				slots = append(slots, i*n+j)
			}
		}
	}
	for m := 0; m < 1<<uint(len(slots)); m++ {
		e := make([]bool, n*n)
		for k, s := range slots {
			e[s] = m>>uint(k)&1 == 1
		}
		emit(e)
	}
}

func places(n, k int) (l [][]int) {
	if k == 0 {
		return [][]int{nil}
	}
	for _, p := range places(n, k-1) {
		for i := 0; i < n; i++ {
			l = append(l, append(p[:len(p):len(p)], i))
		}
	}
	return
}

// chains enumerates all chains over the files of a set.
func chains(f fileSet, users []space.RefUser, vias []string, ends []string, maxAlias int, emit func(chain)) {
	for _, end := range ends {
		for k := 0; k <= maxAlias; k++ {
			if end == "complex" && k > 0 {
				continue
			}
			for _, pl := range places(f.n, k+1) {
				if end == "builtin" && pl[0] != 0 {
					continue // it is nowhere
				}
				for user := 0; user < f.n; user++ {
					for _, u := range users {
						if end == "complex" && !u.Complex || u.Name == "complex extension" && end != "complex" ||
							u.Name == "simple extension" && (end == "list" || end == "union") || u.Name == "item" && end == "list" {
							continue
						}
						emit(chain{user: user, kind: u, alias: pl[1:], end: end, endAt: pl[0]})
					}
					for _, v := range vias {
						if v == "attribute" && end == "complex" || v == "attributeGroup" && end == "complex" {
							continue
						}
						for at := 0; at < f.n; at++ {
							emit(chain{user: user, kind: space.RefUser{Name: "ref to"}, via: v, viaAt: at, alias: pl[1:], end: end, endAt: pl[0]})
						}
					}
				}
			}
		}
	}
}

var (
	allEnds = []string{"builtin", "list", "union", "complex"}
	allVias = []string{"element", "attribute", "group", "attributeGroup"}
)

func pickUsers(names ...string) (l []space.RefUser) {
	for _, u := range space.RefUsers() {
		for _, n := range names {
			if u.Name == n {
				l = append(l, u)
			}
		}
	}
	return
}

// setsOf describes a space of file sets with chains.
type setsOf struct {
	n        int
	self     bool
	dirs     []string
	users    []space.RefUser
	vias     []string
	ends     []string
	maxAlias int
	onlyUser bool // the user is in the first file
	names    []string
	location func(from, rel string) string
	eval     func(c *eng.Ctx, f fileSet, ch chain)
}

func (o setsOf) gen(tier string, emit func(eng.Case)) {
	for _, link := range []linkage{includes, imports, chameleon, nameless, mixed} {
		if link == nameless && o.n > 2 || link == mixed && o.n < 3 {
			continue // one of the other files is imported
		}
		graphs(o.n, o.self, func(edges []bool) {
			f := fileSet{n: o.n, link: link, edges: edges, dirs: o.dirs, names: o.names, location: o.location}
			if link == mixed {
				for i := 0; i < o.n-1; i++ {
					if f.edge(o.n-1, i) {
						return // a namespace of several files is not imported
					}
				}
			}
			if o.self && (link == imports || link == nameless) {
				for i := 0; i < o.n; i++ {
					if f.edge(i, i) {
						return // a schema does not import itself
					}
				}
			}
			chains(f, o.users, o.vias, o.ends, o.maxAlias, func(ch chain) {
				if o.onlyUser && ch.user != 0 {
					return
				}
				if _, ok := f.build(ch); !ok {
					return
				}
				emit(eng.Case{State: func() string { return f.String() + ": " + ch.String() }, Run: func(c *eng.Ctx) { o.eval(c, f, ch) }})
			})
		})
	}
}

// sameForms compares the outputs of a file set in all lexical forms.
func sameForms(c *eng.Ctx, f fileSet, ch chain) {
	for _, lang := range conv.Langs {
		var first map[string]string
		for f.form = 0; f.form < len(forms); f.form++ {
			if f.form == 2 && (f.link == chameleon || f.link == nameless) {
				continue // no name without prefix is one of no namespace
			}
			ss, _ := f.build(ch)
			docs := map[string]string{}
			var order []string
			for i, s := range ss {
				docs[f.name(i)] = s.Text(f.style(i))
				order = append(order, f.name(i))
			}
			writeDocs(c, docs)
			outs, bad := runSet(c, docs, order, lang)
			if bad != "" {
				c.Report(lang+" noout"+firstWord(bad), lang+": "+bad, "", docs)
				continue
			}
			if first == nil {
				first = outs
				continue
			}
			for n, want := range first {
				if outs[n] != want || len(outs) != len(first) {
					c.Report(fmt.Sprintf("%s form %d %s", lang, f.form, linkName[f.link]), fmt.Sprintf("%s: %s differs in form %d", lang, n, f.form), "", map[string]string{"a.xsd": docs[f.name(0)], "b.xsd": docs[f.name(1)], "want": want, "got": outs[n]})
				}
			}
		}
	}
}

func filesCheck() *eng.Check {
	same := func(c *eng.Ctx, f fileSet, ch chain) {
		ss, _ := f.build(ch)
		compareSet(c, f, ss, ch.kind.Name+" "+ch.via+" to "+ch.end)
	}
	flat := []string{"", "", ""}
	return &eng.Check{Prop: "C09", Level: "model_checking", Assumptions: assume, Spaces: func(tier string) []eng.Space {
		three := pickUsers("local element", "attribute", "restriction", "complex extension", "member")
		if thorough(tier) {
			three = space.RefUsers()
		}
		return []eng.Space{
			{Name: "two files", Bound: "all graphs of include, import, chameleon include or import without namespace over two files, with includes of itself x all referring positions x all targets over up to 1 (thorough: 2) aliases x all placements the graph allows", Gen: setsOf{n: 2, self: true, dirs: flat, users: space.RefUsers(), vias: allVias, ends: allEnds, maxAlias: pick(tier, 1, 2), eval: same}.gen},
			{Name: "three files", Bound: "all graphs over three files x referring positions x targets over up to 1 alias x all placements the graph allows", Gen: setsOf{n: 3, dirs: flat, users: three, vias: []string{"element", "group"}, ends: []string{"builtin", "complex", "list"}, maxAlias: pick(tier, 1, 2), onlyUser: true, eval: same}.gen},
			{Name: "directories", Bound: "all graphs over two files in different directories x referring positions x targets", Gen: setsOf{n: 2, dirs: []string{"d", filepath.Join("e", "f")}, users: space.RefUsers(), vias: allVias, ends: allEnds, maxAlias: pick(tier, 1, 2), eval: same}.gen},
			{Name: "same name", Bound: "all graphs over three files of the same name in a directory, one below it and one beside that x referring positions x targets over up to 1 alias", Gen: setsOf{n: 3, dirs: []string{"d", filepath.Join("d", "e"), "f"}, names: []string{"x.xsd", "x.xsd", "x.xsd"}, users: pickUsers("local element", "restriction"), ends: []string{"builtin", "complex", "list"}, maxAlias: 1, onlyUser: true, eval: same}.gen},
			{Name: "shapes", Bound: "stars, chains, rings and trees of 4 to 9 files x connections x referring positions x targets over 0 and 1 aliases in any of the files", Gen: shapes(same, pick(tier, 7, 9))},
			{Name: "links", Bound: "all lists of up to 3 (thorough: 4) of 11 kinds of include and import in one file (of its own namespace, two files of another one, no namespace, nothing to read, in the other file, too), x references to each of the files, in either order", Gen: links(pick(tier, 3, 4))},
			{Name: "locations", Bound: "spellings of the location x all graphs over two files x connections x referring positions x targets", Gen: locations(same)},
			{Name: "missing", Bound: "all referring positions to a component of a missing or remote schema, by include and by import", Gen: missing},
		}
	}}
}

// missing enumerates references into schemas that cannot be read.
func missing(tier string, emit func(eng.Case)) {
	for _, loc := range []string{"missing.xsd", "http://localhost:1/x.xsd", "https://example.invalid/a.xsd", "sub/missing.xsd", "", "sub", "/nonexistent/x.xsd"} {
		for _, imp := range []bool{false, true} {
			for _, u := range space.RefUsers() {
				for _, name := range []string{"Al0", "al-1.x", "string", "int", "EndC", "date"} {
					loc, imp, u, name := loc, imp, u, name
					if u.Name == "simple extension" || u.Name == "complex extension" {
						continue // an unknown base
					}
					if imp && loc == "" {
						continue
					}
					emit(eng.Case{State: func() string { return fmt.Sprintf("%s refers to %s in %q, import %v", u.Name, name, loc, imp) }, Run: func(c *eng.Ctx) {
						s := &xsd.Schema{NSs: [][2]string{{"o1", "urn:o"}}}
						r := xsd.T(name)
						if imp {
							s.Imports = [][2]string{{"urn:o", loc}}
							r = xsd.Ref{NS: "o1", Name: name}
						} else {
							s.Includes = []string{loc}
						}
						s.Comps = []xsd.Comp{u.Make(r)}
						docs := map[string]string{"a.xsd": s.Text(xsd.Plain)}
						writeDocs(c, docs)
						os.MkdirAll(filepath.Join(c.Dir, "fin", "sub"), 0755)
						m := spec.Build(s)
						for _, lang := range conv.Langs {
							outs, bad := runSet(c, docs, []string{"a.xsd"}, lang)
							if strings.Contains(bad, "panic") {
								c.Report(lang+" panic missing", bad, "", docs)
							}
							if bad != "" {
								c.Outcome("reported")
								continue
							}
							c.Outcome("plain name")
							f, err := read.Read(lang, outs["a.xsd"+read.Ext(lang)])
							if err != nil {
								c.Report(lang+" syntax missing", err.Error(), "", docs)
								continue
							}
							// nothing but a plain name: no built-in type in its place
							for _, d := range misresolved(m, f, name, lang) {
								fid := spec.NameFinding("reference", lang, name)
								if fid != "" {
									continue // the plain name is that of a type of the language
								}
								c.Report(lang+" misresolved "+u.Name, d, "", map[string]string{"a.xsd": docs["a.xsd"], "out": outs["a.xsd"+read.Ext(lang)]})
							}
						}
					}})
				}
			}
		}
	}
}

// misresolved lists the places where the type of the referring declaration is
// neither the plain name nor derived from it.
func misresolved(m *spec.Model, f *read.File, name, lang string) (l []string) {
	ok := func(t read.Type) bool {
		return strings.Contains(spec.Fold(t.Name), spec.Fold(name)) || t.Name == "boolean" || t.Name == "bool"
	}
	for _, d := range f.Decls {
		if spec.Fold(d.Name) != "user" {
			continue
		}
		if d.Kind == "alias" && !ok(d.Type) {
			l = append(l, fmt.Sprintf("%s: %s is %s instead of %s", lang, d.Name, d.Type, name))
		}
		for _, g := range d.Fields {
			switch spec.Fold(g.Name) {
			case "u", "uattr", "w", "wattr", "user", "userattr":
				if !ok(g.Type) {
					l = append(l, fmt.Sprintf("%s: %s.%s is %s instead of %s", lang, d.Name, g.Name, g.Type, name))
				}
			}
		}
	}
	return
}

// shapes enumerates larger graphs of regular form, with the referring
// component in the first file.
func shapes(eval func(c *eng.Ctx, f fileSet, ch chain), max int) func(tier string, emit func(eng.Case)) {
	kinds := []struct {
		name string
		edge func(n, i, j int) bool
	}{
		{"star", func(n, i, j int) bool { return i == 0 && j > 0 }},
		{"star both ways", func(n, i, j int) bool { return (i == 0) != (j == 0) }},
		{"chain", func(n, i, j int) bool { return j == i+1 }},
		{"reverse chain", func(n, i, j int) bool { return i == 0 && j == n-1 || i > 1 && j == i-1 }},
		{"ring", func(n, i, j int) bool { return j == (i+1)%n }},
		{"tree", func(n, i, j int) bool { return j == 2*i+1 || j == 2*i+2 }},
		{"complete", func(n, i, j int) bool { return i != j }},
	}
	return func(tier string, emit func(eng.Case)) {
		for n := 4; n <= max; n++ {
			for _, k := range kinds {
				edges := make([]bool, n*n)
				for i := 0; i < n; i++ {
					for j := 0; j < n; j++ {
						edges[i*n+j] = k.edge(n, i, j)
					}
				}
				for _, link := range []linkage{includes, imports, chameleon} {
					f := fileSet{n: n, link: link, edges: edges}
					k := k
					chains(f, pickUsers("local element", "attribute", "restriction", "simple extension", "complex extension"), nil, []string{"builtin", "list", "complex"}, 1, func(ch chain) {
						if ch.user != 0 {
							return
						}
						if _, ok := f.build(ch); !ok {
							return
						}
						emit(eng.Case{State: func() string { return k.name + " of " + f.String() + ": " + ch.String() }, Run: func(c *eng.Ctx) { eval(c, f, ch) }})
					})
				}
			}
		}
	}
}

// locations enumerates spellings of schema locations and names of files.
func locations(eval func(c *eng.Ctx, f fileSet, ch chain)) func(tier string, emit func(eng.Case)) {
	spell := []func(from, rel string) string{
		nil,
		func(from, rel string) string { return "./" + rel },
		func(from, rel string) string { return ".//" + rel },
		func(from, rel string) string { return "../" + filepath.Base(filepath.Dir(from)) + "/" + rel },
	}
	names := [][]string{nil, {"a.b.xsd", "b.b.xsd"}, {"x y.xsd", "y x.xsd"}, {"main", "types"}, {"A.XSD", "B.Xsd"}, {"\u00e9.xsd", "\u00fc.xsd"}, {"a.xsd", "a.xsd.xsd"}}
	return func(tier string, emit func(eng.Case)) {
		for _, sp := range spell {
			for _, ns := range names {
				if sp != nil && ns != nil {
					continue
				}
				setsOf{n: 2, dirs: []string{"p", "p"}, names: ns, location: sp, users: pickUsers("local element", "attribute", "restriction"), ends: []string{"builtin", "list", "complex"}, maxAlias: 1, eval: eval}.gen(tier, emit)
			}
		}
	}
}
