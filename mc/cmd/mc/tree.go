package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"strings"

	"github.com/xuri/xgen"
	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

// treeCheck decides C21: what the parser returns to its caller.
func treeCheck(spaces func(tier string) []eng.Space) *eng.Check {
	return &eng.Check{Prop: "C21", Level: "model_checking", Spaces: spaces, Assumptions: []string{assume[0], "types in the tree are compared between extraction and generation only: that they are the right ones is the subject of C05"}}
}

func treeSpace(name, bound string, gen gen) eng.Space {
	return eng.Space{Name: name, Bound: bound, Gen: func(tier string, emit func(eng.Case)) {
		gen(tier, func(it space.Item) {
			emit(eng.Case{State: func() string { return it.Label }, Run: func(c *eng.Ctx) { runTree(c, it.Schema()) }})
		})
	}}
}

func runTree(c *eng.Ctx, s *xsd.Schema) {
	b := box(c)
	doc := s.Text(xsd.Plain)
	m := spec.Build(s)
	m.Prefix = xsd.Plain.T
	for _, lang := range conv.Langs {
		report := func(class, format string, a ...interface{}) {
			c.Report(lang+" "+class, lang+": "+fmt.Sprintf(format, a...), "", map[string]string{"a.xsd": doc})
		}
		gen, err, p := b.Tree(doc, lang, false)
		if err != nil || p != "" {
			report("fails", "generation: %v %s", err, p)
			continue
		}
		before := listing(b.Dir)
		ext, err, p := b.Tree(doc, lang, true)
		c.Transition(2, 2)
		if err != nil || p != "" {
			report("fails", "extraction: %v %s", err, p)
			continue
		}
		if after := listing(b.Dir); after != before {
			report("writes", "extraction changed the files from\n%s\nto\n%s", before, after)
		}
		if !reflect.DeepEqual(gen, ext) {
			report("agree", "extraction gives\n%s\ngeneration\n%s", dumpTree(ext), dumpTree(gen))
		}
		for _, d := range treeDiffs(m, ext) {
			report(strings.SplitN(d, ":", 2)[0], "%s in\n%s", d, dumpTree(ext))
		}
		c.Count("entries compared", int64(len(m.Decls)))
	}
}

// listing of the files below a directory, with their sizes.
func listing(dir string) string {
	var l []string
	var rec func(d string)
	rec = func(d string) {
		fis, _ := ioutil.ReadDir(filepath.Join(dir, d))
		for _, fi := range fis {
			n := filepath.Join(d, fi.Name())
			if fi.IsDir() {
				l = append(l, n+"/")
				rec(n)
				continue
			}
			l = append(l, fmt.Sprint(n, " ", fi.Size()))
		}
	}
	rec("")
	return strings.Join(l, "\n")
}

func dumpTree(tree []interface{}) string {
	var l []string
	for _, x := range tree {
		l = append(l, strings.TrimPrefix(fmt.Sprintf("%T%+v", x, reflect.Indirect(reflect.ValueOf(x))), "*xgen."))
	}
	return strings.Join(l, "\n")
}

// treeEntry is a declaration of the tree or of the model.
type treeEntry struct {
	kind, name string
	members    []string
}

func treeDiffs(m *spec.Model, tree []interface{}) (diffs []string) {
	var got []treeEntry
	mark := func(name string, plural, optional bool) string {
		if plural {
			name += " many"
		}
		if optional {
			name += " optional"
		}
		return name
	}
	for _, x := range tree {
		e := treeEntry{}
		groups := func(l []xgen.Group) {
			for _, g := range l {
				e.members = append(e.members, "group "+mark(g.Name, g.Plural, false))
			}
		}
		elements := func(l []xgen.Element) {
			for _, g := range l {
				e.members = append(e.members, "elem "+mark(g.Name, g.Plural, false))
			}
		}
		attrs := func(l []xgen.Attribute, k []xgen.AttributeGroup) {
			for _, g := range l {
				e.members = append(e.members, "attr "+mark(g.Name, false, g.Optional))
			}
			for _, g := range k {
				e.members = append(e.members, "agroup "+g.Name)
			}
		}
		switch x := x.(type) {
		case *xgen.SimpleType:
			e.kind, e.name = "simpleType", x.Name
			switch {
			case x.Union && len(x.MemberTypes) > 0:
				e.kind += " union"
			case x.List:
				e.kind += " list"
			default:
				for _, v := range x.Restriction.Enum {
					e.members = append(e.members, "value "+v)
				}
			}
			for name := range x.MemberTypes {
				e.members = append(e.members, "member "+name)
			}
		case *xgen.ComplexType:
			e.kind, e.name = "complexType", x.Name
			elements(x.Elements)
			groups(x.Groups)
			attrs(x.Attributes, x.AttributeGroup)
		case *xgen.Element:
			e.kind, e.name = "element", x.Name
		case *xgen.Attribute:
			e.kind, e.name = "attribute", x.Name
		case *xgen.Group:
			e.kind, e.name = "group", x.Name
			elements(x.Elements)
			groups(x.Groups)
		case *xgen.AttributeGroup:
			e.kind, e.name = "attributeGroup", x.Name
			attrs(x.Attributes, x.AttributeGroup)
		default:
			e.kind = fmt.Sprintf("%T", x)
		}
		got = append(got, e)
	}
	used := make([]bool, len(got))
	last := -1
	for _, d := range m.Decls {
		e := treeEntry{kind: d.Comp, name: d.Name}
		switch {
		case d.Comp == "anonymous" || d.Comp == "element" && d.Kind == "struct":
			e.kind = "complexType"
		case d.Kind == "union" || d.Kind == "list":
			e.kind += " " + d.Kind
		}
		if d.Kind == "enum" {
			for _, v := range d.Enums {
				e.members = append(e.members, "value "+v)
			}
		}
		for _, f := range d.Fields {
			e.members = append(e.members, f.Kind+" "+mark(f.Name, f.Plural, f.Kind == "attr" && f.Optional))
		}
		at := -1
		for i, g := range got {
			if !used[i] && g.kind == e.kind && g.name == e.name {
				at = i
				break
			}
		}
		if at < 0 {
			diffs = append(diffs, "missing: no "+e.kind+" "+e.name)
			continue
		}
		used[at] = true
		if d.Comp != "anonymous" {
			if at < last {
				diffs = append(diffs, "order: "+e.name+" stands too early")
			}
			last = at
		}
		// members of a kind, in order (the member types of a union are a map)
		for _, kind := range []string{"elem", "group", "attr", "agroup", "value", "member"} {
			a, b := ofKind(e.members, kind), ofKind(got[at].members, kind)
			same := strings.Join(a, "\n") == strings.Join(b, "\n")
			if kind == "member" {
				same = len(a) == len(b)
				for _, x := range a {
					found := false
					for _, y := range b {
						found = found || x == y
					}
					same = same && found
				}
			}
			if !same {
				diffs = append(diffs, fmt.Sprintf("members: %s %s has %q, expected %q", e.kind, e.name, b, a))
			}
		}
	}
	for i, g := range got {
		if !used[i] {
			diffs = append(diffs, "extra: "+g.kind+" "+g.name)
		}
	}
	return
}

func ofKind(l []string, kind string) (k []string) {
	for _, s := range l {
		if strings.HasPrefix(s, kind+" ") {
			k = append(k, s)
		}
	}
	return
}

// extractSet extracts from every file of a set: nothing is written, and the
// tree holds the declarations of that file alone.
func extractSet(c *eng.Ctx, f fileSet, ch chain) {
	ss, _ := f.build(ch)
	docs := map[string]string{}
	for i, s := range ss {
		docs[f.name(i)] = s.Text(f.style(i))
	}
	writeDocs(c, docs)
	out := filepath.Join(c.Dir, "fout")
	os.MkdirAll(out, 0755)
	wipe(out)
	before := listing(c.Dir)
	for i, s := range ss {
		m := spec.Build(&xsd.Schema{Comps: s.Comps})
		for _, lang := range conv.Langs {
			o := conv.Options(filepath.Join(c.Dir, "fin", f.name(i)), filepath.Join(c.Dir, "fin"), out, lang, "schema")
			o.Extract = true
			err, p := conv.Parse(o)
			c.Transition(1, 1)
			report := func(class, format string, a ...interface{}) {
				c.Report(lang+" "+class+" "+linkName[f.link], lang+" "+f.name(i)+": "+fmt.Sprintf(format, a...), "", docs)
			}
			if err != nil || p != "" {
				report("fails", "extraction: %v %s", err, p)
				continue
			}
			for _, d := range treeDiffs(m, o.ProtoTree) {
				report(strings.SplitN(d, ":", 2)[0], "%s in\n%s", d, dumpTree(o.ProtoTree))
			}
			c.Count("entries compared", int64(len(m.Decls)))
		}
	}
	if after := listing(c.Dir); after != before {
		c.Report("writes "+linkName[f.link], "extraction changed the files from\n"+before+"\nto\n"+after, "", docs)
	}
}

// runTreeDocs documents every node of a schema, and looks for the
// documentation of each component and member in the tree.
func runTreeDocs(c *eng.Ctx, s *xsd.Schema) {
	root := s.Tree()
	nodes, parents := xsd.Annotatable(root)
	// marks by kind and name of what they document
	may, must := map[string]map[string]bool{}, map[string][]string{}
	for i := len(nodes) - 1; i >= 0; i-- {
		x, p := nodes[i], parents[i]
		nodes[i].Annotate(xsd.DocNode(mark(i)))
		if p == nil {
			continue
		}
		var keys []string
		switch x.Name {
		case "element", "attribute", "group", "attributeGroup", "simpleType", "complexType":
			name := x.Attr("name")
			if name == "" {
				for _, a := range x.Attrs {
					if a.Name == "ref" && len(a.Refs) == 1 {
						name = a.Refs[0].Name
					}
				}
			}
			if name != "" {
				keys = append(keys, x.Name+" "+name)
				if x.Name == "element" || x.Name == "attribute" || p.Name == "schema" {
					must[x.Name+" "+name] = append(must[x.Name+" "+name], mark(i))
				}
			}
			if x.Name == "element" {
				// its anonymous type has its name
				keys = append(keys, "complexType "+name)
			}
			if owner := p.Attr("name"); owner != "" && (x.Name == "complexType" || x.Name == "simpleType") && x.Attr("name") == "" {
				keys = append(keys, x.Name+" "+owner, p.Name+" "+owner)
			}
		}
		for _, k := range keys {
			if may[k] == nil {
				may[k] = map[string]bool{}
			}
			may[k][mark(i)] = true
		}
	}
	doc := xsd.Plain.Write(root, s)
	for _, lang := range conv.Langs {
		report := func(class, format string, a ...interface{}) {
			c.Report(lang+" "+class, lang+": "+fmt.Sprintf(format, a...), "", map[string]string{"a.xsd": doc})
		}
		tree, err, p := box(c).Tree(doc, lang, true)
		c.Transition(1, 1)
		if err != nil || p != "" {
			report("fails", "extraction: %v %s", err, p)
			continue
		}
		found := map[string]bool{}
		look := func(kind, name, text string) {
			k := kind + " " + name[strings.Index(name, ":")+1:]
			for _, m := range markRe.FindAllString(text, -1) {
				found[m] = true
				if !may[k][m] {
					report("foreign documentation", "%s has the documentation of another component (%s) in\n%s", k, m, dumpTree(tree))
				}
			}
		}
		present := map[string]bool{}
		has := func(kind, name, text string) {
			present[kind+" "+name[strings.Index(name, ":")+1:]] = true
			look(kind, name, text)
		}
		attrs := func(l []xgen.Attribute) {
			for _, a := range l {
				has("attribute", a.Name, a.Doc)
			}
		}
		elems := func(l []xgen.Element) {
			for _, e := range l {
				has("element", e.Name, e.Doc)
			}
		}
		for _, x := range tree {
			switch x := x.(type) {
			case *xgen.SimpleType:
				has("simpleType", x.Name, x.Doc)
			case *xgen.ComplexType:
				has("complexType", x.Name, x.Doc)
				elems(x.Elements)
				attrs(x.Attributes)
			case *xgen.Element:
				has("element", x.Name, x.Doc)
			case *xgen.Attribute:
				has("attribute", x.Name, x.Doc)
			case *xgen.Group:
				has("group", x.Name, x.Doc)
				elems(x.Elements)
			case *xgen.AttributeGroup:
				has("attributeGroup", x.Name, x.Doc)
				attrs(x.Attributes)
			}
		}
		for k, l := range must {
			for _, m := range l {
				if present[k] && !found[m] {
					report("documentation lost", "no %s has the documentation %s in\n%s", k, m, dumpTree(tree))
				}
			}
		}
	}
}
