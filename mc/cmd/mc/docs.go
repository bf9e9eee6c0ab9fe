package main

import (
	"fmt"
	"regexp"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

var markRe = regexp.MustCompile(`QMARK[0-9]+Q`)

var headRe = regexp.MustCompile(`(?m)^.*Code generated.*$`)

func mark(i int) string { return fmt.Sprintf("QMARK%dQ", i) }

// documented is an annotated node: the declaration it belongs to.
type documented struct {
	decl     string // name of the declaration whose component the node is
	required bool   // it, or another required one, has to be in its comment
}

// ownerOf tells which declaration an annotatable node documents.
func ownerOf(x, parent *xsd.X) documented {
	if parent == nil {
		return documented{}
	}
	comp := false
	switch x.Name {
	case "simpleType", "complexType", "element", "attribute", "group", "attributeGroup":
		comp = true
	}
	if parent.Name == "schema" && comp {
		return documented{x.Attr("name"), true}
	}
	switch {
	case x.Name == "complexType" && parent.Name == "element":
		// an anonymous type is declared under the name of its element
		return documented{parent.Attr("name"), true}
	case x.Name == "element" && parent.Name != "schema":
		for _, k := range x.Kids {
			if k.Name == "complexType" {
				return documented{x.Attr("name"), false}
			}
		}
	case x.Name == "simpleType" && (parent.Name == "element" || parent.Name == "attribute"):
		// may be told with the global element or attribute it is the type of
		return documented{parent.Attr("name"), false}
	}
	return documented{}
}

// baseline caches the undocumented outputs of the current schema.
type baseline struct {
	doc   string
	files map[string]*read.File
	outs  map[string]string
	bad   map[string]string
}

var base = map[int]*baseline{}

func baseOf(c *eng.Ctx, s *xsd.Schema) *baseline {
	b := base[c.Worker]
	doc := s.Text(xsd.Plain)
	if b == nil || b.doc != doc {
		b = &baseline{doc: doc, files: map[string]*read.File{}, outs: map[string]string{}, bad: map[string]string{}}
		for _, lang := range conv.Langs {
			f, out, bad := readAll(c, doc, lang)
			b.files[lang], b.outs[lang], b.bad[lang] = f, out, bad
		}
		base[c.Worker] = b
	}
	return b
}

func sameTokens(a, b *read.File) string {
	for i := 0; i < len(a.Tokens) || i < len(b.Tokens); i++ {
		x, y := "(end)", "(end)"
		if i < len(a.Tokens) {
			x = a.Tokens[i]
		}
		if i < len(b.Tokens) {
			y = b.Tokens[i]
		}
		if x != y {
			lo := i - 3
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("token %d is %q instead of %q after %q", i, y, x, a.Tokens[lo:i])
		}
	}
	return ""
}

// checkDoc converts a documented tree and compares with the undocumented one.
// owners maps the index of a marker to its owner.
func checkDoc(c *eng.Ctx, b *baseline, doc string, owners map[int]documented, what string) {
	for _, lang := range conv.Langs {
		if b.bad[lang] != "" {
			c.Report(lang+" undocumented", b.bad[lang], "", map[string]string{"a.xsd": doc})
			continue
		}
		files := func(out string) map[string]string {
			return map[string]string{"a.xsd": doc, "documented" + read.Ext(lang): out, "undocumented" + read.Ext(lang): b.outs[lang]}
		}
		f, out, bad := readAll(c, doc, lang)
		if bad != "" {
			c.Report(lang+" documented unreadable "+what, lang+": "+bad, "", files(out))
			continue
		}
		if d := sameTokens(b.files[lang], f); d != "" {
			c.Report(lang+" code changed "+what, lang+": documentation changed the code: "+d, "", files(out))
			continue
		}
		if owners == nil {
			continue
		}
		has := map[int]bool{}
		bd := map[string]bool{}
		for _, d := range b.files[lang].Decls {
			if strings.TrimSpace(headRe.ReplaceAllString(d.Doc, "")) != "" {
				bd[d.Name] = true
			}
		}
		declared := map[string]bool{}
		for _, d := range f.Decls {
			declared[spec.Fold(d.Name)] = bd[d.Name]
			for _, m := range markRe.FindAllString(d.Doc, -1) {
				var i int
				fmt.Sscanf(m, "QMARK%dQ", &i)
				o := owners[i]
				if o.decl == "" || spec.Fold(o.decl) != spec.Fold(d.Name) {
					c.Report(lang+" foreign documentation "+what, fmt.Sprintf("%s: the comment of %s holds the documentation of another component (%s)", lang, d.Name, m), "", files(out))
				}
				has[i] = true
			}
		}
		kept, lost := map[string]bool{}, map[string]bool{}
		for i, o := range owners {
			if o.required && declared[spec.Fold(o.decl)] {
				// every documentation element counts, whichever node is kept
				k := fmt.Sprint(i/1000, " ", o.decl)
				kept[k] = kept[k] || has[i]
				lost[k] = true
			}
		}
		for n := range lost {
			if !kept[n] {
				c.Report(lang+" documentation lost "+what, fmt.Sprintf("%s: the comment of %s lacks its documentation", lang, strings.SplitN(n, " ", 2)[1]), "", files(out))
			}
		}
		c.Count("comments checked", int64(len(owners)))
	}
}

// docPlaces enumerates the ways of documenting a schema: every node at once,
// one node at a time, and annotations between the components.
func docPlaces(gen gen) func(tier string, emit func(eng.Case)) {
	return func(tier string, emit func(eng.Case)) {
		gen(tier, func(it space.Item) {
			nodes, _ := xsd.Annotatable(it.Schema().Tree())
			for k := -3; k < len(nodes); k++ {
				k := k
				emit(eng.Case{
					State: func() string { return it.Label + fmt.Sprintf(" documented node %d", k) },
					Run: func(c *eng.Ctx) {
						s := it.Schema()
						b := baseOf(c, s)
						root := s.Tree()
						nodes, parents := xsd.Annotatable(root)
						owners := map[int]documented{}
						what := "all"
						if k == -2 { // between the components
							what = "between"
							var kids []*xsd.X
							for i, x := range root.Kids {
								kids = append(kids, xsd.DocNode(mark(i)), x)
								owners[i] = documented{}
							}
							root.Kids = append(kids, xsd.DocNode(mark(len(root.Kids))))
							owners[len(kids)] = documented{}
						} else {
							for i := len(nodes) - 1; i >= 0; i-- {
								if k == -1 || k == i {
									owners[i] = ownerOf(nodes[i], parents[i])
									nodes[i].Annotate(xsd.DocNode(mark(i)))
								}
								if k == -3 {
									what = "several"
									o := ownerOf(nodes[i], parents[i])
									owners[i], owners[1000+i], owners[500+i] = o, o, documented{o.decl, false}
									t := func(s string) *xsd.X { return &xsd.X{Text: s} }
									nodes[i].Annotate(xsd.E("annotation", xsd.E("documentation", t(mark(i))), xsd.E("appinfo", t(mark(500+i))), xsd.E("documentation", t(mark(1000+i)))))
								}
							}
							if k >= 0 {
								what = nodes[k].Name
							}
						}
						checkDoc(c, b, xsd.Plain.Write(root, s), owners, what)
					}})
			}
		})
	}
}

// sink is a schema with every kind of component and member.
func sink() *xsd.Schema {
	e := func(name string, in *xsd.Complex) *xsd.Particle {
		return space.ElE(&xsd.Elem{Name: name, InC: in})
	}
	s := &xsd.Schema{}
	s.Comps = []xsd.Comp{
		{S: space.Re("Color", xsd.XS("string"), space.Enum("red", "green")...)},
		{S: &xsd.Simple{Name: "Sizes", Variety: "list", Base: xsd.XS("int")}},
		{S: &xsd.Simple{Name: "Either", Variety: "union", Members: []xsd.Ref{xsd.XS("int"), xsd.XS("boolean")}}},
		{C: &xsd.Complex{Name: "Box", Content: space.Seq(space.El("width", xsd.XS("int"), ""), e("Inner", &xsd.Complex{Content: space.Seq(space.El("deep", xsd.XS("int"), ""))}),
			&xsd.Particle{Kind: "group", Ref: xsd.T("Parts")}), Attrs: []*xsd.Attr{space.At("kind", xsd.T("Color"), ""), {Group: xsd.T("Common")}}}},
		{C: &xsd.Complex{Name: "Big", Deriv: "complexExt", Base: xsd.T("Box"), Content: space.Seq(space.El("height", xsd.XS("int"), ""))}},
		{C: &xsd.Complex{Name: "Price", Deriv: "simpleExt", Base: xsd.XS("decimal"), Attrs: []*xsd.Attr{space.At("unit", xsd.XS("string"), "required")}}},
		{G: &xsd.Group{Name: "Parts", Content: space.Seq(space.El("part", xsd.XS("string"), "unbounded"))}},
		{AG: &xsd.AttrGroup{Name: "Common", Attrs: []*xsd.Attr{space.At("id", xsd.XS("ID"), "")}}},
		{A: &xsd.Attr{Name: "lang", Type: xsd.XS("language")}},
		{E: &xsd.Elem{Name: "count", Type: xsd.XS("int")}},
		{E: &xsd.Elem{Name: "root", InC: &xsd.Complex{Content: space.Seq(space.El("box", xsd.T("Box"), "2"))}}},
	}
	return s
}

var nasty = []string{"a", " ", "\n", "\r", "\t", "*/", "//", "/*", "\\", "\"", "'", "`", "\u2028", "\u0085", "\\u002a", "\\u000a", "<", "&", "]]>", "$", "%s", "??/", "\ufeff", "#", "}", "{", ";", "type X int", "\u00e9", "\U0001f600", "--", "@", "(", "\u2029", "\\n"}

var structures = []struct{ name, raw string }{
	{"text", mark(90)},
	{"markup", "<b>bold <i>x</i></b>"},
	{"element", `<xs:element name="Leak" type="xs:int"/>`},
	{"complexType", `<xs:complexType name="Leak"><xs:sequence><xs:element name="leak" type="xs:int"/></xs:sequence><xs:attribute name="leak2"/></xs:complexType>`},
	{"simpleType", `<xs:simpleType name="Leak"><xs:restriction base="xs:int"><xs:enumeration value="leak"/></xs:restriction></xs:simpleType>`},
	{"annotation", `<xs:annotation><xs:documentation>` + mark(91) + `</xs:documentation></xs:annotation>`},
	{"documentation", `<xs:documentation>` + mark(91) + `</xs:documentation>`},
	{"appinfo", `<xs:appinfo>` + mark(91) + `</xs:appinfo>`},
	{"CDATA", "<![CDATA[<xs:element name='Leak'/> */ ]]>"},
	{"comment", "<!-- <xs:element name='Leak'/> -->"},
	{"PI", "<?leak leak?>"},
	{"other default", `<element xmlns="urn:other" name="Leak" type="string"/>`},
	{"rebound prefix", `<xs:element xmlns:xs="urn:other" name="Leak" type="xs:int"><xs:complexType/></xs:element>`},
	{"default rebound", `<element xmlns="http://www.w3.org/2001/XMLSchema" name="Leak"><simpleType><restriction base="int"/></simpleType></element>`},
	{"other schema", `<xs:schema targetNamespace="urn:leak"><xs:include schemaLocation="leak.xsd"/><xs:import namespace="urn:q" schemaLocation="leak.xsd"/></xs:schema>`},
	{"charData", `<xs:charData>` + mark(92) + `</xs:charData><xs:parse/><xs:element/>`},
}

func docCheck() *eng.Check {
	ann := func(kids ...*xsd.X) *xsd.X { return xsd.E("annotation", kids...) }
	// everywhere puts an annotation made by mk into every node of a schema.
	everywhere := func(s *xsd.Schema, only int, mk func(i int) *xsd.X) string {
		root := s.Tree()
		nodes, _ := xsd.Annotatable(root)
		for i := len(nodes) - 1; i >= 0; i-- {
			if only < 0 || only == i {
				nodes[i].Annotate(mk(i))
			}
		}
		return xsd.Plain.Write(root, s)
	}
	texts := func(tier string, emit func(eng.Case)) {
		var rec func(cur []string, max int)
		rec = func(cur []string, max int) {
			if len(cur) > 0 {
				t := strings.Join(cur, "")
				for _, w := range []string{t, "x" + t + "y"} {
					w := w
					emit(eng.Case{State: func() string { return fmt.Sprintf("documentation %q everywhere", w) }, Run: func(c *eng.Ctx) {
						checkDoc(c, baseOf(c, sink()), everywhere(sink(), -1, func(int) *xsd.X { return xsd.DocNode(w) }), nil, "text")
					}})
				}
			}
			if len(cur) == max {
				return
			}
			for _, t := range nasty {
				rec(append(cur[:len(cur):len(cur)], t), max)
			}
		}
		rec(nil, pick(tier, 2, 3))
	}
	chars := func(tier string, emit func(eng.Case)) {
		for r := rune(1); r <= 0xffff; r++ {
			if !(r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xd7ff || r >= 0xe000 && r <= 0xfffd) {
				continue
			}
			if !thorough(tier) && !(r < 0x300 || r >= 0x2000 && r < 0x2100 || r >= 0xfe00) {
				continue
			}
			r := r
			emit(eng.Case{State: func() string { return fmt.Sprintf("character %U in every documentation", r) }, Run: func(c *eng.Ctx) {
				checkDoc(c, baseOf(c, sink()), everywhere(sink(), -1, func(int) *xsd.X { return xsd.DocNode("a" + string(r) + "} int x;") }), nil, "char")
			}})
		}
	}
	content := func(tier string, emit func(eng.Case)) {
		n := len(structures)
		nodes, _ := xsd.Annotatable(sink().Tree())
		one := func(label string, only int, mk func() *xsd.X) {
			emit(eng.Case{State: func() string { return label + fmt.Sprintf(" in node %d", only) }, Run: func(c *eng.Ctx) {
				s := sink()
				doc := everywhere(s, only, func(i int) *xsd.X { return mk() })
				checkDoc(c, baseOf(c, s), doc, nil, "content")
			}})
		}
		for _, box := range []string{"documentation", "appinfo"} {
			for i := 0; i < n; i++ {
				for only := -1; only < len(nodes); only++ {
					i, box := i, box
					one(box+" with "+structures[i].name, only, func() *xsd.X { return ann(xsd.E(box, &xsd.X{Raw: structures[i].raw})) })
				}
				for j := 0; j < n; j++ {
					i, j, box := i, j, box
					one(box+" with "+structures[i].name+", "+structures[j].name, -1, func() *xsd.X {
						return ann(xsd.E(box, &xsd.X{Raw: structures[i].raw}, &xsd.X{Raw: structures[j].raw}))
					})
					for _, box2 := range []string{"documentation", "appinfo"} {
						box2 := box2
						one(box+" with "+structures[i].name+", "+box2+" with "+structures[j].name, -1, func() *xsd.X {
							return ann(xsd.E(box, &xsd.X{Raw: structures[i].raw}), xsd.E(box2, &xsd.X{Raw: structures[j].raw}))
						})
					}
				}
			}
		}
		one("empty annotation", -1, func() *xsd.X { return ann() })
		one("empty documentation", -1, func() *xsd.X { return ann(xsd.E("documentation")) })
	}
	// documentation of several parts: each of them is kept
	seps := []struct{ name, raw string }{
		{"space", " "}, {"newline", "\n"}, {"blank line", "\n \n"}, {"carriage return", "&#13;"}, {"markup", "<b>bold</b>"}, {"nested markup", "<p>a<b>bold</b>c</p>"},
		{"empty markup", "<br/>"}, {"comment", "<!-- x -->"}, {"PI", "<?x y?>"}, {"CDATA", "<![CDATA[x]]>"}, {"empty CDATA", "<![CDATA[]]>"}, {"reference", "&amp;&#65;"},
		{"another documentation", `</xs:documentation><xs:documentation xml:lang="de">`}, {"appinfo", `</xs:documentation><xs:appinfo>x</xs:appinfo><xs:documentation>`}, {"appinfo with markup", `</xs:documentation><xs:appinfo><xs:documentation>x</xs:documentation></xs:appinfo><xs:documentation source="x">`},
		{"an empty documentation", `</xs:documentation><xs:documentation/><xs:documentation>`}, {"a comment outside", `</xs:documentation><!-- x --><xs:documentation>`},
		{"an element of the schema", `<xs:element name="Leak"/>`}, {"an annotation", `<xs:annotation><xs:documentation>x</xs:documentation></xs:annotation>`},
	}
	parts := func(tier string, emit func(eng.Case)) {
		nodes, _ := xsd.Annotatable(sink().Tree())
		for a := range seps {
			for b := range seps {
				for only := -1; only < len(nodes); only++ {
					if only >= 0 && a != b && !thorough(tier) {
						break
					}
					a, b, only := a, b, only
					emit(eng.Case{State: func() string {
						return fmt.Sprintf("three parts with %s and %s between them in node %d", seps[a].name, seps[b].name, only)
					}, Run: func(c *eng.Ctx) {
						s := sink()
						root := s.Tree()
						nodes, parents := xsd.Annotatable(root)
						owners := map[int]documented{}
						for i := len(nodes) - 1; i >= 0; i-- {
							if only < 0 || only == i {
								for p := 0; p < 3; p++ {
									owners[1000*p+i] = ownerOf(nodes[i], parents[i])
								}
								nodes[i].Annotate(ann(xsd.E("documentation", &xsd.X{Raw: mark(i) + seps[a].raw + mark(1000+i) + seps[b].raw + mark(2000+i)})))
							}
						}
						checkDoc(c, baseOf(c, s), xsd.Plain.Write(root, s), owners, "parts "+seps[a].name)
					}})
				}
			}
		}
	}
	return &eng.Check{Prop: "C14", Level: "model_checking", Assumptions: assume, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			{Name: "texts", Bound: "all strings of up to 2 (thorough: 3) of " + fmt.Sprint(len(nasty)) + " critical tokens as documentation of every node of a schema with every kind of component", Gen: texts},
			{Name: "chars", Bound: "each character of the basic plane XML allows (quick: the blocks below U+0300, U+2000-U+20FF, U+FE00-U+FFFD) in every documentation", Gen: chars},
			{Name: "content", Bound: "all pairs of " + fmt.Sprint(len(structures)) + " annotation contents x containers; each content in each single node", Gen: content},
			{Name: "parts", Bound: "documentation of three parts with all pairs of " + fmt.Sprint(len(seps)) + " kinds of markup, comments, elements and containers between them, in every node of a schema with every kind of component; equal ones (thorough: all) in each single node", Gen: parts},
			{Name: "places", Bound: "all sequences of up to 2 component templates; documentation in every node at once, in each single node, and between the components", Gen: docPlaces(func(t string, emit func(space.Item)) { space.Sequences(pick(t, 1, 2), false, emit) })},
			{Name: "pairs", Bound: "all sequences of 2 component templates with documentation in every node at once and between", Gen: docAll(func(t string, emit func(space.Item)) { space.Sequences(2, false, emit) })},
			{Name: "nested", Bound: "all trees of up to 3 anonymous types x 8 member patterns; every node at once and each single node", Gen: docPlaces(func(t string, emit func(space.Item)) { space.Nested(pick(t, 2, 3), emit) })},
			{Name: "members", Bound: "all lists of up to 2 member kinds in every context; every node at once and each single node", Gen: docPlaces(func(t string, emit func(space.Item)) { space.Members(pick(t, 1, 2), emit) })},
		}
	}}
}

// docAll is docPlaces restricted to all nodes at once and between components.
func docAll(g gen) func(tier string, emit func(eng.Case)) {
	return func(tier string, emit func(eng.Case)) {
		docPlaces(g)(tier, func(k eng.Case) {
			s := k.State()
			if strings.HasSuffix(s, "node -1") || strings.HasSuffix(s, "node -3") || strings.HasSuffix(s, "node -2") {
				emit(k)
			}
		})
	}
}
