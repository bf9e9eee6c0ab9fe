package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf16"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/space"
	"verif/mc/xsd"
)

// variation changes how a document is written down, not what it says.
type variation struct {
	name  string
	style func(*xsd.Style)
	tree  func(root *xsd.X)
	bytes func(doc string) string
	xs    bool // changes the prefix of the XML Schema namespace
}

func utf16Doc(doc string, big bool) string {
	doc = strings.Replace(doc, `encoding="UTF-8"`, `encoding="UTF-16"`, 1)
	var b strings.Builder
	for _, u := range append([]uint16{0xfeff}, utf16.Encode([]rune(doc))...) {
		if big {
			b.WriteByte(byte(u >> 8))
			b.WriteByte(byte(u))
		} else {
			b.WriteByte(byte(u))
			b.WriteByte(byte(u >> 8))
		}
	}
	return b.String()
}

func latin1(doc, name string) string {
	doc = strings.Replace(doc, `encoding="UTF-8"`, `encoding="`+name+`"`, 1)
	var b strings.Builder
	for _, r := range doc {
		if r > 255 {
			fmt.Fprintf(&b, "&#%d;", r)
		} else {
			b.WriteByte(byte(r))
		}
	}
	return b.String()
}

func each(root *xsd.X, f func(x, parent *xsd.X)) {
	var rec func(x, p *xsd.X)
	rec = func(x, p *xsd.X) {
		f(x, p)
		for _, k := range x.Kids {
			rec(k, x)
		}
	}
	rec(root, nil)
}

const foreignMarkup = `<f1:element xmlns:f1="urn:foreign" name="Foreign1" type="xs:int"><f1:complexType name="Foreign2"><f1:sequence><f1:element name="x" maxOccurs="2"/></f1:sequence></f1:complexType></f1:element><f2:simpleType xmlns:f2="urn:foreign2" name="Foreign3"><f2:restriction base="xs:int"/></f2:simpleType><f3:documentation xmlns:f3="urn:foreign3">foreign</f3:documentation>`

func variations() []variation {
	st := func(name string, f func(*xsd.Style)) variation { return variation{name: name, style: f} }
	xs := func(p string) variation {
		return variation{name: fmt.Sprintf("XML Schema prefix %q", p), style: func(s *xsd.Style) { s.XS = p }, xs: true}
	}
	decl := func(name, d string) variation { return st(name, func(s *xsd.Style) { s.Decl = d }) }
	by := func(name string, f func(string) string) variation { return variation{name: name, bytes: f} }
	tr := func(name string, f func(*xsd.X)) variation { return variation{name: name, tree: f} }
	return []variation{
		st("apostrophes", func(s *xsd.Style) { s.Quote = "'" }),
		st("one line", func(s *xsd.Style) { s.Pretty = false }),
		st("comments", func(s *xsd.Style) { s.Comment = true }),
		st("processing instructions", func(s *xsd.Style) { s.PI = true }),
		st("end tags", func(s *xsd.Style) { s.Long = true }),
		st("attributes reversed", func(s *xsd.Style) { s.RevAttr = true }),
		st("character references", func(s *xsd.Style) { s.CharRef = true }),
		st("CDATA", func(s *xsd.Style) { s.CDATA = true }),
		st("space in tags", func(s *xsd.Style) { s.SpaceAttr = true }),
		st("foreign attributes", func(s *xsd.Style) { s.Foreign = true }),
		st("foreign elements in appinfo", func(s *xsd.Style) { s.ForeignEl = true }),
		st("late xmlns", func(s *xsd.Style) { s.LateNS = true }),
		st("CRLF", func(s *xsd.Style) { s.CRLF = true }),
		st("blanks in attribute values", func(s *xsd.Style) { s.Pad = " " }),
		st("line ends in attribute values", func(s *xsd.Style) { s.Pad = "\n\t " }),
		st("tail", func(s *xsd.Style) { s.Tail = "<!-- end -->\n<?pi end?>\n\n" }),
		decl("no declaration", ""),
		decl("declaration with apostrophes", "<?xml version='1.0' encoding='utf-8' standalone='yes'?>"),
		decl("no encoding", `<?xml version="1.0"?>`+"\n"),
		decl("US-ASCII", `<?xml version="1.0" encoding="US-ASCII"?>`+"\n"),
		decl("prolog", `<?xml version="1.0" encoding="UTF-8"?>`+"\n<!-- <xs:schema> -->\n<?pi?>\n<!DOCTYPE xs:schema>\n"),
		by("byte order mark", func(d string) string { return "\ufeff" + d }),
		by("UTF-16BE", func(d string) string { return utf16Doc(d, true) }),
		by("UTF-16LE", func(d string) string { return utf16Doc(d, false) }),
		by("ISO-8859-1", func(d string) string { return latin1(d, "ISO-8859-1") }),
		by("windows-1252", func(d string) string { return latin1(d, "windows-1252") }),
		xs(""), xs("xsd"), xs("s"), xs("element"), xs("x-s.d_1"), xs("XS"), xs("xsD"), xs("_"), xs("\u00e9"), xs("int"), xs("t1"), xs("XMLSchema"),
		tr("foreign elements everywhere", func(root *xsd.X) {
			each(root, func(x, p *xsd.X) {
				if x.NS != "xs" {
					return
				}
				var kids []*xsd.X
				for i, k := range x.Kids {
					if k.Name == "" { // text stays as it is
						kids = append(kids, k)
						continue
					}
					if !(i == 0 && k.Name == "annotation") {
						kids = append(kids, &xsd.X{Raw: foreignMarkup})
					}
					kids = append(kids, k)
				}
				if x.Name != "documentation" {
					kids = append(kids, &xsd.X{Raw: foreignMarkup})
				}
				x.Kids = kids
			})
		}),
		tr("own foreign attributes", func(root *xsd.X) {
			each(root, func(x, p *xsd.X) { x.Foreign = x.Name != "" })
		}),
		tr("namespaces bound on every element", func(root *xsd.X) {
			n := 0
			each(root, func(x, p *xsd.X) {
				if x.Name != "" && p != nil {
					n++
					x.Bind = &xsd.Bind{XS: fmt.Sprintf("n%d", n), KeepT: true, Redeclare: true}
				}
			})
		}),
		tr("default namespace on the children", func(root *xsd.X) {
			each(root, func(x, p *xsd.X) {
				if p == root && x.Name != "" {
					x.Bind = &xsd.Bind{XS: "", KeepT: true}
				}
			})
		}),
		tr("prefixes bound on the root's elements", func(root *xsd.X) {
			each(root, func(x, p *xsd.X) {
				if p == root && x.Name != "" {
					x.Bind = &xsd.Bind{XS: "y", KeepT: true}
				}
			})
		}),
	}
}

// apply writes a schema down with variations.
func apply(s *xsd.Schema, vs ...variation) string {
	st := xsd.Plain
	root := s.Tree()
	for _, v := range vs {
		if v.tree != nil {
			v.tree(root)
		}
		if v.style != nil {
			v.style(&st)
		}
	}
	doc := st.Write(root, s)
	for _, v := range vs {
		if v.bytes != nil {
			doc = v.bytes(doc)
		}
	}
	return doc
}

// sameBytes converts a document and compares with the plain one.
func sameBytes(c *eng.Ctx, b *baseline, doc, what string, fix func(string) string) {
	for _, lang := range conv.Langs {
		if b.bad[lang] != "" && b.outs[lang] == "" {
			continue
		}
		files := map[string]string{"a.xsd": doc, "plain" + read.Ext(lang): b.outs[lang]}
		out, err, p := box(c).Conv(doc, lang)
		c.Transition(1, 1)
		switch {
		case p != "":
			c.Report(lang+" panic "+what, lang+": panic: "+p, "", files)
		case err != nil:
			c.Report(lang+" error "+what, lang+": "+err.Error(), "", files)
		default:
			want := b.outs[lang]
			if fix != nil {
				want, out = fix(want), fix(out)
			}
			if out != want {
				files["varied"+read.Ext(lang)] = out
				c.Report(lang+" differs "+what, lang+": the output differs: "+firstDiff(want, out), "", files)
			}
		}
	}
}

func firstDiff(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "(end)", "(end)"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q instead of %q", i+1, y, x)
		}
	}
	return "no difference"
}

// richSink is the sink with documentation, non-ASCII characters and every
// facet, so that every variation has something to act on.
func richSink() *xsd.Schema {
	s := sink()
	s.Doc = "schema \u00e9 text"
	for i, c := range s.Comps {
		d := fmt.Sprintf("component %d \u00fc <b> & \"q\"", i)
		switch {
		case c.S != nil:
			c.S.Doc = d
		case c.C != nil:
			c.C.Doc = d
		case c.E != nil:
			c.E.Doc = d
		case c.A != nil:
			c.A.Doc = d
		case c.G != nil:
			c.G.Doc = d
		case c.AG != nil:
			c.AG.Doc = d
		}
	}
	s.Comps[0].S.Facets = append(s.Comps[0].S.Facets, space.Enum("bl\u00e4u", "a b", "x")...)
	s.Comps[3].C.Content.Kids[0].E.Doc = "local \u00df"
	s.Comps = append(s.Comps, xsd.Comp{C: &xsd.Complex{Name: "Full", Mixed: true, Content: space.P("choice", "unbounded", space.El("b1", xsd.T("Either"), ""), space.El("b2", xsd.T("Sizes"), "3")),
		Attrs: []*xsd.Attr{{Name: "a1", Type: xsd.XS("int"), Use: "required", Extra: [][2]string{{"id", "i1"}}}, {Name: "a2", Type: xsd.T("Color"), Use: "optional", Extra: [][2]string{{"default", "red"}}}}}})
	return s
}

func styleCheck() *eng.Check {
	vs := variations()
	conflict := func(a, b variation) bool {
		// each would undo, or be misread by, the other
		xsFixed := func(v variation) bool {
			return v.name == "foreign elements everywhere" || v.name == "foreign attributes" || v.name == "prolog"
		}
		nonUTF8 := func(v variation) bool { return v.bytes != nil }
		reDecl := func(v variation) bool {
			return v.name == "no declaration" || strings.HasPrefix(v.name, "declaration") || v.name == "no encoding" || v.name == "US-ASCII"
		}
		if v := a.name + b.name; strings.Count(v, "attribute values") == 2 {
			return true
		}
		return a.name == b.name || a.xs && b.xs || nonUTF8(a) && nonUTF8(b) || reDecl(a) && (reDecl(b) || b.name == "prolog") || a.name == "prolog" && reDecl(b) ||
			a.tree != nil && b.tree != nil || (a.xs || a.tree != nil) && xsFixed(b) && a.name != b.name && !(a.name == "own foreign attributes") || (b.xs || b.tree != nil) && xsFixed(a) && !(b.name == "own foreign attributes") ||
			nonUTF8(a) && reDecl(b) && a.name != "byte order mark" || nonUTF8(b) && reDecl(a) && b.name != "byte order mark"
	}
	single := func(g gen) func(tier string, emit func(eng.Case)) {
		return func(tier string, emit func(eng.Case)) {
			g(tier, func(it space.Item) {
				for _, v := range vs {
					v := v
					emit(eng.Case{State: func() string { return it.Label + " written with " + v.name }, Run: func(c *eng.Ctx) {
						doc := apply(it.Schema(), v)
						if v.name == "US-ASCII" {
							doc = latin1(doc, "US-ASCII")
						}
						sameBytes(c, baseOf(c, it.Schema()), doc, v.name, nil)
					}})
				}
			})
		}
	}
	pairs := func(tier string, emit func(eng.Case)) {
		combos := func(set []variation) {
			var names []string
			for _, v := range set {
				names = append(names, v.name)
			}
			n := strings.Join(names, " + ")
			set = append([]variation{}, set...)
			emit(eng.Case{State: func() string { return "sink written with " + n }, Run: func(c *eng.Ctx) {
				sameBytes(c, baseOf(c, richSink()), apply(richSink(), set...), n, nil)
			}})
		}
		for i := range vs {
			if vs[i].name == "US-ASCII" {
				continue // not ASCII
			}
			combos(vs[i : i+1])
			for j := i + 1; j < len(vs); j++ {
				if vs[j].name == "US-ASCII" || conflict(vs[i], vs[j]) {
					continue
				}
				combos([]variation{vs[i], vs[j]})
				if !thorough(tier) {
					continue
				}
				for k := j + 1; k < len(vs); k++ {
					if vs[k].name == "US-ASCII" || conflict(vs[i], vs[k]) || conflict(vs[j], vs[k]) {
						continue
					}
					combos([]variation{vs[i], vs[j], vs[k]})
				}
			}
		}
	}
	// local variations at each single element of the sink
	local := func(tier string, emit func(eng.Case)) {
		var count int
		each(richSink().Tree(), func(x, p *xsd.X) { count++ })
		at := func(n int, what string, f func(root, x, parent *xsd.X) bool) {
			emit(eng.Case{State: func() string { return fmt.Sprintf("%s at element %d", what, n) }, Run: func(c *eng.Ctx) {
				root := richSink().Tree()
				i := 0
				ok := false
				var tx, tp *xsd.X
				each(root, func(x, p *xsd.X) {
					if i == n {
						tx, tp = x, p
					}
					i++
				})
				if tx.Name != "" {
					ok = f(root, tx, tp)
				}
				if !ok {
					return
				}
				sameBytes(c, baseOf(c, richSink()), xsd.Plain.Write(root, richSink()), what, nil)
			}})
		}
		for n := 0; n < count; n++ {
			for _, b := range []xsd.Bind{{XS: "y", KeepT: true}, {XS: "", KeepT: true}, {KeepXS: true, KeepT: true, Redeclare: true}, {XS: "xs", KeepT: true}} {
				b := b
				at(n, fmt.Sprintf("bound anew as %q", b.XS), func(root, x, p *xsd.X) bool {
					if p == nil {
						return false
					}
					x.Bind = &b
					return true
				})
				at(n, fmt.Sprintf("bound anew as %q for the children", b.XS), func(root, x, p *xsd.X) bool {
					if p == nil {
						return false
					}
					any := false
					for _, k := range x.Kids {
						if k.Name != "" {
							any, k.Bind = true, &b
						}
					}
					if !any {
						return false
					}
					return true
				})
			}
			at(n, "foreign attributes", func(root, x, p *xsd.X) bool { x.Foreign = true; return p != nil })
			for k := 0; k < 6; k++ {
				k := k
				at(n, "foreign element", func(root, x, p *xsd.X) bool {
					if k > len(x.Kids) || x.NS != "xs" || x.Name == "documentation" {
						return false
					}
					x.Kids = append(x.Kids[:k:k], append([]*xsd.X{{Raw: foreignMarkup}}, x.Kids[k:]...)...)
					return true
				})
				at(n, "comment", func(root, x, p *xsd.X) bool {
					if k > len(x.Kids) {
						return false
					}
					x.Kids = append(x.Kids[:k:k], append([]*xsd.X{{Raw: "<!-- <xs:element name=\"c\"/> --><?pi?>"}}, x.Kids[k:]...)...)
					return true
				})
			}
			for k := 1; k < 120; k++ {
				k := k
				at(n, "attributes permuted", func(root, x, p *xsd.X) bool {
					ps := permute(len(x.Attrs))
					if k >= len(ps) {
						return false
					}
					var l []xsd.XAttr
					for _, i := range ps[k] {
						l = append(l, x.Attrs[i])
					}
					x.Attrs = l
					return true
				})
			}
		}
	}
	// the prefix of the target namespace; identifiers of members made from a
	// reference keep the prefix written in it
	refRe := regexp.MustCompile(` ref="`)
	fold := func(s string) string {
		return strings.NewReplacer("zqb", "zqa", "Zqb", "Zqa", "ZQB", "ZQA").Replace(s)
	}
	target := func(g gen) func(tier string, emit func(eng.Case)) {
		return func(tier string, emit func(eng.Case)) {
			g(tier, func(it space.Item) {
				emit(eng.Case{State: func() string { return it.Label + " with other prefixes of the target namespace" }, Run: func(c *eng.Ctx) {
					s := it.Schema()
					doc := func(p string) string {
						st := xsd.Plain
						st.T = p
						return s.Text(st)
					}
					b := &baseline{outs: map[string]string{}, bad: map[string]string{}}
					first := doc("zqa")
					for _, lang := range conv.Langs {
						out, err, p := box(c).Conv(first, lang)
						c.Transition(1, 1)
						if err != nil || p != "" {
							c.Report(lang+" error target prefix", fmt.Sprint(lang, ": ", err, p), "", map[string]string{"a.xsd": first})
						}
						b.outs[lang] = out
					}
					sameBytes(c, b, doc("zqb"), "target prefix", fold)
					if !refRe.MatchString(first) {
						for _, p := range []string{"", "tns", "a.b-c", "TNS", "tNs", "_1", "\u00e9", "string", "xsd"} {
							sameBytes(c, b, doc(p), "target prefix", nil)
						}
					}
				}})
			})
		}
	}
	return &eng.Check{Prop: "C15", Level: "model_checking", Assumptions: assume, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			{Name: "pairs", Bound: fmt.Sprintf("all combinations of up to 2 (thorough: 3) of %d variations on a schema with every kind of component", len(vs)), Gen: pairs},
			{Name: "local", Bound: "namespace bindings, foreign attributes and elements, comments and all attribute permutations at each single element of that schema", Gen: local},
			{Name: "templates", Bound: "each variation on all sequences of up to 1 (thorough: 2) component templates", Gen: single(func(t string, emit func(space.Item)) { space.Sequences(pick(t, 1, 2), false, emit) })},
			{Name: "members", Bound: "each variation on all lists of 1 (thorough: up to 2) member kinds in every context", Gen: single(func(t string, emit func(space.Item)) { space.Members(pick(t, 1, 2), emit) })},
			{Name: "facets", Bound: "each variation on all facet sequences of up to 1 x bases x positions", Gen: single(func(t string, emit func(space.Item)) { space.Facets(1, emit) })},
			{Name: "varieties", Bound: "each variation on all unions of up to 2 members in every order, lists, x uses", Gen: single(func(t string, emit func(space.Item)) { space.Varieties(pick(t, 1, 2), emit) })},
			{Name: "target", Bound: "prefixes of the target namespace on all sequences of up to 2 component templates", Gen: target(func(t string, emit func(space.Item)) { space.Sequences(2, false, emit) })},
			{Name: "files", Bound: fmt.Sprintf("all graphs over two files x connections x referring positions x targets over 0 and 1 aliases, each in %d lexical forms", len(forms)), Gen: setsOf{n: 2, users: pickUsers("local element", "attribute", "restriction", "complex extension", "member"), vias: allVias, ends: allEnds, maxAlias: 1, eval: sameForms}.gen},
			{Name: "target refs", Bound: "prefixes of the target namespace on all referring positions x targets x intermediate types", Gen: target(func(t string, emit func(space.Item)) { space.References(pick(t, 1, 2), emit) })},
		}
	}}
}

func permute(n int) (l [][]int) {
	if n > 5 {
		n = 5
	}
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			l = append(l, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used&(1<<uint(i)) == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return
}
