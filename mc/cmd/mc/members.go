package main

import (
	"fmt"
	"strings"
	"unicode"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

// member is a member of one owner.
type member struct{ kind, name string }

// memberCase is an owner with members of similar names.
type memberCase struct {
	owner string
	ms    []member
	same  bool // all members are of one type
}

func (k memberCase) String() string {
	var l []string
	for _, m := range k.ms {
		l = append(l, m.kind+" "+m.name)
	}
	return fmt.Sprintf("%s: %s, one type=%v", k.owner, strings.Join(l, ", "), k.same)
}

func (k memberCase) typ(i int) string {
	if k.same {
		i = 0
	}
	return markTypes[i%len(markTypes)]
}

// schema declares the owner, ZzCtx, and what it refers to; nil if the owner
// cannot have such members.
func (k memberCase) schema() *xsd.Schema {
	s := &xsd.Schema{}
	p := space.Seq()
	var as []*xsd.Attr
	content := false
	for i, m := range k.ms {
		switch m.kind {
		case "elem":
			content = true
			p.Kids = append(p.Kids, space.El(m.name, xsd.XS(k.typ(i)), ""))
		case "group":
			content = true
			p.Kids = append(p.Kids, &xsd.Particle{Kind: "group", Ref: xsd.T(m.name)})
			s.Comps = append(s.Comps, xsd.Comp{G: &xsd.Group{Name: m.name, Content: space.Seq(space.El(fmt.Sprint("zzg", i), xsd.XS("date"), ""))}})
		case "attr":
			as = append(as, space.At(m.name, xsd.XS(k.typ(i)), "required"))
		case "attributeGroup":
			as = append(as, &xsd.Attr{Group: xsd.T(m.name)})
			s.Comps = append(s.Comps, xsd.Comp{AG: &xsd.AttrGroup{Name: m.name, Attrs: []*xsd.Attr{space.At(fmt.Sprint("zzk", i), xsd.XS("date"), "")}}})
		}
	}
	t := &xsd.Complex{Content: p, Attrs: as}
	var c xsd.Comp
	switch k.owner {
	case "type":
		t.Name = "ZzCtx"
		c.C = t
	case "element":
		c.E = &xsd.Elem{Name: "ZzCtx", InC: t}
	case "nested":
		c.C = &xsd.Complex{Name: "ZzOut", Content: space.Seq(space.El("zzb", xsd.XS("date"), ""), space.ElE(&xsd.Elem{Name: "ZzCtx", InC: t}), space.El("zza", xsd.XS("date"), ""))}
	case "extension":
		t.Name, t.Deriv, t.Base = "ZzCtx", "complexExt", xsd.T("base-of")
		c.C = t
		s.Comps = append(s.Comps, xsd.Comp{C: &xsd.Complex{Name: "base-of", Content: space.Seq(space.El("zzh", xsd.XS("date"), ""))}})
	case "text":
		if content {
			return nil
		}
		t.Name, t.Deriv, t.Base, t.Content = "ZzCtx", "simpleExt", xsd.XS("date"), nil
		c.C = t
	case "group":
		if as != nil {
			return nil
		}
		c.G = &xsd.Group{Name: "ZzCtx", Content: p}
	case "attributeGroup":
		if content {
			return nil
		}
		c.AG = &xsd.AttrGroup{Name: "ZzCtx", Attrs: as}
	}
	if len(p.Kids) == 0 {
		t.Content = nil
	}
	s.Comps = append(s.Comps, c)
	return s
}

// run converts the schema and checks the members of the owner.
func (k memberCase) run(c *eng.Ctx, prop string) {
	s := k.schema()
	if s == nil {
		return
	}
	doc := s.Text(xsd.Plain)
	for _, lang := range conv.Langs {
		f, out, bad := readAll(c, doc, lang)
		report := func(class, msg string) {
			c.Report(lang+" "+class+" "+k.owner, lang+": "+msg, "", map[string]string{"a.xsd": doc, "a.xsd" + read.Ext(lang): out})
		}
		if bad != "" {
			report("source", bad)
			continue
		}
		if prop == "C07" {
			for _, d := range spec.Formedness(f, nil) {
				report(d.Class, d.String())
			}
			if lang == "Go" {
				if e := read.CheckGo(out); e != "" {
					report("typecheck", e)
				}
			}
			continue
		}
		var d *read.Decl
		for i := range f.Decls {
			if spec.Fold(f.Decls[i].Name) == "zzctx" && len(f.Decls[i].Fields)+len(f.Decls[i].Extends) > 0 && f.Decls[i].Kind == "struct" {
				d = &f.Decls[i]
			}
		}
		if d == nil {
			report("decl", "no declaration of the owner")
			continue
		}
		var fields []read.Field
		for _, g := range d.Fields {
			base := k.owner == "extension" && g.Embed
			text := k.owner == "text" && (g.Text || spec.Fold(g.Name) == "value" && !g.Attr)
			if text && lang == "TypeScript" {
				want, _ := spec.Lang("date", lang)
				text = g.Type.Name == want.Name && g.Name == "Value"
			}
			if !base && !text {
				fields = append(fields, g)
			}
		}
		left := append([]read.Field{}, fields...)
		for i, m := range k.ms {
			want, _ := spec.Lang(k.typ(i), lang)
			found := -1
			for j, g := range left {
				ok := stem(g.Name, m.name) == stem(m.name, m.name)
				switch m.kind {
				case "attr", "elem":
					ok = ok && g.Type.Name == want.Name
				default: // the prefix may stay
					ok = (ok || stem(g.Name, "t"+m.name) == stem("t"+m.name, "t"+m.name)) && stem(g.Type.Name, m.name) == stem(m.name, m.name)
				}
				if ok && (m.kind == "attr" || m.kind == "elem") && g.HasXML {
					ok = g.XML == m.name
					if lang != "Rust" {
						ok = ok && g.Attr == (m.kind == "attr")
					}
				}
				if ok {
					found = j
					break
				}
			}
			c.Count("members compared", 1)
			if found < 0 {
				report("member-missing", fmt.Sprintf("no member for %s %s among %s", m.kind, m.name, fieldList(fields)))
				continue
			}
			left = append(left[:found:found], left[found+1:]...)
		}
		if len(fields) > len(k.ms) {
			report("member-extra", fmt.Sprintf("%d members for %d: %s", len(fields), len(k.ms), fieldList(fields)))
		}
	}
}

// stem of an identifier made of a name, without what may be added to it.
func stem(ident, name string) string {
	g := spec.Fold(ident)
	if !unicode.IsUpper(unicode.ToUpper([]rune(name)[0])) && ident != name {
		g = strings.TrimPrefix(g, "x")
	}
	for {
		t := strings.TrimSuffix(strings.TrimRight(g, "0123456789"), "attr")
		if t == g {
			return g
		}
		g = t
	}
}

func fieldList(fs []read.Field) string {
	var l []string
	for _, g := range fs {
		s := g.Name + " " + g.Type.String()
		if g.HasXML {
			s += " " + g.XML
		}
		l = append(l, s)
	}
	return strings.Join(l, "; ")
}

// longNames differ in case, separators and numbers.
var longNames = strings.Fields("orderLine OrderLine orderline ORDERLINE order-line order_line order.line Order-Line Order_Line Order.Line ORDER_LINE order-Line order--line order.-line order-line- order_line_ orderLine1 orderLine2 orderLine11 orderLine-1 orderLine_1 orderLine.1 OrderLine-2 OrderLine_2 OrderLine2 orderLineAttr orderLineType orderLines OrderLi OrderLineList")

// memberNames enumerates owners with two or three members of similar names.
func memberNames(prop string) eng.Space {
	return eng.Space{Name: "member names", Bound: "all ordered pairs of names of up to 2 (thorough: 3) characters, of 30 longer names that differ in case, separators and numbers, and of names of generated members, x {element, attribute, group, attribute group} x 7 owners x {one type, distinct types}; all triples of 6 colliding names", Gen: func(tier string, emit func(eng.Case)) {
		owners := strings.Fields("type element nested extension text group attributeGroup")
		add := func(k memberCase) {
			if k.schema() != nil {
				emit(eng.Case{State: func() string { return k.String() }, Run: func(c *eng.Ctx) { k.run(c, prop) }})
			}
		}
		kinds := [][2]string{{"elem", "elem"}, {"attr", "attr"}, {"attr", "elem"}, {"group", "elem"}, {"group", "group"}, {"attributeGroup", "attr"}, {"attributeGroup", "attributeGroup"}, {"attributeGroup", "elem"}, {"group", "attr"}}
		pairs := func(ns []string, kinds [][2]string, same bool) {
			for a, n := range ns {
				for b, m := range ns {
					for _, kd := range kinds {
						if a == b && kd[0] == kd[1] {
							continue
						}
						if kd == [2]string{"attributeGroup", "group"} || kd == [2]string{"group", "attributeGroup"} {
							continue
						}
						for _, o := range owners {
							if o == "attributeGroup" && kd[1] == "elem" {
								continue
							}
							add(memberCase{o, []member{{kd[0], n}, {kd[1], m}}, false})
							if same && (kd[0] == "elem" || kd[0] == "attr") {
								add(memberCase{o, []member{{kd[0], n}, {kd[1], m}}, true})
							}
						}
					}
				}
			}
		}
		pairs(space.Names(2), kinds, true)
		pairs(longNames, kinds[:3], false)
		pairs(strings.Fields("value Value XmlValue XMLName xmlname Xmlname base-of BaseOf baseof base_of type Type class String string attr Attr"), kinds, true)
		if thorough(tier) {
			pairs(space.Names(3), kinds[:3], false)
		}
		ns := []string{"a", "A", "a2", "A2", "a-2", "aAttr"}
		for _, x := range ns {
			for _, y := range ns {
				for _, z := range ns {
					if x == y || y == z || x == z {
						continue
					}
					for _, kd := range []string{"elem elem elem", "attr attr attr", "attr elem elem", "attr attr elem", "group elem elem", "attr group elem"} {
						w := strings.Fields(kd)
						for _, o := range owners {
							for _, same := range []bool{false, true} {
								add(memberCase{o, []member{{w[0], x}, {w[1], y}, {w[2], z}}, same})
							}
						}
					}
				}
			}
		}
	}}
}
