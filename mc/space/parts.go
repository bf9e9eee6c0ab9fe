package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// Parts enumerates simple types that consist of local simple types, up to two
// levels deep and with up to max member types, in every position.
func Parts(max int, emit func(Item)) {
	type part struct {
		name string
		make func() *Simple
	}
	atoms := []part{
		{"int", func() *Simple { return Re("", XS("int"), Facet{"maxInclusive", "3"}) }},
		{"boolean", func() *Simple { return Re("", XS("boolean")) }},
		{"red,blue", func() *Simple { return Re("", XS("string"), Enum("red", "blue")...) }},
		{"blue,none", func() *Simple { return Re("", XS("string"), Enum("blue", "none")...) }},
		{"7,8", func() *Simple { return Re("", XS("int"), Enum("7", "8")...) }},
		{"HS", func() *Simple { return Re("", T("HS")) }},
	}
	build := func(base []part, max int, deep bool) (l []part) {
		for _, p := range base {
			p := p
			l = append(l, part{"list(" + p.name + ")", func() *Simple { return &Simple{Variety: "list", InBase: p.make()} }})
			for i, f := range [][]Facet{nil, {{"pattern", "[a-z0-9]*"}}, Enum("blue"), Enum("7", "8")} {
				if i == 2 && !strings.Contains(p.name, "blue") || i == 3 && strings.ContainsAny(p.name, "bn") && !strings.Contains(p.name, "int") {
					continue // not among the values of the base
				}
				f := f
				l = append(l, part{fmt.Sprintf("restriction%d(%s)", i, p.name), func() *Simple { return &Simple{Variety: "restriction", InBase: p.make(), Facets: f} }})
			}
		}
		var rec func(cur []part)
		rec = func(cur []part) {
			if len(cur) > 0 {
				var names []string
				for _, p := range cur {
					names = append(names, p.name)
				}
				c := append([]part{}, cur...)
				n := strings.Join(names, " ")
				for _, refs := range [][]Ref{nil, {XS("date")}, {T("HS"), XS("boolean")}} {
					refs := refs
					l = append(l, part{fmt.Sprintf("union%d(%s)", len(refs), n), func() *Simple {
						u := &Simple{Variety: "union", Members: refs}
						for _, p := range c {
							u.InMem = append(u.InMem, p.make())
						}
						return u
					}})
				}
			}
			if len(cur) < max {
				for _, p := range base {
					rec(append(cur, p))
				}
			}
		}
		rec(nil)
		for _, refs := range [][]Ref{{XS("date"), XS("boolean")}, {T("HS"), XS("boolean"), XS("int")}, {XS("int"), T("HS")}, {XS("unsignedByte")}} {
			refs := refs
			l = append(l, part{fmt.Sprint("union of ", refs), func() *Simple { return &Simple{Variety: "union", Members: refs} }})
		}
		for _, r := range []Ref{XS("int"), T("HS")} {
			r := r
			l = append(l, part{fmt.Sprint("list of ", r), func() *Simple { return &Simple{Variety: "list", Base: r} }})
		}
		return
	}
	first := build(atoms, max, false)
	all := append(append([]part{}, first...), build(append(atoms[:4:4], build(atoms[:3:3], 1, false)...), 1, true)...)
	second := build(build(atoms[1:4:4], 2, false), 1, true)
	all = append(all, second...)
	// no lists of lists, nor of unions with lists
	for _, p := range all {
		if listInList(p.make(), false) {
			continue
		}
		for pos := 0; pos < 6; pos++ {
			p, pos := p, pos
			emit(item(fmt.Sprintf("%s position %d", p.name, pos), []string{"HS"}, pos%2 == 0, func() []Comp {
				x := p.make()
				after := El("after", XS("boolean"), "")
				switch pos {
				case 0:
					x.Name = "X"
					return []Comp{{S: x}}
				case 1:
					return []Comp{{E: &Elem{Name: "x", InS: x}}, {E: &Elem{Name: "y", Type: XS("date")}}}
				case 2:
					return []Comp{{A: &Attr{Name: "x", Inline: x}}, {A: At("y", XS("date"), "")}}
				case 3:
					return []Comp{{C: &Complex{Name: "C", Content: Seq(El("before", XS("boolean"), ""), ElE(&Elem{Name: "x", Max: "2", InS: x}), after), Attrs: []*Attr{At("p", XS("date"), ""), {Name: "q", Inline: p.make()}, At("r", XS("date"), "")}}}}
				case 4:
					return []Comp{{G: &Group{Name: "G", Content: Seq(El("before", XS("boolean"), ""), ElE(&Elem{Name: "x", InS: x}), after)}}, {AG: &AttrGroup{Name: "K", Attrs: []*Attr{At("p", XS("date"), ""), {Name: "q", Inline: p.make()}, At("r", XS("date"), "")}}}}
				default:
					x.Name = "X"
					return []Comp{{S: x}, {S: Re("Y", T("X"))}, {C: &Complex{Name: "C", Content: Seq(El("a", T("X"), ""), El("b", T("Y"), "2")), Attrs: []*Attr{At("c", T("X"), "")}}}}
				}
			}))
		}
	}
}

func listInList(s *Simple, in bool) bool {
	if s == nil {
		return false
	}
	if s.Variety == "list" {
		if in {
			return true
		}
		in = true
	}
	if listInList(s.InBase, in) {
		return true
	}
	for _, m := range s.InMem {
		if listInList(m, in) {
			return true
		}
	}
	return false
}
