package space

import (
	"fmt"

	. "verif/mc/xsd"
)

// sizes of the scaled families: every size up to a limit, and a few beyond.
func sizes(max int, more ...int) (l []int) {
	for n := 1; n <= max; n++ {
		l = append(l, n)
	}
	return append(l, more...)
}

// Scaled enumerates schemas of one dimension that grows while the others are
// fixed: how many components there are of each kind, how many members of each
// kind a type has, how deep types, compositors and references nest, how many
// enumeration values, union members and facets there are.
func Scaled(max int, emit func(Item)) {
	big := []int{max + 4, 2*max + 1, 4*max + 1}
	// components of a kind, between two others
	for _, t := range Templates() {
		for _, n := range sizes(max, big...) {
			t, n := t, n
			emit(item(fmt.Sprintf("%d of %s", n, t.Name), t.Needs, n%2 == 0, func() (cs []Comp) {
				cs = append(cs, Comp{C: &Complex{Name: "First", Content: Seq(El("f", XS("int"), ""))}})
				for i := 0; i < n; i++ {
					cs = append(cs, t.Make(fmt.Sprintf("k%dx", i)))
				}
				return append(cs, Comp{C: &Complex{Name: "Last", Content: Seq(El("l", XS("date"), "2"))}})
			}))
		}
	}
	// members of a kind, in every context
	fixed := map[string]bool{"group": true, "attr ref": true, "attr xml:lang": true, "agroup": true, "ref": true}
	for _, cx := range contexts {
		for _, k := range memberKinds() {
			if fixed[k.name] || k.attr && cx.name == "group" {
				continue
			}
			for _, n := range sizes(max, big...) {
				cx, k, n := cx, k, n
				emit(item(fmt.Sprintf("%s: %d of %s", cx.name, n, k.name), append(append([]string{}, k.needs...), cx.needs...), n%2 == 0, func() []Comp {
					p := Seq()
					var as []*Attr
					for i := 0; i < n; i++ {
						if s := fmt.Sprintf("q%dx", i); k.attr {
							as = append(as, k.a(s))
						} else {
							p.Kids = append(p.Kids, k.p(s))
						}
					}
					if k.attr {
						p = nil
					}
					return cx.make(p, as)
				}))
			}
		}
	}
	// many references to groups and attribute groups of their own
	for _, n := range sizes(max, big[0]) {
		n := n
		emit(item(fmt.Sprintf("%d groups in a type and in a group", n), nil, false, func() (cs []Comp) {
			u, v := Seq(), Seq()
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("G%dx", i)
				cs = append(cs, Comp{G: &Group{Name: name, Content: Seq(El(fmt.Sprintf("g%dx", i), XS("int"), ""))}})
				max := []string{"", "2", "unbounded"}[i%3]
				u.Kids = append(u.Kids, &Particle{Kind: "group", Ref: T(name), Max: max})
				v.Kids = append(v.Kids, &Particle{Kind: "group", Ref: T(name), Max: max})
			}
			return append(cs, Comp{C: &Complex{Name: "User", Content: u}}, Comp{G: &Group{Name: "Ug", Content: v}})
		}))
		emit(item(fmt.Sprintf("%d attribute groups in a type and in a group", n), nil, false, func() (cs []Comp) {
			var u, v []*Attr
			for i := 0; i < n; i++ {
				name := fmt.Sprintf("K%dx", i)
				cs = append(cs, Comp{AG: &AttrGroup{Name: name, Attrs: []*Attr{At(fmt.Sprintf("k%dx", i), XS("int"), "")}}})
				u = append(u, &Attr{Group: T(name)})
				v = append(v, &Attr{Group: T(name)})
			}
			return append(cs, Comp{C: &Complex{Name: "User", Attrs: u}}, Comp{AG: &AttrGroup{Name: "Uk", Attrs: v}})
		}))
		emit(item(fmt.Sprintf("chain of %d groups and attribute groups", n), nil, n%2 == 0, func() (cs []Comp) {
			for i := 0; i < n; i++ {
				g := Seq(El(fmt.Sprintf("g%dx", i), XS("int"), ""))
				as := []*Attr{At(fmt.Sprintf("k%dx", i), XS("int"), "")}
				if i > 0 {
					g.Kids = append(g.Kids, &Particle{Kind: "group", Ref: T(fmt.Sprintf("G%dx", i-1))})
					as = append(as, &Attr{Group: T(fmt.Sprintf("K%dx", i-1))})
				}
				cs = append(cs, Comp{G: &Group{Name: fmt.Sprintf("G%dx", i), Content: g}}, Comp{AG: &AttrGroup{Name: fmt.Sprintf("K%dx", i), Attrs: as}})
			}
			return
		}))
	}
	// anonymous types in anonymous types
	for _, n := range sizes(max, big[0]) {
		for form := 0; form < 6; form++ {
			n, form := n, form
			emit(item(fmt.Sprintf("%d nested types, form %d", n, form), nil, false, func() []Comp {
				var mk func(i int) *Complex
				mk = func(i int) *Complex {
					p := Seq()
					if form&1 == 0 {
						p.Kids = append(p.Kids, El(fmt.Sprintf("b%dx", i), XS("int"), ""))
					}
					if i < n {
						max := ""
						if form > 3 && i%2 == 0 {
							max = "unbounded"
						}
						k := ElE(&Elem{Name: fmt.Sprintf("N%dx", i+1), Max: max, InC: mk(i + 1)})
						if form == 2 || form == 3 {
							k = P("choice", "", k)
						}
						p.Kids = append(p.Kids, k)
					}
					p.Kids = append(p.Kids, El(fmt.Sprintf("c%dx", i), XS("string"), ""))
					return &Complex{Content: p, Attrs: []*Attr{At(fmt.Sprintf("d%dx", i), XS("int"), "")}}
				}
				c := mk(0)
				c.Name = "Top"
				return []Comp{{C: c}, {C: &Complex{Name: "Next", Content: Seq(El("nx", XS("int"), ""))}}}
			}))
		}
	}
	// compositors in compositors, at most one of which repeats
	for _, cx := range contexts {
		for _, n := range sizes(max) {
			for many := 0; many <= n; many++ {
				for form := 0; form < 3; form++ {
					cx, n, many, form := cx, n, many, form
					emit(item(fmt.Sprintf("%s: %d nested compositors, number %d repeats, form %d", cx.name, n, many, form), cx.needs, false, func() []Comp {
						var mk func(i int) *Particle
						mk = func(i int) *Particle {
							kind := []string{"sequence", "choice", []string{"sequence", "choice"}[i%2]}[form]
							max := ""
							if i == many {
								max = "7"
							}
							p := P(kind, max, El(fmt.Sprintf("b%dx", i), XS("int"), ""))
							if i < n {
								p.Kids = append(p.Kids, mk(i+1))
							}
							p.Kids = append(p.Kids, El(fmt.Sprintf("c%dx", i), XS("int"), ""))
							return p
						}
						return cx.make(mk(1), nil)
					}))
				}
			}
		}
	}
	// compositors beside each other, one of which repeats
	for _, n := range sizes(max) {
		for many := 0; many <= n; many++ {
			n, many := n, many
			emit(item(fmt.Sprintf("%d compositors, number %d repeats", n, many), nil, false, func() []Comp {
				p := Seq()
				for i := 1; i <= n; i++ {
					max := ""
					if i == many {
						max = "unbounded"
					}
					p.Kids = append(p.Kids, P([]string{"sequence", "choice"}[i%2], max, El(fmt.Sprintf("b%dx", i), XS("int"), ""), El(fmt.Sprintf("c%dx", i), XS("int"), "")))
				}
				return []Comp{{C: &Complex{Name: "Ctx", Content: p}}}
			}))
		}
	}
	// simple types of simple types, extensions of extensions
	for _, n := range sizes(max, big[0]) {
		for _, u := range RefUsers() {
			for form := 0; form < 3; form++ {
				if u.Name == "complex extension" {
					continue
				}
				n, u, form := n, u, form
				emit(item(fmt.Sprintf("%s of %d simple types, order %d", u.Name, n, form), nil, false, func() (cs []Comp) {
					r := XS("unsignedShort")
					for i := 0; i < n; i++ {
						name := fmt.Sprintf("Al%dx", i)
						cs = append(cs, Comp{S: Re(name, r)})
						r = T(name)
					}
					return order(append(cs, u.Make(r)), form)
				}))
			}
		}
		for form := 0; form < 3; form++ {
			n, form := n, form
			emit(item(fmt.Sprintf("%d extensions, order %d", n, form), []string{"HC"}, false, func() (cs []Comp) {
				r := T("HC")
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("X%dx", i)
					cs = append(cs, Comp{C: &Complex{Name: name, Deriv: "complexExt", Base: r, Content: Seq(El(fmt.Sprintf("e%dx", i), XS("int"), "")), Attrs: []*Attr{At(fmt.Sprintf("a%dx", i), XS("int"), "")}}})
					r = T(name)
				}
				return order(cs, form)
			}))
		}
	}
	// unions, enumerations, facets
	mem := []string{"boolean", "date", "int", "string", "float", "byte", "short", "long", "token", "gYear", "double", "decimal", "anyURI", "QName", "time", "ID", "language", "NMTOKENS", "hexBinary", "unsignedInt"}
	for _, n := range sizes(len(mem)) {
		n := n
		emit(item(fmt.Sprintf("union of %d built-in types", n), nil, false, func() []Comp {
			u := &Simple{Name: "U", Variety: "union"}
			for _, m := range mem[:n] {
				u.Members = append(u.Members, XS(m))
			}
			return []Comp{{S: u}}
		}))
	}
	for _, n := range sizes(max, big...) {
		for form := 0; form < 2; form++ {
			n, form := n, form
			emit(item(fmt.Sprintf("union of %d types, order %d", n, form), nil, false, func() (cs []Comp) {
				u := &Simple{Name: "U", Variety: "union"}
				for i := 0; i < n; i++ {
					name := fmt.Sprintf("M%dx", i)
					cs = append(cs, Comp{S: Re(name, XS(mem[i%5]))})
					u.Members = append(u.Members, T(name))
				}
				return order(append(cs, Comp{S: u}), form)
			}))
			emit(item(fmt.Sprintf("%d values, form %d", n, form), nil, false, func() (cs []Comp) {
				var vs []string
				for i := 0; i < n; i++ {
					vs = append(vs, fmt.Sprintf([]string{"v%dx", "%d"}[form], i))
				}
				fs := Enum(vs...)
				base := XS([]string{"string", "int"}[form])
				return []Comp{{S: Re("E", base, fs...)}, {S: Re("F", base, Enum("1")...)},
					{C: &Complex{Name: "C", Content: Seq(ElE(&Elem{Name: "a", InS: Re("", base, fs...)}), El("b", T("E"), "")), Attrs: []*Attr{{Name: "c", Inline: Re("", base, fs...)}}}}}
			}))
			emit(item(fmt.Sprintf("%d patterns, form %d", n, form), nil, false, func() (cs []Comp) {
				var fs []Facet
				for i := 0; i < n; i++ {
					fs = append(fs, Facet{"pattern", fmt.Sprintf("p%d", i)})
				}
				if form == 1 {
					fs = append(fs, Enum("p0")...)
				}
				return []Comp{{S: Re("E", XS("string"), fs...)}, {E: &Elem{Name: "x", InS: Re("", XS("int"), fs...)}}}
			}))
		}
	}
}

// order leaves components as they are, reverses them, or moves every other one
// to the end.
func order(cs []Comp, form int) (l []Comp) {
	switch form {
	case 1:
		for i := len(cs) - 1; i >= 0; i-- {
			l = append(l, cs[i])
		}
	case 2:
		for i := 0; i < len(cs); i += 2 {
			l = append(l, cs[i])
		}
		for i := 1; i < len(cs); i += 2 {
			l = append(l, cs[i])
		}
	default:
		l = cs
	}
	return
}
