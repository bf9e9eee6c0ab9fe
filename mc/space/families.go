package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// item makes an Item from a label and components with their helpers.
func item(label string, needs []string, helpersFirst bool, comps func() []Comp) Item {
	return Item{Label: label, Schema: func() *Schema {
		s := &Schema{}
		h := Closure(needs, false)
		c := comps()
		if helpersFirst {
			s.Comps = append(h, c...)
		} else {
			s.Comps = append(c, h...)
		}
		return s
	}}
}

// contexts a content model can stand in: each returns components holding it.
// The model is surrounded by members that must stay where they are.
var contexts = []struct {
	name  string
	needs []string
	make  func(content *Particle, attrs []*Attr) []Comp
}{
	{"type", nil, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{C: &Complex{Name: "Ctx", Content: p, Attrs: a}}}
	}},
	{"extension", []string{"HC"}, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{C: &Complex{Name: "Ctx", Deriv: "complexExt", Base: T("HC"), Content: p, Attrs: a}}}
	}},
	{"restriction", []string{"HC"}, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{C: &Complex{Name: "Ctx", Deriv: "complexRestr", Base: T("HC"), Content: p, Attrs: a}}}
	}},
	{"element", nil, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{E: &Elem{Name: "Ctx", InC: &Complex{Content: p, Attrs: a}}}}
	}},
	{"nested", nil, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{C: &Complex{Name: "Out", Content: Seq(El("before", XS("int"), ""),
			ElE(&Elem{Name: "Ctx", Max: "5", InC: &Complex{Content: p, Attrs: a}}), El("after", XS("int"), "")), Attrs: []*Attr{At("oa", XS("int"), "required")}}}}
	}},
	{"group", nil, func(p *Particle, a []*Attr) []Comp {
		if a != nil {
			return nil
		}
		return []Comp{{G: &Group{Name: "Ctx", Content: p}}}
	}},
}

// Occurs alphabets.
var OccQ = []string{"", "1", "01", "2", "unbounded", "18446744073709551616"}
var OccT = []string{"", "0", "00", "1", "01", "2", "02", "10", "unbounded", "18446744073709551617"}

// Particles enumerates content models: a compositor with one or two of
// elements, group references and nested compositors, in every context, over
// the occurrence bounds.
func Particles(occ []string, two bool, emit func(Item)) {
	type kid struct {
		name  string
		needs []string
		make  func(k string) *Particle
	}
	var kids []kid
	for _, o := range occ {
		o := o
		kids = append(kids, kid{"elem" + o, nil, func(k string) *Particle { return El("x"+k, XS("int"), o) }})
		kids = append(kids, kid{"ref" + o, []string{"HE"}, func(k string) *Particle {
			if k != "1" {
				return ElE(&Elem{Ref: T("HF"), Max: o})
			}
			return ElE(&Elem{Ref: T("HE"), Max: o})
		}})
		kids = append(kids, kid{"group" + o, []string{"HG"}, func(k string) *Particle {
			if k != "1" {
				return ElE(&Elem{Name: "y" + k, Type: T("HC"), Max: o})
			}
			return &Particle{Kind: "group", Ref: T("HG"), Max: o}
		}})
		for _, kind := range []string{"sequence", "choice"} {
			for _, i := range []string{"", "2"} {
				kind, i := kind, i
				kids = append(kids, kid{kind + o + "[elem" + i + "]", nil, func(k string) *Particle {
					return P(kind, o, El("y"+k, T("HS"), i), El("z"+k, XS("string"), ""))
				}})
			}
		}
	}
	need := []string{"HS", "HE", "HF", "HG", "HC"}
	for _, cx := range contexts {
		for _, kind := range []string{"sequence", "choice", "all"} {
			for _, o := range occ {
				if kind == "all" && o != "" && o != "1" {
					continue
				}
				for i, a := range kids {
					if kind == "all" && !strings.HasPrefix(a.name, "elem") && !strings.HasPrefix(a.name, "ref") {
						continue
					}
					cx, kind, o, a := cx, kind, o, a
					emit(item(fmt.Sprintf("%s: %s%s[%s]", cx.name, kind, o, a.name), append(need, cx.needs...), i%2 == 0, func() []Comp {
						return cx.make(P(kind, o, a.make("1")), nil)
					}))
					if !two {
						continue
					}
					for _, b := range kids {
						if kind == "all" && !strings.HasPrefix(b.name, "elem") && !strings.HasPrefix(b.name, "ref") {
							continue
						}
						b := b
						emit(item(fmt.Sprintf("%s: %s%s[%s %s]", cx.name, kind, o, a.name, b.name), append(need, cx.needs...), false, func() []Comp {
							return cx.make(P(kind, o, a.make("1"), b.make("2")), nil)
						}))
					}
				}
			}
		}
	}
}

// Chains enumerates nested compositors of depth 3 around an element with
// siblings before and after every level.
func Chains(occ []string, emit func(Item)) {
	kinds := []string{"sequence", "choice"}
	for _, cx := range contexts {
		for _, o1 := range occ {
			for _, o2 := range occ {
				for _, o3 := range occ {
					for ks := 0; ks < 8; ks++ {
						for _, oe := range []string{"", "2"} {
							cx, o1, o2, o3, ks, oe := cx, o1, o2, o3, ks, oe
							k := [3]string{kinds[ks&1], kinds[ks>>1&1], kinds[ks>>2&1]}
							emit(item(fmt.Sprintf("%s: a %s%s[b %s%s[c %s%s[d%s] e] f]", cx.name, k[0], o1, k[1], o2, k[2], o3, oe), cx.needs, false, func() []Comp {
								return cx.make(P(k[0], o1, El("b", XS("int"), ""),
									P(k[1], o2, El("c", XS("int"), ""), P(k[2], o3, El("d", XS("int"), oe)), El("e", XS("int"), "")),
									El("f", XS("int"), "")), nil)
							}))
						}
					}
				}
			}
		}
	}
	// repetition outside an anonymous type does not repeat its members
	for _, o1 := range occ {
		for _, o2 := range occ {
			for _, o3 := range occ {
				for _, o4 := range occ {
					for ks := 0; ks < 4; ks++ {
						o1, o2, o3, o4, ks := o1, o2, o3, o4, ks
						k := [2]string{kinds[ks&1], kinds[ks>>1&1]}
						emit(item(fmt.Sprintf("anonymous type in %s%s, element %s, %s%s[elem%s]", k[0], o1, o2, k[1], o3, o4), nil, false, func() []Comp {
							return []Comp{{C: &Complex{Name: "Ctx", Content: P(k[0], o1, El("a", XS("int"), ""),
								ElE(&Elem{Name: "Mid", Max: o2, InC: &Complex{Content: P(k[1], o3, El("i", XS("int"), o4))}}), El("z", XS("int"), ""))}}}
						}))
					}
				}
			}
		}
	}
	// the same element in two alternatives
	for _, cx := range contexts {
		for _, o := range occ {
			for _, o1 := range occ {
				for _, o2 := range occ {
					for form := 0; form < 4; form++ {
						cx, o, o1, o2, form := cx, o, o1, o2, form
						emit(item(fmt.Sprintf("%s: choice%s[x%s x%s] form %d", cx.name, o, o1, o2, form), cx.needs, false, func() []Comp {
							a, b := El("x", XS("int"), o1), El("x", XS("int"), o2)
							switch form {
							case 1:
								b = P("sequence", "", b, El("y", XS("int"), ""))
							case 2:
								a = P("sequence", "", El("y", XS("int"), ""), a)
							case 3:
								a = P("sequence", "", a)
								b = P("sequence", o2, El("y", XS("int"), ""), El("x", XS("int"), ""))
							}
							return cx.make(P("choice", o, a, b), nil)
						}))
					}
				}
			}
		}
	}
}

type memberKind struct {
	name  string
	attr  bool
	needs []string
	p     func(k string) *Particle
	a     func(k string) *Attr
}

func memberKinds() []memberKind {
	n := func(s ...string) []string { return s }
	e := func(name string, needs []string, f func(k string) *Elem) memberKind {
		return memberKind{name: name, needs: needs, p: func(k string) *Particle { return ElE(f(k)) }}
	}
	a := func(name string, needs []string, f func(k string) *Attr) memberKind {
		return memberKind{name: name, attr: true, needs: needs, a: f}
	}
	return []memberKind{
		e("builtin", nil, func(k string) *Elem { return &Elem{Name: "e" + k, Type: XS("int")} }),
		e("optional HS", n("HS"), func(k string) *Elem { return &Elem{Name: "e" + k, Type: T("HS"), Min: "0"} }),
		e("HC many", n("HC"), func(k string) *Elem { return &Elem{Name: "e" + k, Type: T("HC"), Max: "unbounded"} }),
		e("HL", n("HL"), func(k string) *Elem { return &Elem{Name: "e" + k, Type: T("HL")} }),
		e("inline enum", nil, func(k string) *Elem { return &Elem{Name: "e" + k, InS: Re("", XS("token"), Enum("p", "q")...)} }),
		e("inline plain", nil, func(k string) *Elem { return &Elem{Name: "e" + k, Max: "3", InS: Re("", XS("decimal"))} }),
		e("anonymous", n("HS"), func(k string) *Elem {
			return &Elem{Name: "E" + k, InC: &Complex{Content: Seq(El("i"+k, XS("long"), "")), Attrs: []*Attr{At("j"+k, T("HS"), "")}}}
		}),
		e("anonymous empty", nil, func(k string) *Elem { return &Elem{Name: "E" + k, Max: "2", InC: &Complex{}} }),
		e("anonymous simpleContent", nil, func(k string) *Elem {
			return &Elem{Name: "E" + k, InC: &Complex{Deriv: "simpleExt", Base: XS("float"), Attrs: []*Attr{At("j"+k, XS("int"), "required")}}}
		}),
		e("ref", n("HE", "HF"), func(k string) *Elem { return &Elem{Ref: T(map[string]string{"1": "HE", "2": "HF"}[k])} }),
		e("untyped", nil, func(k string) *Elem { return &Elem{Name: "e" + k} }),
		{name: "group", needs: n("HG"), p: func(k string) *Particle { return &Particle{Kind: "group", Ref: T("HG")} }},
		{name: "any", p: func(k string) *Particle { return &Particle{Kind: "any"} }},
		{name: "nested choice", p: func(k string) *Particle { return P("choice", "", El("m"+k, XS("int"), ""), El("n"+k, XS("date"), "")) }},
		a("attr", nil, func(k string) *Attr { return At("a"+k, XS("int"), "") }),
		a("attr required", n("HS"), func(k string) *Attr { return At("a"+k, T("HS"), "required") }),
		a("attr inline", nil, func(k string) *Attr { return &Attr{Name: "a" + k, Inline: Re("", XS("string"), Enum("x")...)} }),
		a("attr ref", n("HA"), func(k string) *Attr { return &Attr{Ref: T("HA"), Use: "required"} }),
		a("attr xml:lang", nil, func(k string) *Attr { return &Attr{Ref: Ref{NS: "xml", Name: "lang"}} }),
		a("attr untyped", nil, func(k string) *Attr { return &Attr{Name: "a" + k} }),
		a("agroup", n("HAG"), func(k string) *Attr { return &Attr{Group: T("HAG")} }),
	}
}

// Members enumerates all sequences of up to max member kinds in every
// context; once per kind for those that refer to a fixed component.
func Members(max int, emit func(Item)) {
	ks := memberKinds()
	once := map[string]bool{"group": true, "attr ref": true, "attr xml:lang": true, "agroup": true}
	for _, cx := range contexts {
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) > 0 {
				c := append([]int{}, cur...)
				var names, needs []string
				attrs := false
				for _, i := range c {
					names = append(names, ks[i].name)
					needs = append(needs, ks[i].needs...)
					attrs = attrs || ks[i].attr
				}
				if !(attrs && cx.name == "group") {
					cx := cx
					emit(item(cx.name+": "+strings.Join(names, ", "), append(needs, cx.needs...), len(c)%2 == 0, func() []Comp {
						p := Seq()
						var as []*Attr
						for j, i := range c {
							k := fmt.Sprint(j + 1)
							if ks[i].attr {
								as = append(as, ks[i].a(k))
							} else {
								p.Kids = append(p.Kids, ks[i].p(k))
							}
						}
						if len(p.Kids) == 0 {
							p = nil
						}
						if cx.name == "group" && p == nil {
							p = Seq()
						}
						return cx.make(p, as)
					}))
				}
			}
			if len(cur) == max {
				return
			}
			for i := range ks {
				skip := ks[i].name == "ref" && len(cur) > 1
				for _, j := range cur {
					if i == j && (once[ks[i].name]) {
						skip = true
					}
				}
				// attributes come after the content
				if len(cur) > 0 && ks[cur[len(cur)-1]].attr && !ks[i].attr {
					skip = true
				}
				if !skip {
					rec(append(cur, i))
				}
			}
		}
		rec(nil)
	}
}

// Nested enumerates trees of anonymous types with up to max nodes; each node
// may have members before and after its children.
func Nested(max int, emit func(Item)) {
	type node struct {
		kids []*node
		flag int // 1: member before, 2: member after, 4: attribute, 8: repeated
	}
	var shapes func(n int) []*node
	var forests func(n int) [][]*node
	shapes = func(n int) (l []*node) {
		for _, f := range forests(n - 1) {
			l = append(l, &node{kids: f})
		}
		return
	}
	forests = func(n int) (l [][]*node) {
		if n == 0 {
			return [][]*node{nil}
		}
		for k := 1; k <= n; k++ {
			for _, a := range shapes(k) {
				for _, b := range forests(n - k) {
					l = append(l, append([]*node{a}, b...))
				}
			}
		}
		return
	}
	flags := []int{0, 1, 2, 3, 5, 7, 8, 11}
	for n := 1; n <= max; n++ {
		for _, sh := range shapes(n) {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(flags)
			}
			for v := 0; v < total; v++ {
				for _, top := range []string{"type", "element", "group"} {
					sh, v, top, n := sh, v, top, n
					build := func() (Comp, string) {
						id, w := 0, v
						label := ""
						var mk func(x *node) *Complex
						mk = func(x *node) *Complex {
							k := fmt.Sprint(id)
							id++
							f := flags[w%len(flags)]
							w /= len(flags)
							label += fmt.Sprintf("(%d", f)
							p := Seq()
							if f&1 != 0 {
								p.Kids = append(p.Kids, El("b"+k, XS("int"), ""))
							}
							for _, y := range x.kids {
								name := "N" + fmt.Sprint(id)
								rep := ""
								if flags[w%len(flags)]&8 != 0 {
									rep = "unbounded"
								}
								p.Kids = append(p.Kids, ElE(&Elem{Name: name, Max: rep, InC: mk(y)}))
							}
							if f&2 != 0 {
								p.Kids = append(p.Kids, El("c"+k, XS("string"), ""))
							}
							c := &Complex{Content: p}
							if len(p.Kids) == 0 {
								c.Content = nil
							}
							if f&4 != 0 {
								c.Attrs = []*Attr{At("d"+k, XS("int"), "")}
							}
							label += ")"
							return c
						}
						c := mk(sh)
						switch top {
						case "type":
							c.Name = "Top"
							return Comp{C: c}, label
						case "element":
							return Comp{E: &Elem{Name: "Top", InC: c}}, label
						}
						if c.Content == nil {
							c.Content = Seq()
						}
						return Comp{G: &Group{Name: "Top", Content: c.Content}}, label
					}
					_, l := build()
					emit(item(fmt.Sprintf("%s of %d anonymous types %s", top, n, l), nil, false, func() []Comp {
						c, _ := build()
						// a neighbour that must stay untouched
						return []Comp{c, {C: &Complex{Name: "Next", Content: Seq(El("nx", XS("int"), ""))}}}
					}))
				}
			}
		}
	}
}

// permutations of 0..n-1.
func permutations(n int) (l [][]int) {
	var rec func(cur []int, used int)
	rec = func(cur []int, used int) {
		if len(cur) == n {
			l = append(l, append([]int{}, cur...))
			return
		}
		for i := 0; i < n; i++ {
			if used>>uint(i)&1 == 0 {
				rec(append(cur, i), used|1<<uint(i))
			}
		}
	}
	rec(nil, 0)
	return
}

// RefUser is a position that refers to a type.
type RefUser struct {
	Name    string
	Complex bool // may refer to a complex type
	Make    func(r Ref) Comp
}

// RefUsers lists the referring positions.
func RefUsers() []RefUser {
	return []RefUser{
		{"element", true, func(r Ref) Comp { return Comp{E: &Elem{Name: "user", Type: r}} }},
		{"local element", true, func(r Ref) Comp { return Comp{C: &Complex{Name: "User", Content: Seq(El("u", r, ""))}} }},
		{"local elements", true, func(r Ref) Comp {
			return Comp{C: &Complex{Name: "User", Content: Seq(El("u", r, "unbounded"), El("v", XS("int"), ""), El("w", r, ""))}}
		}},
		{"group element", true, func(r Ref) Comp { return Comp{G: &Group{Name: "User", Content: Seq(El("u", r, "2"))}} }},
		{"attribute", false, func(r Ref) Comp { return Comp{A: At("user", r, "")} }},
		{"local attribute", false, func(r Ref) Comp { return Comp{C: &Complex{Name: "User", Attrs: []*Attr{At("u", r, "")}}} }},
		{"agroup attribute", false, func(r Ref) Comp { return Comp{AG: &AttrGroup{Name: "User", Attrs: []*Attr{At("u", r, "")}}} }},
		{"item", false, func(r Ref) Comp { return Comp{S: &Simple{Name: "User", Variety: "list", Base: r}} }},
		{"member", false, func(r Ref) Comp {
			return Comp{S: &Simple{Name: "User", Variety: "union", Members: []Ref{XS("boolean"), r}}}
		}},
		{"restriction", false, func(r Ref) Comp { return Comp{S: Re("User", r)} }},
		{"facets", false, func(r Ref) Comp { return Comp{S: Re("User", r, Enum("1", "2")...)} }},
		{"inline", false, func(r Ref) Comp {
			return Comp{C: &Complex{Name: "User", Content: Seq(ElE(&Elem{Name: "u", InS: Re("", r, Facet{"pattern", "x"})}), El("v", XS("int"), "")), Attrs: []*Attr{{Name: "w", Inline: Re("", r)}}}}
		}},
		{"simple extension", false, func(r Ref) Comp {
			return Comp{C: &Complex{Name: "User", Deriv: "simpleExt", Base: r, Attrs: []*Attr{At("u", XS("int"), "")}}}
		}},
		{"complex extension", true, func(r Ref) Comp {
			return Comp{C: &Complex{Name: "User", Deriv: "complexExt", Base: r, Content: Seq(El("u", XS("int"), ""))}}
		}},
	}
}

// References enumerates, for every kind of referring position, every kind of
// target reached over 0 to max simple types, all permutations of the
// components.
func References(max int, emit func(Item)) {
	targets := []struct {
		name string
		end  Ref
		comp *Comp
	}{
		{"builtin", XS("unsignedShort"), nil},
		{"list", T("EndL"), &Comp{S: &Simple{Name: "EndL", Variety: "list", Base: XS("short")}}},
		{"union", T("EndU"), &Comp{S: &Simple{Name: "EndU", Variety: "union", Members: []Ref{XS("int"), XS("date")}}}},
		{"complex", T("EndC"), &Comp{C: &Complex{Name: "EndC", Content: Seq(El("ec", XS("int"), ""))}}},
	}
	for _, tg := range targets {
		for n := 0; n <= max; n++ {
			if tg.name == "complex" && n > 0 {
				continue
			}
			users := RefUsers()
			for via := 0; via < 3; via++ { // directly, by an element, by an attribute
				if via == 2 && tg.name == "complex" {
					continue
				}
				for _, u := range users {
					if tg.name == "complex" && !u.Complex || u.Name == "complex extension" && tg.name != "complex" {
						continue
					}
					if u.Name == "simple extension" && (tg.name == "list" || tg.name == "union") {
						continue // C05-2: see known findings
					}
					if u.Name == "item" && tg.name == "list" {
						continue // lists of lists are no schema
					}
					if via > 0 && u.Name != "element" {
						continue
					}
					count := 1 + n
					if tg.comp != nil {
						count++
					}
					if via > 0 {
						count++
					}
					for _, perm := range permutations(count) {
						tg, n, u, perm, via := tg, n, u, perm, via
						label := fmt.Sprintf("%s via %d aliases to %s, order %v", []string{u.Name, "element ref from " + u.Name, "attribute ref"}[via], n, tg.name, perm)
						emit(Item{Label: label, Schema: func() *Schema {
							r := tg.end
							var cs []Comp
							if tg.comp != nil {
								cs = append(cs, *tg.comp)
							}
							for i := 0; i < n; i++ {
								name := fmt.Sprintf("Al%d", i)
								cs = append(cs, Comp{S: Re(name, r)})
								r = T(name)
							}
							switch via {
							case 0:
								cs = append(cs, u.Make(r))
							case 1:
								cs = append(cs, Comp{E: &Elem{Name: "glob", Type: r}}, Comp{C: &Complex{Name: "User", Content: Seq(ElE(&Elem{Ref: T("glob"), Max: "2"}), El("v", XS("int"), ""))}})
							case 2:
								cs = append(cs, Comp{A: At("glob", r, "")}, Comp{C: &Complex{Name: "User", Attrs: []*Attr{{Ref: T("glob"), Use: "required"}, At("v", XS("int"), "")}}})
							}
							s := &Schema{}
							for _, i := range perm {
								s.Comps = append(s.Comps, cs[i])
							}
							return s
						}})
					}
				}
			}
		}
	}
}

// Positions a built-in type can be referenced from; forward types come after
// their users.
func Positions(builtins []string, emit func(Item)) {
	for _, b := range builtins {
		r := XS(b)
		pos := []struct {
			name string
			make func() []Comp
		}{
			{"global element", func() []Comp { return []Comp{{E: &Elem{Name: "el", Type: r}}} }},
			{"global attribute", func() []Comp { return []Comp{{A: At("at", r, "")}} }},
			{"inline in element", func() []Comp { return []Comp{{E: &Elem{Name: "el", InS: Re("", r)}}} }},
			{"inline with facet in element", func() []Comp { return []Comp{{E: &Elem{Name: "el", InS: Re("", r, Facet{"pattern", "x"})}}} }},
			{"inline enumeration in element", func() []Comp { return []Comp{{E: &Elem{Name: "el", InS: Re("", r, Enum("1", "2")...)}}} }},
			{"inline in attribute", func() []Comp { return []Comp{{A: &Attr{Name: "at", Inline: Re("", r)}}} }},
			{"inline with facet in attribute", func() []Comp { return []Comp{{A: &Attr{Name: "at", Inline: Re("", r, Facet{"length", "2"})}}} }},
			{"restriction", func() []Comp { return []Comp{{S: Re("S", r)}} }},
			{"restriction with facets", func() []Comp { return []Comp{{S: Re("S", r, Facet{"whiteSpace", "collapse"}, Facet{"pattern", "x"})}} }},
			{"restriction of restriction", func() []Comp { return []Comp{{S: Re("S2", T("S"))}, {S: Re("S", r)}} }},
			{"list item", func() []Comp { return []Comp{{S: &Simple{Name: "L", Variety: "list", Base: r}}} }},
			{"inline list item", func() []Comp { return []Comp{{S: &Simple{Name: "L", Variety: "list", InBase: Re("", r)}}} }},
			{"union member", func() []Comp { return []Comp{{S: &Simple{Name: "U", Variety: "union", Members: []Ref{r}}}} }},
			{"union members", func() []Comp {
				return []Comp{{S: &Simple{Name: "U", Variety: "union", Members: []Ref{T("S"), r}}}, {S: Re("S", XS("byte"))}}
			}},
			{"simple content", func() []Comp {
				return []Comp{{C: &Complex{Name: "C", Deriv: "simpleExt", Base: r, Attrs: []*Attr{At("b", r, "")}}}}
			}},
			{"simple content of forward type", func() []Comp {
				return []Comp{{C: &Complex{Name: "C", Deriv: "simpleExt", Base: T("S")}}, {S: Re("S", r)}}
			}},
			{"members", func() []Comp {
				return []Comp{{C: &Complex{Name: "C", Content: Seq(El("a", r, ""), El("b", r, "unbounded"), ElE(&Elem{Name: "c", InS: Re("", r)})),
					Attrs: []*Attr{At("d", r, ""), At("e", r, "required"), {Name: "f", Inline: Re("", r, Enum("1")...)}}}}}
			}},
			{"members of forward type", func() []Comp {
				return []Comp{{C: &Complex{Name: "C", Content: Seq(El("a", T("S"), ""), El("b", T("S"), "2")), Attrs: []*Attr{At("d", T("S"), "")}}}, {S: Re("S", r)}}
			}},
			{"group", func() []Comp {
				return []Comp{{G: &Group{Name: "G", Content: Seq(El("a", r, ""), El("b", r, "2"), ElE(&Elem{Name: "c", InS: Re("", r)}))}}}
			}},
			{"attribute group", func() []Comp {
				return []Comp{{AG: &AttrGroup{Name: "K", Attrs: []*Attr{At("a", r, ""), At("b", r, "required"), {Name: "c", Inline: Re("", r)}}}}}
			}},
			{"references", func() []Comp {
				return []Comp{{C: &Complex{Name: "C", Content: Seq(ElE(&Elem{Ref: T("el")}), ElE(&Elem{Ref: T("em"), Max: "2"})), Attrs: []*Attr{{Ref: T("at")}}}},
					{E: &Elem{Name: "el", Type: r}}, {E: &Elem{Name: "em", InS: Re("", r)}}, {A: At("at", r, "")}}
			}},
			{"anonymous type", func() []Comp {
				return []Comp{{E: &Elem{Name: "El", InC: &Complex{Content: Seq(El("a", r, ""), ElE(&Elem{Name: "B", InC: &Complex{Deriv: "simpleExt", Base: r}})), Attrs: []*Attr{At("d", r, "")}}}}}
			}},
		}
		for _, p := range pos {
			p := p
			emit(Item{Label: b + " as " + p.name, Schema: func() *Schema { return &Schema{Comps: p.make()} }})
		}
	}
}

// Facets enumerates all sequences of up to max facets, on every variety and in
// every position.
func Facets(max int, emit func(Item)) {
	kinds := []Facet{{"enumeration", "red"}, {"enumeration", "green"}, {"enumeration", "it's a \\ \"3rd\""}, {"enumeration", "2nd"}, {"enumeration", "-7"}, {"pattern", "[a-z]*"}, {"length", "3"}, {"minLength", "1"}, {"maxLength", "9"},
		{"whiteSpace", "collapse"}, {"minInclusive", "1"}, {"maxInclusive", "7"}, {"minExclusive", "0"}, {"maxExclusive", "8"}, {"totalDigits", "4"}, {"fractionDigits", "2"}}
	numeric := func(f Facet) Facet {
		if f.Kind == "enumeration" {
			return Facet{f.Kind, map[string]string{"red": "1", "green": "2", "2nd": "-3", "-7": "-7", "it's a \\ \"3rd\"": "15"}[f.Value]}
		}
		return f
	}
	var rec func(cur []int)
	rec = func(cur []int) {
		c := append([]int{}, cur...)
		for _, base := range []string{"string", "int", "HS", "decimal"} {
			for pos := 0; pos < 8; pos++ {
				base, pos := base, pos
				l := ""
				for _, i := range c {
					l += kinds[i].Kind + " "
				}
				emit(Item{Label: fmt.Sprintf("%s %sposition %d", base, l, pos), Schema: func() *Schema {
					r := XS(base)
					if base == "HS" {
						r = T("HS")
					}
					var fs []Facet
					for _, i := range c {
						f := kinds[i]
						if base != "string" {
							f = numeric(f)
						}
						fs = append(fs, f)
					}
					x := Re("", r, fs...)
					s := &Schema{}
					after := El("after", XS("boolean"), "")
					switch pos {
					case 0:
						x.Name = "X"
						s.Comps = []Comp{{S: x}}
					case 1:
						s.Comps = []Comp{{E: &Elem{Name: "x", InS: x}}}
					case 2:
						s.Comps = []Comp{{A: &Attr{Name: "x", Inline: x}}}
					case 3:
						s.Comps = []Comp{{C: &Complex{Name: "C", Content: Seq(El("before", XS("boolean"), ""), ElE(&Elem{Name: "x", Max: "2", InS: x}), after)}}}
					case 4:
						s.Comps = []Comp{{C: &Complex{Name: "C", Content: Seq(El("before", XS("boolean"), "")), Attrs: []*Attr{At("p", XS("date"), ""), {Name: "x", Inline: x}, At("q", XS("date"), "")}}}}
					case 5:
						s.Comps = []Comp{{G: &Group{Name: "G", Content: Seq(El("before", XS("boolean"), ""), ElE(&Elem{Name: "x", InS: x}), after)}}}
					case 6:
						s.Comps = []Comp{{AG: &AttrGroup{Name: "K", Attrs: []*Attr{At("p", XS("date"), ""), {Name: "x", Inline: x}, At("q", XS("date"), "")}}}}
					case 7:
						y := Re("", XS("string"))
						y.Name = "Y"
						x.Name = "X"
						s.Comps = []Comp{{S: y}, {S: x}, {S: &Simple{Name: "Z", Variety: "list", Base: T("X")}}, {S: &Simple{Name: "V", Variety: "union", Members: []Ref{T("X"), T("Y")}}}}
					}
					if base == "HS" {
						s.Comps = append(s.Comps, helpers["HS"]())
					}
					return s
				}})
			}
		}
		if len(cur) < max {
			for i := range kinds {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
}

// Varieties enumerates lists and unions: of every member combination up to
// max members, in every order, inline types included.
func Varieties(max int, emit func(Item)) {
	mem := []struct {
		name  string
		r     Ref
		needs []string
	}{
		{"boolean", XS("boolean"), nil}, {"date", XS("date"), nil}, {"HS", T("HS"), []string{"HS"}}, {"HT", T("HT"), []string{"HT"}},
		{"HL", T("HL"), []string{"HL"}}, {"HU", T("HU"), []string{"HU"}}, {"NMTOKENS", XS("NMTOKENS"), nil},
	}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			c := append([]int{}, cur...)
			for form := 0; form < 4; form++ {
				for first := 0; first < 2; first++ {
					form, first := form, first
					var names, needs []string
					for _, i := range c {
						names = append(names, mem[i].name)
						needs = append(needs, mem[i].needs...)
					}
					emit(item(fmt.Sprintf("union of %s form %d", strings.Join(names, " "), form), needs, first == 1, func() []Comp {
						u := &Simple{Name: "U", Variety: "union"}
						for _, i := range c {
							u.Members = append(u.Members, mem[i].r)
						}
						switch form {
						case 1: // with further inline members
							u.InMem = []*Simple{Re("", XS("int"), Facet{"maxInclusive", "3"}), Re("", XS("string"), Enum("unbounded")...)}
						case 2: // restricted
							return []Comp{{S: Re("R", T("U"), Enum("1")...)}, {S: u}, {E: &Elem{Name: "x", Type: T("R")}}}
						case 3: // used
							return []Comp{{C: &Complex{Name: "C", Content: Seq(El("a", T("U"), "2")), Attrs: []*Attr{At("b", T("U"), "")}}}, {S: u}}
						}
						return []Comp{{S: u}}
					}))
				}
			}
		}
		if len(cur) == max {
			return
		}
		for i := range mem {
			dup := false
			for _, j := range cur {
				dup = dup || i == j
			}
			if !dup {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
	for _, m := range mem {
		if m.name == "HL" || m.name == "NMTOKENS" {
			continue
		}
		for form := 0; form < 5; form++ {
			for first := 0; first < 2; first++ {
				m, form := m, form
				emit(item(fmt.Sprintf("list of %s form %d", m.name, form), m.needs, first == 1, func() []Comp {
					l := &Simple{Name: "L", Variety: "list", Base: m.r}
					switch form {
					case 1: // restricted list
						return []Comp{{S: l}, {S: Re("R", T("L"), Facet{"maxLength", "3"})}}
					case 2: // restriction with an inline list as base
						l.Name = ""
						return []Comp{{S: &Simple{Name: "R", Variety: "restriction", InBase: l, Facets: []Facet{{"length", "3"}}}}}
					case 3: // inline restricted item
						return []Comp{{S: &Simple{Name: "L", Variety: "list", InBase: Re("", m.r, Enum("1", "2")...)}}}
					case 4: // used
						return []Comp{{C: &Complex{Name: "C", Content: Seq(El("a", T("L"), "2"), El("b", T("L"), "")), Attrs: []*Attr{At("c", T("L"), "")}}}, {S: l}}
					}
					return []Comp{{S: l}}
				}))
			}
		}
	}
}
