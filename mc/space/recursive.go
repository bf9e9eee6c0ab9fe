package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// Recursive enumerates schemas whose types hold themselves: graphs of up to max
// complex types and elements with anonymous types, in which every one has up
// to two members of other ones or itself, in several ways and occurrences.
func Recursive(max int, emit func(Item)) {
	type edge struct{ to, form, occ int }
	type node struct {
		element bool
		base    int // extends the node, -1 none
		out     []edge
	}
	forms := []string{"member", "in anonymous type", "in group", "in choice", "twice"}
	occs := []string{"", "unbounded", "2"}
	var graphs func(n, i int, cur []node)
	graphs = func(n, i int, cur []node) {
		if i == n {
			nodes := append([]node{}, cur...)
			for form := 0; form < 2; form++ {
				form := form
				var l []string
				for _, x := range nodes {
					l = append(l, fmt.Sprintf("%v", x))
				}
				emit(item(fmt.Sprintf("recursive %s order %d", strings.Join(l, " "), form), nil, false, func() (cs []Comp) {
					for i, x := range nodes {
						c := &Complex{Attrs: []*Attr{At(fmt.Sprintf("at%d", i), XS("int"), "")}}
						p := Seq(El(fmt.Sprintf("be%d", i), XS("date"), ""))
						for j, e := range x.out {
							name := fmt.Sprintf("me%d%c", i, 'a'+j)
							el := func(name string) *Particle {
								if nodes[e.to].element {
									return ElE(&Elem{Ref: T(fmt.Sprintf("Ty%d", e.to)), Min: "0", Max: occs[e.occ]})
								}
								return ElE(&Elem{Name: name, Type: T(fmt.Sprintf("Ty%d", e.to)), Min: "0", Max: occs[e.occ]})
							}
							switch forms[e.form] {
							case "member":
								p.Kids = append(p.Kids, el(name))
							case "in anonymous type":
								p.Kids = append(p.Kids, ElE(&Elem{Name: "An" + name, InC: &Complex{Content: Seq(el(name), El("af"+name, XS("int"), ""))}}))
							case "in group":
								g := "Gr" + name
								cs = append(cs, Comp{G: &Group{Name: g, Content: Seq(el(name), El("gf"+name, XS("int"), ""))}})
								p.Kids = append(p.Kids, &Particle{Kind: "group", Ref: T(g)})
							case "in choice":
								p.Kids = append(p.Kids, P("choice", "", el(name), El("cf"+name, XS("int"), "")))
							case "twice":
								p.Kids = append(p.Kids, P("choice", "", el(name), Seq(El("cf"+name, XS("int"), ""), el(name))))
							}
						}
						p.Kids = append(p.Kids, El(fmt.Sprintf("la%d", i), XS("string"), ""))
						c.Content = p
						if x.base >= 0 {
							c.Deriv, c.Base = "complexExt", T(fmt.Sprintf("Ty%d", x.base))
						}
						if x.element {
							cs = append(cs, Comp{E: &Elem{Name: fmt.Sprintf("Ty%d", i), InC: c}})
						} else {
							c.Name = fmt.Sprintf("Ty%d", i)
							cs = append(cs, Comp{C: c})
						}
					}
					return order(cs, form)
				}))
			}
			return
		}
		for _, element := range []bool{false, true} {
			for base := -1; base < i; base++ {
				if base >= 0 && cur[base].element {
					continue
				}
				next := func(out []edge) {
					graphs(n, i+1, append(append([]node{}, cur...), node{element, base, out}))
				}
				var one []edge
				for to := 0; to < n; to++ {
					for f := range forms {
						for o := range occs {
							if n > 1 && o > 1 || n > 2 && (o > 0 || f > 2) {
								continue
							}
							one = append(one, edge{to, f, o})
						}
					}
				}
				for _, e := range one {
					next([]edge{e})
					if n == 1 {
						for _, d := range one {
							next([]edge{e, d})
						}
					}
				}
				if i > 0 {
					next(nil)
				}
			}
		}
	}
	for n := 1; n <= max; n++ {
		graphs(n, 0, nil)
	}
}
