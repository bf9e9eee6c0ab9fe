package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// Substitutions enumerates chains of up to max elements of substitution groups,
// each with the type of its head or one of its own, used in one way, in all
// orders of the components.
func Substitutions(max int, emit func(Item)) {
	heads := []struct {
		name string
		make func() []Comp
	}{
		{"built-in", func() []Comp { return []Comp{{E: &Elem{Name: "head", Type: XS("int")}}} }},
		{"complex", func() []Comp {
			return []Comp{{E: &Elem{Name: "head", Type: T("Typ")}}, {C: &Complex{Name: "Typ", Content: Seq(El("in", XS("int"), "")), Attrs: []*Attr{At("at", XS("date"), "")}}}}
		}},
		{"anonymous", func() []Comp {
			return []Comp{{E: &Elem{Name: "head", InC: &Complex{Content: Seq(El("in", XS("int"), "2"))}}}}
		}},
		{"simple", func() []Comp {
			return []Comp{{E: &Elem{Name: "head", Type: T("Typ")}}, {S: Re("Typ", XS("int"), Facet{"maxInclusive", "3"})}}
		}},
		{"anonymous simple", func() []Comp {
			return []Comp{{E: &Elem{Name: "head", InS: Re("", XS("boolean"), Facet{"pattern", ".*"})}}}
		}},
		{"list", func() []Comp {
			return []Comp{{E: &Elem{Name: "head", Type: T("Typ")}}, {S: &Simple{Name: "Typ", Variety: "list", Base: XS("int")}}}
		}},
		{"any", func() []Comp { return []Comp{{E: &Elem{Name: "head"}}} }},
		{"namesake", func() []Comp {
			return []Comp{{E: &Elem{Name: "Head", Type: T("Head")}}, {C: &Complex{Name: "Head", Content: Seq(El("in", XS("int"), ""))}}}
		}},
	}
	types := []struct {
		name string
		set  func(e *Elem)
	}{
		{"head's type", func(e *Elem) {}},
		{"own type", func(e *Elem) { e.Type = XS("date") }},
		{"own anonymous type", func(e *Elem) { e.InC = &Complex{Content: Seq(El("own", XS("int"), ""))} }},
		{"own anonymous simple type", func(e *Elem) { e.InS = Re("", XS("decimal"), Facet{"pattern", ".*"}) }},
	}
	users := []struct {
		name string
		make func(n string) []Comp
	}{
		{"none", func(n string) []Comp { return nil }},
		{"referred to", func(n string) []Comp {
			return []Comp{{C: &Complex{Name: "User", Content: Seq(ElE(&Elem{Ref: T(n)}), El("last", XS("int"), ""))}}}
		}},
		{"in a choice", func(n string) []Comp {
			return []Comp{{C: &Complex{Name: "User", Content: P("choice", "", El("first", XS("int"), ""), ElE(&Elem{Ref: T(n), Max: "unbounded"}))}}}
		}},
		{"in a group", func(n string) []Comp {
			return []Comp{{G: &Group{Name: "User", Content: Seq(ElE(&Elem{Ref: T(n), Min: "0"}))}}}
		}},
	}
	for _, h := range heads {
		for _, u := range users {
			var rec func(cur []int)
			rec = func(cur []int) {
				if len(cur) > 0 {
					c := append([]int{}, cur...)
					var names []string
					for _, i := range c {
						names = append(names, types[i].name)
					}
					comps := func() []Comp {
						cs := h.make()
						last := cs[0].E.Name
						for k, i := range c {
							e := &Elem{Name: "mem" + string(rune('A'+k)), Subst: T(last)}
							types[i].set(e)
							last = e.Name
							cs = append(cs, Comp{E: e})
						}
						return append(cs, u.make(last)...)
					}
					for _, order := range permutations(len(comps())) {
						emit(item(fmt.Sprintf("substitution group of %s: %s; last one %s, order %v", h.name, strings.Join(names, ", "), u.name, order), nil, false, func() []Comp {
							cs := comps()
							out := make([]Comp, len(cs))
							for at, k := range order {
								out[at] = cs[k]
							}
							return out
						}))
					}
				}
				if len(cur) < max {
					for i := range types {
						rec(append(cur, i))
					}
				}
			}
			rec(nil)
		}
	}
}
