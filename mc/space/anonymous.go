package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// Anonymous enumerates schemas in which up to max places have local elements of
// the given name, with types of their own, next to a global component that may
// have that name too, in all orders of the components.
func Anonymous(name string, max int, emit func(Item)) {
	own := func(n string) *Complex {
		return &Complex{Content: Seq(El("in"+n, XS("int"), "")), Attrs: []*Attr{At("at"+n, XS("date"), "")}}
	}
	item1 := func(n string) *Particle { return ElE(&Elem{Name: name, InC: own(n)}) }
	owners := []struct {
		name string
		only string // the namesakes it takes
		make func(n string) Comp
	}{
		{"type", "", func(n string) Comp { return Comp{C: &Complex{Name: "Own" + n, Content: Seq(item1(n))}} }},
		{"repeated", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: P("choice", "unbounded", El("first", XS("int"), ""), item1(n)), Attrs: []*Attr{At("last", XS("int"), "")}}}
		}},
		{"group", "", func(n string) Comp { return Comp{G: &Group{Name: "Own" + n, Content: Seq(item1(n))}} }},
		{"element", "", func(n string) Comp { return Comp{E: &Elem{Name: "own" + n, InC: &Complex{Content: Seq(item1(n))}}} }},
		{"in itself", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(ElE(&Elem{Name: name, InC: &Complex{Content: Seq(item1(n), El("last"+n, XS("int"), ""))}}))}}
		}},
		{"below another", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(ElE(&Elem{Name: "wrap" + n, InC: &Complex{Content: Seq(item1(n))}}), ElE(&Elem{Name: name, InC: &Complex{Content: Seq(El("near"+n, XS("int"), ""))}}))}}
		}},
		{"empty", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(ElE(&Elem{Name: name, InC: &Complex{}}))}}
		}},
		{"numbered", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(ElE(&Elem{Name: name + "2", InC: own(n)}))}}
		}},
		{"simple", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(ElE(&Elem{Name: name, InS: Re("", XS("int"), Facet{"maxInclusive", "3"})}))}}
		}},
		{"attribute", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Attrs: []*Attr{{Name: name, Inline: Re("", XS("boolean"), Facet{"pattern", ".*"})}}}}
		}},
		{"typed", "", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(El(name, XS("int"), ""))}}
		}},
		{"of the namesake's type", "type", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(El("mem", T(name), ""))}}
		}},
		{"reference", "element", func(n string) Comp {
			return Comp{C: &Complex{Name: "Own" + n, Content: Seq(ElE(&Elem{Ref: T(name)}))}}
		}},
	}
	namesakes := []struct {
		name string
		kind string
		make func() []Comp
	}{
		{"none", "", func() []Comp { return nil }},
		{"complex type", "type", func() []Comp {
			return []Comp{{C: &Complex{Name: name, Content: Seq(El("glob", XS("int"), ""))}}}
		}},
		{"simple type", "type", func() []Comp { return []Comp{{S: Re(name, XS("boolean"), Facet{"pattern", ".*"})}} }},
		{"element", "element", func() []Comp { return []Comp{{E: &Elem{Name: name, Type: XS("boolean")}}} }},
		{"element with a type of its own", "element", func() []Comp {
			return []Comp{{E: &Elem{Name: name, InC: &Complex{Content: Seq(El("glob", XS("int"), ""))}}}}
		}},
		{"attribute", "", func() []Comp { return []Comp{{A: &Attr{Name: name, Type: XS("boolean")}}} }},
		{"group", "", func() []Comp { return []Comp{{G: &Group{Name: name, Content: Seq(El("glob", XS("int"), ""))}}} }},
		{"numbered type", "", func() []Comp {
			return []Comp{{C: &Complex{Name: name + "2", Content: Seq(El("glob", XS("int"), ""))}}}
		}},
	}
	for _, s := range namesakes {
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) > 0 {
				c := append([]int{}, cur...)
				var names []string
				for _, i := range c {
					names = append(names, owners[i].name)
				}
				for _, order := range permutations(len(c) + len(s.make())) {
					emit(item(fmt.Sprintf("elements %s with types of their own: %s; namesake: %s, order %v", name, strings.Join(names, ", "), s.name, order), nil, false, func() []Comp {
						cs := s.make()
						for k, i := range c {
							cs = append(cs, owners[i].make(string(rune('A'+k))))
						}
						out := make([]Comp, len(cs))
						for at, k := range order {
							out[at] = cs[k]
						}
						return out
					}))
				}
			}
			if len(cur) == max {
				return
			}
			first := 0
			if len(cur) > 0 {
				first = cur[len(cur)-1] // the orders are enumerated
			}
			for i := first; i < len(owners); i++ {
				if owners[i].only == "" || owners[i].only == s.kind {
					rec(append(cur, i))
				}
			}
		}
		rec(nil)
	}
}
