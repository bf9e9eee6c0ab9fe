package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// Namesakes enumerates schemas with elements that have the name of their type,
// used by up to max other components, in all orders of the components.
func Namesakes(max int, emit func(Item)) {
	types := []struct {
		name    string
		complex bool
		make    func() Comp
	}{
		{"empty", true, func() Comp { return Comp{C: &Complex{Name: "Nam"}} }},
		{"complex", true, func() Comp {
			return Comp{C: &Complex{Name: "Nam", Content: Seq(El("in", XS("int"), "")), Attrs: []*Attr{At("at", XS("date"), "")}}}
		}},
		{"recursive", true, func() Comp {
			return Comp{C: &Complex{Name: "Nam", Content: Seq(El("in", XS("int"), ""), ElE(&Elem{Ref: T("Nam"), Min: "0", Max: "unbounded"}))}}
		}},
		{"simple content", true, func() Comp {
			return Comp{C: &Complex{Name: "Nam", Deriv: "simpleExt", Base: XS("int"), Attrs: []*Attr{At("at", XS("date"), "")}}}
		}},
		{"restriction", false, func() Comp { return Comp{S: Re("Nam", XS("int"), Facet{"maxInclusive", "3"})} }},
		{"enumeration", false, func() Comp { return Comp{S: Re("Nam", XS("string"), Enum("x", "y")...)} }},
		{"list", false, func() Comp { return Comp{S: &Simple{Name: "Nam", Variety: "list", Base: XS("int")}} }},
		{"union", false, func() Comp {
			return Comp{S: &Simple{Name: "Nam", Variety: "union", Members: []Ref{XS("int"), XS("boolean")}}}
		}},
	}
	users := []struct {
		name string
		only int // 1: complex types only, 2: simple types only
		make func(n string) Comp
	}{
		{"reference", 0, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Content: Seq(ElE(&Elem{Ref: T("Nam")}), El("last", XS("int"), ""))}}
		}},
		{"references", 0, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Content: P("choice", "", El("first", XS("int"), ""), ElE(&Elem{Ref: T("Nam"), Max: "unbounded"}))}}
		}},
		{"member", 0, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Content: Seq(El("mem", T("Nam"), "2"))}}
		}},
		{"own member", 0, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Content: Seq(El("Nam", T("Nam"), ""), El("last", XS("int"), ""))}}
		}},
		{"element", 0, func(n string) Comp { return Comp{E: &Elem{Name: "us" + n, Type: T("Nam")}} }},
		{"anonymous", 0, func(n string) Comp {
			return Comp{E: &Elem{Name: "us" + n, InC: &Complex{Content: Seq(ElE(&Elem{Ref: T("Nam")}))}}}
		}},
		{"extension", 1, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Deriv: "complexExt", Base: T("Nam"), Content: Seq(El("more", XS("int"), ""))}}
		}},
		{"attribute", 2, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Attrs: []*Attr{At("at", T("Nam"), "")}}}
		}},
		{"alias", 2, func(n string) Comp { return Comp{S: Re("Us"+n, T("Nam"))} }},
		{"simple content", 2, func(n string) Comp {
			return Comp{C: &Complex{Name: "Us" + n, Deriv: "simpleExt", Base: T("Nam"), Attrs: []*Attr{At("more", XS("int"), "")}}}
		}},
		{"group", 0, func(n string) Comp {
			return Comp{G: &Group{Name: "Us" + n, Content: Seq(ElE(&Elem{Ref: T("Nam"), Max: "unbounded"}))}}
		}},
	}
	for _, t := range types {
		var rec func(cur []int)
		rec = func(cur []int) {
			c := append([]int{}, cur...)
			var names []string
			for _, i := range c {
				names = append(names, users[i].name)
			}
			for _, order := range permutations(len(c) + 2) {
				emit(item(fmt.Sprintf("element of its type's name: %s, used by %s, order %v", t.name, strings.Join(names, ", "), order), nil, false, func() []Comp {
					cs := []Comp{{E: &Elem{Name: "Nam", Type: T("Nam")}}, t.make()}
					for k, i := range c {
						cs = append(cs, users[i].make(string(rune('A'+k))))
					}
					out := make([]Comp, len(cs))
					for at, k := range order {
						out[at] = cs[k]
					}
					return out
				}))
			}
			if len(cur) == max {
				return
			}
			for i, u := range users {
				if u.only == 1 && (!t.complex || t.name == "simple content") || u.only == 2 && t.complex {
					continue
				}
				if u.name == "simple content" && t.name == "recursive" {
					continue
				}
				rec(append(cur, i))
			}
		}
		rec(nil)
	}
}
