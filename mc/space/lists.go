package space

import (
	"fmt"
	"strings"

	. "verif/mc/xsd"
)

// AttrLists enumerates lists of up to max attributes in every context: two
// types (so that neighbours are alike in it or not), required, optional,
// prohibited or with a default value, references to attributes and to groups
// of them, whose names come in either order.
func AttrLists(max int, emit func(Item)) {
	type kind struct {
		name string
		need string
		make func(k int) *Attr
	}
	// names in neither the order of the alphabet nor its reverse
	names := []string{"m", "d", "x", "a", "q"}
	var kinds []kind
	for _, t := range []string{"int", "string"} {
		for _, use := range []string{"", "required", "default"} {
			t, use := t, use
			kinds = append(kinds, kind{t + " " + use, "", func(k int) *Attr {
				if use == "default" {
					a := At(names[k], XS(t), "")
					a.Extra = [][2]string{{"default", "1"}}
					return a
				}
				return At(names[k], XS(t), use)
			}})
		}
	}
	kinds = append(kinds,
		kind{"HS", "HS", func(k int) *Attr { return At(names[k], T("HS"), "") }},
		kind{"ref", "HA", func(k int) *Attr { return &Attr{Ref: T("HA")} }},
		kind{"required ref", "HA", func(k int) *Attr { return &Attr{Ref: T("HA"), Use: "required"} }},
		kind{"group", "HAG", func(k int) *Attr { return &Attr{Group: T("HAG")} }},
		kind{"group AAG", "AAG", func(k int) *Attr { return &Attr{Group: T("AAG")} }},
		kind{"group ZAG", "ZAG", func(k int) *Attr { return &Attr{Group: T("ZAG")} }},
	)
	cxs := append(contexts[:len(contexts):len(contexts)], attrContexts...)
	for _, cx := range cxs {
		if cx.name == "group" {
			continue
		}
		var rec func(cur []int)
		rec = func(cur []int) {
			if len(cur) > 0 {
				c := append([]int{}, cur...)
				var ns []string
				needs := append([]string{}, cx.needs...)
				for _, i := range c {
					ns = append(ns, kinds[i].name)
					if n := kinds[i].need; n != "" && n[1:] != "AG" || n == "HAG" {
						needs = append(needs, n)
					}
				}
				cx := cx
				emit(item(cx.name+": attributes "+strings.Join(ns, ", "), needs, false, func() []Comp {
					var as []*Attr
					var cs []Comp
					for j, i := range c {
						as = append(as, kinds[i].make(j))
						if n := kinds[i].need; n == "AAG" || n == "ZAG" {
							cs = append(cs, Comp{AG: &AttrGroup{Name: n, Attrs: []*Attr{At(strings.ToLower(n[:1])+"2", XS("int"), ""), At(strings.ToLower(n[:1])+"1", XS("int"), "required")}}})
						}
					}
					return append(cx.make(nil, as), cs...)
				}))
			}
			if len(cur) == max {
				return
			}
			for i := range kinds {
				again := false
				for _, j := range cur {
					again = again || kinds[i].need != "" && kinds[i].need != "HS" && kinds[i].need == kinds[j].need
				}
				if !again {
					rec(append(cur, i))
				}
			}
		}
		rec(nil)
	}
}

// attrContexts are further owners of attributes.
var attrContexts = []struct {
	name  string
	needs []string
	make  func(content *Particle, attrs []*Attr) []Comp
}{
	{"attributeGroup", nil, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{AG: &AttrGroup{Name: "Ctx", Attrs: a}}}
	}},
	{"text", nil, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{C: &Complex{Name: "Ctx", Deriv: "simpleExt", Base: XS("date"), Attrs: a}}}
	}},
	{"content", nil, func(p *Particle, a []*Attr) []Comp {
		return []Comp{{C: &Complex{Name: "Ctx", Content: Seq(El("z", XS("int"), ""), El("e", XS("int"), "")), Attrs: a}}}
	}},
}

// ElemLists enumerates lists of up to max members of a content model over two
// types, the occurrence bounds, references and groups whose names come in
// either order.
func ElemLists(max int, emit func(Item)) {
	type kind struct {
		name string
		need string
		make func(k int) *Particle
	}
	names := []string{"m", "d", "x", "a", "q"}
	var kinds []kind
	for _, t := range []string{"int", "string"} {
		for _, min := range []string{"", "0"} {
			for _, o := range []string{"", "2"} {
				t, min, o := t, min, o
				kinds = append(kinds, kind{"elem " + t + min + o, "", func(k int) *Particle {
					return ElE(&Elem{Name: names[k], Type: XS(t), Min: min, Max: o})
				}})
			}
		}
	}
	for _, n := range []string{"AE", "ZE"} {
		n := n
		kinds = append(kinds, kind{"ref " + n, n, func(int) *Particle { return ElE(&Elem{Ref: T(n)}) }})
	}
	for _, n := range []string{"AG", "ZG"} {
		n := n
		kinds = append(kinds, kind{"group " + n, n, func(int) *Particle { return &Particle{Kind: "group", Ref: T(n)} }})
	}
	for _, cx := range contexts {
		for _, top := range []string{"sequence", "choice", "all"} {
			var rec func(cur []int)
			rec = func(cur []int) {
				if len(cur) > 0 {
					c := append([]int{}, cur...)
					var ns []string
					for _, i := range c {
						ns = append(ns, kinds[i].name)
					}
					cx, top := cx, top
					emit(item(cx.name+": "+top+" of "+strings.Join(ns, ", "), cx.needs, false, func() []Comp {
						p := P(top, "")
						var cs []Comp
						for j, i := range c {
							p.Kids = append(p.Kids, kinds[i].make(j))
							switch n := kinds[i].need; n {
							case "AE", "ZE":
								cs = append(cs, Comp{E: &Elem{Name: n, Type: XS("int")}})
							case "AG", "ZG":
								l := strings.ToLower(n[:1])
								cs = append(cs, Comp{G: &Group{Name: n, Content: Seq(El(l+"2", XS("int"), ""), El(l+"1", XS("int"), ""))}})
							}
						}
						return append(cx.make(p, nil), cs...)
					}))
				}
				if len(cur) == max {
					return
				}
				for i, k := range kinds {
					skip := top == "all" && (k.name[0] == 'g' || strings.HasSuffix(k.name, "2"))
					for _, j := range cur {
						skip = skip || i == j && k.need != ""
					}
					if !skip {
						rec(append(cur, i))
					}
				}
			}
			rec(nil)
		}
	}
}

// RelatedUnions enumerates unions of up to max types whose names are related:
// parts, beginnings and ends of one another.
func RelatedUnions(max int, emit func(Item)) {
	relatedUnions([]string{"A", "AType", "TypeA", "A1", "AA", "BA", "AList", "ATypes", "Int", "ZString"}, max, emit)
}

// CaseUnions enumerates unions of up to max types whose names differ in case
// and separators only.
func CaseUnions(max int, emit func(Item)) {
	relatedUnions([]string{"ab", "Ab", "AB", "aB", "a-b", "a.b", "A_B"}, max, emit)
}

func relatedUnions(names []string, max int, emit func(Item)) {
	bases := []string{"int", "string"}
	uses := []struct {
		name string
		make func() []Comp
	}{
		{"alone", func() []Comp { return nil }},
		{"held", func() []Comp {
			return []Comp{{C: &Complex{Name: "C", Content: Seq(El("a", T("U"), "2")), Attrs: []*Attr{At("b", T("U"), "")}}}}
		}},
		{"of elements", func() []Comp { return []Comp{{E: &Elem{Name: "El", Type: T("U")}}} }},
	}
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 1 {
			c := append([]int{}, cur...)
			var ns []string
			for _, i := range c {
				ns = append(ns, names[i])
			}
			for form := 0; form < 4; form++ {
				for _, u := range uses {
					same, last, u := form&1, form > 1, u
					emit(item(fmt.Sprintf("union of %s, one base %v, declared last %v, %s", strings.Join(ns, " "), same == 1, last, u.name), nil, false, func() []Comp {
						x := &Simple{Name: "U", Variety: "union"}
						cs := []Comp{{S: x}}
						if last {
							cs = nil
						}
						for j, i := range c {
							x.Members = append(x.Members, T(names[i]))
							if same == 1 {
								j = 0
							}
							cs = append(cs, Comp{S: Re(names[i], XS(bases[j%2]))})
						}
						if last {
							cs = append(cs, Comp{S: x})
						}
						return append(cs, u.make()...)
					}))
				}
			}
		}
		if len(cur) == max {
			return
		}
		for i := range names {
			again := false
			for _, j := range cur {
				again = again || i == j
			}
			if !again {
				rec(append(cur, i))
			}
		}
	}
	rec(nil)
}
