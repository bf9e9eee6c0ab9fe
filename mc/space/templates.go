// Package space enumerates the bounded families of abstract schemas.
package space

import (
	"fmt"

	. "verif/mc/xsd"
)

// El is a local element particle.
func El(name string, t Ref, max string) *Particle {
	return &Particle{Kind: "elem", E: &Elem{Name: name, Type: t, Max: max}}
}

// ElE wraps an element.
func ElE(e *Elem) *Particle { return &Particle{Kind: "elem", E: e} }

// Seq is a sequence; P builds any compositor.
func Seq(k ...*Particle) *Particle { return P("sequence", "", k...) }

// P is a compositor.
func P(kind, max string, k ...*Particle) *Particle {
	return &Particle{Kind: kind, Max: max, Kids: k}
}

// At is an attribute.
func At(name string, t Ref, use string) *Attr { return &Attr{Name: name, Type: t, Use: use} }

// Re is a restriction.
func Re(name string, base Ref, f ...Facet) *Simple {
	return &Simple{Name: name, Variety: "restriction", Base: base, Facets: f}
}

// Enum facets.
func Enum(v ...string) (f []Facet) {
	for _, x := range v {
		f = append(f, Facet{"enumeration", x})
	}
	return
}

// Helpers are the components the templates refer to.
var helpers = map[string]func() Comp{
	"HS":  func() Comp { return Comp{S: Re("HS", XS("short"))} },
	"HT":  func() Comp { return Comp{S: Re("HT", T("HS"))} },
	"HL":  func() Comp { return Comp{S: &Simple{Name: "HL", Variety: "list", Base: XS("long")}} },
	"HU":  func() Comp { return Comp{S: &Simple{Name: "HU", Variety: "union", Members: []Ref{T("HS"), T("HT")}}} },
	"HC":  func() Comp { return Comp{C: &Complex{Name: "HC", Content: Seq(El("hx", XS("boolean"), ""))}} },
	"HE":  func() Comp { return Comp{E: &Elem{Name: "HE", Type: XS("float")}} },
	"HF":  func() Comp { return Comp{E: &Elem{Name: "HF", Type: T("HC")}} },
	"HA":  func() Comp { return Comp{A: &Attr{Name: "HA", Type: XS("token")}} },
	"HG":  func() Comp { return Comp{G: &Group{Name: "HG", Content: Seq(El("gx", XS("double"), ""))}} },
	"HAG": func() Comp { return Comp{AG: &AttrGroup{Name: "HAG", Attrs: []*Attr{At("gy", XS("int"), "")}}} },
}

var helperOrder = []string{"HS", "HT", "HL", "HU", "HC", "HE", "HF", "HA", "HG", "HAG"}
var helperNeeds = map[string][]string{"HT": {"HS"}, "HU": {"HS", "HT"}, "HF": {"HC"}}

// Closure computes the helper components needed by refs, in a fixed order or
// reversed.
func Closure(need []string, rev bool) (cs []Comp) {
	want := map[string]bool{}
	var add func(string)
	add = func(n string) {
		if !want[n] {
			want[n] = true
			for _, m := range helperNeeds[n] {
				add(m)
			}
		}
	}
	for _, n := range need {
		add(n)
	}
	for _, n := range helperOrder {
		if want[n] {
			cs = append(cs, helpers[n]())
		}
	}
	if rev {
		for i, j := 0, len(cs)-1; i < j; i, j = i+1, j-1 {
			cs[i], cs[j] = cs[j], cs[i]
		}
	}
	return
}

// Template of a component; Make gets a suffix that keeps names distinct.
type Template struct {
	Name  string
	Needs []string
	Make  func(k string) Comp
}

// Templates for top-level components.
func Templates() []Template {
	n := func(s ...string) []string { return s }
	c := func(name string, need []string, f func(k string) *Complex) Template {
		return Template{"complexType " + name, need, func(k string) Comp { x := f(k); x.Name = "C" + k; return Comp{C: x} }}
	}
	s := func(name string, need []string, f func(k string) *Simple) Template {
		return Template{"simpleType " + name, need, func(k string) Comp { x := f(k); x.Name = "S" + k; return Comp{S: x} }}
	}
	e := func(name string, need []string, f func(k string) *Elem) Template {
		return Template{"element " + name, need, func(k string) Comp { x := f(k); x.Name = "e" + k; return Comp{E: x} }}
	}
	return []Template{
		s("int", nil, func(k string) *Simple { return Re("", XS("int")) }),
		s("enum", nil, func(k string) *Simple { return Re("", XS("string"), Enum("red", "green")...) }),
		s("pattern+length", nil, func(k string) *Simple {
			return Re("", XS("string"), Facet{"pattern", "[a-z]+"}, Facet{"maxLength", "7"})
		}),
		s("of HS", n("HS"), func(k string) *Simple { return Re("", T("HS"), Facet{"minInclusive", "1"}) }),
		s("of HL", n("HL"), func(k string) *Simple { return Re("", T("HL")) }),
		s("inline base", nil, func(k string) *Simple {
			return &Simple{Variety: "restriction", InBase: Re("", XS("byte")), Facets: []Facet{{"maxInclusive", "9"}}}
		}),
		s("list int", nil, func(k string) *Simple { return &Simple{Variety: "list", Base: XS("int")} }),
		s("list HS", n("HS"), func(k string) *Simple { return &Simple{Variety: "list", Base: T("HS")} }),
		s("list inline", nil, func(k string) *Simple { return &Simple{Variety: "list", InBase: Re("", XS("short"))} }),
		s("union", n("HS", "HL"), func(k string) *Simple {
			return &Simple{Variety: "union", Members: []Ref{XS("boolean"), T("HS"), T("HL")}}
		}),
		s("union inline", nil, func(k string) *Simple {
			return &Simple{Variety: "union", InMem: []*Simple{Re("", XS("int")), Re("", XS("string"), Enum("none")...)}}
		}),

		c("empty", nil, func(k string) *Complex { return &Complex{} }),
		c("sequence", n("HC", "HS"), func(k string) *Complex {
			return &Complex{Content: Seq(El("a"+k, XS("int"), ""), El("b"+k, T("HC"), "unbounded"), El("c"+k, T("HS"), ""))}
		}),
		c("choice", n("HC"), func(k string) *Complex {
			return &Complex{Content: P("choice", "unbounded", El("a"+k, XS("int"), ""), El("b"+k, T("HC"), ""))}
		}),
		c("all+attr", nil, func(k string) *Complex {
			return &Complex{Content: P("all", "", El("a"+k, XS("date"), ""), El("b"+k, XS("string"), "")), Attrs: []*Attr{At("p"+k, XS("int"), "required")}}
		}),
		c("attributes", n("HS", "HA"), func(k string) *Complex {
			return &Complex{Attrs: []*Attr{At("p"+k, XS("int"), "required"), At("q"+k, T("HS"), ""), {Ref: T("HA")}}}
		}),
		c("simpleContent", nil, func(k string) *Complex {
			return &Complex{Deriv: "simpleExt", Base: XS("string"), Attrs: []*Attr{At("p"+k, XS("int"), "")}}
		}),
		c("simpleContent HS", n("HS"), func(k string) *Complex {
			return &Complex{Deriv: "simpleExt", Base: T("HS"), Attrs: []*Attr{At("p"+k, XS("int"), "")}}
		}),
		c("extension", n("HC"), func(k string) *Complex {
			return &Complex{Deriv: "complexExt", Base: T("HC"), Content: Seq(El("a"+k, XS("int"), ""))}
		}),
		c("restriction", n("HC"), func(k string) *Complex {
			return &Complex{Deriv: "complexRestr", Base: T("HC"), Content: Seq(El("a"+k, XS("boolean"), ""))}
		}),
		c("group+agroup", n("HG", "HAG"), func(k string) *Complex {
			return &Complex{Content: Seq(&Particle{Kind: "group", Ref: T("HG")}, El("a"+k, XS("int"), "")), Attrs: []*Attr{{Group: T("HAG")}, At("p"+k, XS("string"), "")}}
		}),
		c("ref", n("HE", "HF"), func(k string) *Complex {
			return &Complex{Content: Seq(ElE(&Elem{Ref: T("HE")}), ElE(&Elem{Ref: T("HF"), Max: "unbounded"}))}
		}),
		c("local simple", nil, func(k string) *Complex {
			return &Complex{Content: Seq(El("a"+k, XS("int"), ""), ElE(&Elem{Name: "b" + k, InS: Re("", XS("string"), Enum("x", "y")...)}), El("c"+k, XS("long"), ""))}
		}),
		c("local simple plain", nil, func(k string) *Complex {
			return &Complex{Content: Seq(ElE(&Elem{Name: "b" + k, Max: "3", InS: Re("", XS("decimal"))}), El("c"+k, XS("long"), ""))}
		}),
		c("local complex", n("HS"), func(k string) *Complex {
			return &Complex{Content: Seq(El("a"+k, XS("int"), ""),
				ElE(&Elem{Name: "B" + k, InC: &Complex{Content: Seq(El("d"+k, XS("long"), ""), El("f"+k, T("HS"), "")), Attrs: []*Attr{At("r"+k, XS("int"), "required")}}}),
				El("c"+k, XS("long"), "")), Attrs: []*Attr{At("p"+k, XS("string"), "")}}
		}),
		c("local attr simple", nil, func(k string) *Complex {
			return &Complex{Content: Seq(El("a"+k, XS("int"), "")), Attrs: []*Attr{{Name: "p" + k, Inline: Re("", XS("string"), Enum("x")...)}, {Name: "q" + k, Use: "required", Inline: Re("", XS("int"))}}}
		}),
		c("any", nil, func(k string) *Complex {
			return &Complex{Mixed: true, Content: Seq(&Particle{Kind: "any", Max: "unbounded"}, El("a"+k, XS("int"), "")), AnyAttr: true}
		}),
		c("untyped", nil, func(k string) *Complex {
			return &Complex{Content: Seq(El("a"+k, Ref{}, ""), El("b"+k, XS("int"), "2"))}
		}),

		e("builtin", nil, func(k string) *Elem { return &Elem{Type: XS("double")} }),
		e("HS", n("HS"), func(k string) *Elem { return &Elem{Type: T("HS")} }),
		e("HC", n("HC"), func(k string) *Elem { return &Elem{Type: T("HC")} }),
		e("HL", n("HL"), func(k string) *Elem { return &Elem{Type: T("HL")} }),
		e("anonymous", n("HC"), func(k string) *Elem {
			return &Elem{InC: &Complex{Content: Seq(El("a"+k, XS("int"), ""), El("b"+k, T("HC"), "unbounded")), Attrs: []*Attr{At("p"+k, XS("int"), "")}}}
		}),
		e("anonymous empty", nil, func(k string) *Elem { return &Elem{InC: &Complex{}} }),
		e("anonymous simpleContent", nil, func(k string) *Elem {
			return &Elem{InC: &Complex{Deriv: "simpleExt", Base: XS("decimal"), Attrs: []*Attr{At("p"+k, XS("int"), "")}}}
		}),
		e("nested anonymous", nil, func(k string) *Elem {
			return &Elem{InC: &Complex{Content: Seq(
				ElE(&Elem{Name: "F" + k, Max: "unbounded", InC: &Complex{Content: Seq(El("a"+k, XS("int"), ""))}}),
				El("b"+k, XS("boolean"), ""),
				ElE(&Elem{Name: "G" + k, InC: &Complex{Content: Seq(El("c"+k, XS("string"), ""))}}))}}
		}),
		e("inline simple", nil, func(k string) *Elem { return &Elem{InS: Re("", XS("int"))} }),
		e("inline enum", nil, func(k string) *Elem { return &Elem{InS: Re("", XS("string"), Enum("u", "v")...)} }),
		e("untyped", nil, func(k string) *Elem { return &Elem{} }),

		{"attribute builtin", nil, func(k string) Comp { return Comp{A: At("at"+k, XS("boolean"), "")} }},
		{"attribute HS", n("HS"), func(k string) Comp { return Comp{A: At("at"+k, T("HS"), "")} }},
		{"attribute inline", nil, func(k string) Comp {
			return Comp{A: &Attr{Name: "at" + k, Inline: Re("", XS("string"), Enum("m", "n")...)}}
		}},

		{"group", n("HC", "HS"), func(k string) Comp {
			return Comp{G: &Group{Name: "G" + k, Content: Seq(El("a"+k, XS("int"), ""), El("b"+k, T("HC"), "unbounded"), El("c"+k, T("HS"), ""))}}
		}},
		{"group choice", nil, func(k string) Comp {
			return Comp{G: &Group{Name: "G" + k, Content: P("choice", "", El("a"+k, XS("date"), ""), El("b"+k, XS("base64Binary"), ""))}}
		}},
		{"group nested", n("HG"), func(k string) Comp {
			return Comp{G: &Group{Name: "G" + k, Content: Seq(El("a"+k, XS("int"), ""), &Particle{Kind: "group", Ref: T("HG")}, El("b"+k, XS("string"), ""))}}
		}},
		{"group local simple", nil, func(k string) Comp {
			return Comp{G: &Group{Name: "G" + k, Content: Seq(ElE(&Elem{Name: "a" + k, InS: Re("", XS("int"))}), El("b"+k, XS("string"), ""))}}
		}},
		{"group local complex", nil, func(k string) Comp {
			return Comp{G: &Group{Name: "G" + k, Content: Seq(ElE(&Elem{Name: "A" + k, InC: &Complex{Content: Seq(El("c"+k, XS("int"), ""))}}), El("b"+k, XS("string"), ""))}}
		}},

		{"attributeGroup", n("HS"), func(k string) Comp {
			return Comp{AG: &AttrGroup{Name: "K" + k, Attrs: []*Attr{At("p"+k, XS("int"), "required"), At("q"+k, XS("string"), ""), At("r"+k, T("HS"), "")}}}
		}},
		{"attributeGroup inline", nil, func(k string) Comp {
			return Comp{AG: &AttrGroup{Name: "K" + k, Attrs: []*Attr{{Name: "p" + k, Inline: Re("", XS("string"), Enum("x")...)}, At("q"+k, XS("string"), "")}}}
		}},
		{"attributeGroup nested", n("HAG"), func(k string) Comp {
			return Comp{AG: &AttrGroup{Name: "K" + k, Attrs: []*Attr{At("p"+k, XS("int"), ""), {Group: T("HAG")}, At("q"+k, XS("string"), "")}}}
		}},
	}
}

// Item of a schema family.
type Item struct {
	Label  string
	Schema func() *Schema
}

// Sequences of up to max templates, with the helpers they need after or before
// them.
func Sequences(max int, rev bool, emit func(Item)) {
	ts := Templates()
	var rec func(cur []int)
	rec = func(cur []int) {
		if len(cur) > 0 {
			c := append([]int{}, cur...)
			for pos := 0; pos < 2; pos++ {
				pos := pos
				need := false
				for _, i := range c {
					need = need || len(ts[i].Needs) > 0
				}
				if pos == 1 && !need {
					continue
				}
				emit(Item{Label: label(ts, c, pos), Schema: func() *Schema {
					s := &Schema{}
					var needs []string
					for j, i := range c {
						s.Comps = append(s.Comps, ts[i].Make(fmt.Sprint(j+1)))
						needs = append(needs, ts[i].Needs...)
					}
					h := Closure(needs, rev)
					if pos == 0 {
						s.Comps = append(s.Comps, h...)
					} else {
						s.Comps = append(h, s.Comps...)
					}
					return s
				}})
			}
		}
		if len(cur) == max {
			return
		}
		for i := range ts {
			rec(append(cur, i))
		}
	}
	rec(nil)
}

func label(ts []Template, c []int, pos int) string {
	l := ""
	for _, i := range c {
		l += ts[i].Name + "; "
	}
	return l + []string{"helpers last", "helpers first"}[pos]
}
