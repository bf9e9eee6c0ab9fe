package space

import (
	"fmt"

	. "verif/mc/xsd"
)

// enumTexts and enumNumbers are values of enumerations of the string and
// number types.
var (
	enumTexts = []string{"", " ", "a", "A", "a ", " a", "b", "1", "01", "-1", "1.0", "Enum", "Enum1", "EnumEnum1", "a b", "a-b", "a_b", "a.b", "a1", "1a", "é", "É", "'", "\"", "\\", "\\'", "<", "&", "$", "$a", "class", "NaN", "INF", "Infinity", "-INF", "true", "null", "0x1", "1e3", "日本", "//", "/*", "a,b", "}", "constructor"}
	enumInts  = []string{"0", "1", "2", "-1", "+1", "01", "007", "-01", "-0", "00", "10", "1000000000000000000000"}
	enumReals = []string{"0", "1", "-1", "+1", "01", "1.0", "1.", ".5", "-.5", "01.50", "1.50", "-1.5", "1e3", "1E3", "1E-3", "01e3", "INF", "-INF", "NaN"}
)

// Enumerations enumerates lists of up to max distinct values of an
// enumeration of every kind of base, in every order.
func Enumerations(max int, emit func(Item)) {
	for _, b := range []struct {
		base   string
		values []string
	}{{"string", enumTexts}, {"token", []string{"a", "A", "b", "1", "Enum1", "a b", "class"}}, {"NMTOKEN", []string{"a", "A", "1", "-1", "1.0", "Enum1", "a.b", "a:b"}}, {"HS", []string{"0", "1", "2", "01", "+1"}},
		{"int", enumInts}, {"decimal", []string{"0", "1", "-1", "+1", "01", "1.0", "1.", ".5", "-.5", "01.50"}}, {"double", enumReals}, {"date", []string{"2024-01-31", "2024-02-29Z"}}, {"anyURI", []string{"", "urn:a", "urn:A", "http://x/?a=b&c='d'"}}, {"unsignedByte", []string{"0", "255", "00", "+7"}}} {
		var rec func(cur []string)
		rec = func(cur []string) {
			if len(cur) > 0 {
				for pos := 0; pos < 4; pos++ {
					vs, pos, base := append([]string{}, cur...), pos, b.base
					emit(Item{Label: fmt.Sprintf("%s %q position %d", base, vs, pos), Schema: func() *Schema {
						r := XS(base)
						s := &Schema{}
						if base == "HS" {
							r = T("HS")
							s.Comps = []Comp{{S: Re("HS", XS("int"))}}
						}
						t := Re("X", r, Enum(vs...)...)
						switch pos {
						case 0:
							s.Comps = append(s.Comps, Comp{S: t})
						case 1: // before its base, and with other facets
							t.Facets = append([]Facet{{"whiteSpace", "collapse"}}, t.Facets...)
							s.Comps = append([]Comp{{S: t}}, s.Comps...)
						case 2:
							t.Name = ""
							s.Comps = append(s.Comps, Comp{C: &Complex{Name: "C", Content: Seq(ElE(&Elem{Name: "x", InS: t})), Attrs: []*Attr{At("y", XS("date"), "")}}})
						case 3:
							s.Comps = append(s.Comps, Comp{S: t}, Comp{S: Re("Y", T("X"), Enum(vs[:1]...)...)}, Comp{E: &Elem{Name: "el", Type: T("Y")}})
						}
						return s
					}})
				}
			}
			if len(cur) == max || len(cur) > 1 && len(b.values) > 20 {
				return
			}
		values:
			for _, v := range b.values {
				for _, w := range cur {
					if v == w {
						continue values
					}
				}
				rec(append(cur[:len(cur):len(cur)], v))
			}
		}
		rec(nil)
	}
}
