package space

import (
	"sort"
	"strings"

	"verif/mc/read"
	. "verif/mc/xsd"
)

// Names of up to max characters over an alphabet with one or two members of
// every character class.
func Names(max int) (l []string) {
	cur := []string{"a", "A", "_"}
	l = append(l, cur...)
	for n := 1; n < max; n++ {
		var next []string
		for _, s := range cur {
			for _, c := range []string{"a", "A", "1", ".", "-", "_"} {
				next = append(next, s+c)
			}
		}
		l = append(l, next...)
		cur = next
	}
	return
}

// Letters are names with letters beyond ASCII, of both cases and none.
func Letters() []string {
	return strings.Fields("é É éa aé É1 é-é é.É é_é ß ßa aß Straße straße überGabe ÜberGabe größe ñ Ñ ŉa ŀ İ ı Iı 日 日本 日-本 日.本 a日 _日 _é _É Ωμέγα ώ Ж жук Жук жУк ﬁ ǆ ǅ Ǆ ª º अ א")
}

// Words are the reserved words of all languages in several spellings, and the
// names of the built-in types of XML Schema and the languages.
func Words() (l []string) {
	seen := map[string]bool{}
	add := func(w string) {
		if w != "" && !seen[w] {
			seen[w] = true
			l = append(l, w)
		}
	}
	for _, g := range read.Langs {
		for _, w := range read.ReservedWords(g.Name) {
			add(w)
			add(strings.ToUpper(w[:1]) + w[1:])
			add(w + "-" + w)
			add(w + ".")
			add(w + "_")
		}
	}
	for _, w := range strings.Fields("string int Int long float double char bool byte String Integer Long Float Boolean Byte Short List Vec Option Array Uint8Array Any any number boolean uint8 time xml Time Name QName date decimal self Self str u8 XMLName Value XmlValue XmlType interface error nil iota main init") {
		add(w)
	}
	sort.Strings(l)
	return
}

// NameKind is a kind of component whose name is enumerated. Mark is the local
// name of its only member or "" if it is recognised by its type.
type NameKind struct {
	Name string
	Make func(name, mark string, t Ref) Comp
	// Use refers to the component, nil if nothing in the output can name it.
	Use func(name, memb string) (p *Particle, a *Attr)
}

func elUse(name, memb string) (*Particle, *Attr) { return El(memb, T(name), ""), nil }

// NameKinds of components.
func NameKinds() []NameKind {
	return []NameKind{
		{"complexType", func(n, m string, t Ref) Comp { return Comp{C: &Complex{Name: n, Content: Seq(El(m, t, ""))}} }, elUse},
		{"element", func(n, m string, t Ref) Comp {
			return Comp{E: &Elem{Name: n, InC: &Complex{Content: Seq(El(m, t, ""))}}}
		}, func(n, m string) (*Particle, *Attr) { return ElE(&Elem{Ref: T(n)}), nil }},
		{"group", func(n, m string, t Ref) Comp { return Comp{G: &Group{Name: n, Content: Seq(El(m, t, ""))}} },
			func(n, m string) (*Particle, *Attr) { return &Particle{Kind: "group", Ref: T(n)}, nil }},
		{"attributeGroup", func(n, m string, t Ref) Comp { return Comp{AG: &AttrGroup{Name: n, Attrs: []*Attr{At(m, t, "")}}} },
			func(n, m string) (*Particle, *Attr) { return nil, &Attr{Group: T(n)} }},
		{"list", func(n, m string, t Ref) Comp { return Comp{S: &Simple{Name: n, Variety: "list", Base: t}} }, elUse},
		{"union", func(n, m string, t Ref) Comp {
			return Comp{S: &Simple{Name: n, Variety: "union", Members: []Ref{t}}}
		}, elUse},
		{"restriction", func(n, m string, t Ref) Comp { return Comp{S: Re(n, t)} }, elUse},
		{"enumeration", func(n, m string, t Ref) Comp { return Comp{S: Re(n, t, Enum("1", "2")...)} }, elUse},
		{"simple element", func(n, m string, t Ref) Comp { return Comp{E: &Elem{Name: n, Type: t}} },
			func(n, m string) (*Particle, *Attr) { return ElE(&Elem{Ref: T(n)}), nil }},
		{"attribute", func(n, m string, t Ref) Comp { return Comp{A: At(n, t, "")} },
			func(n, m string) (*Particle, *Attr) { return nil, &Attr{Ref: T(n)} }},
	}
}
