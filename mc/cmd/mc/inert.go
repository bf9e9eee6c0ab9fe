package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/space"
	"verif/mc/xsd"
)

// inert are the attributes XML Schema allows on its elements that say nothing
// about the names, types, members and occurrences of a schema: constraints on
// values, on derivation and substitution, identifiers. A name with a prefix of
// the place stands for "global" and "local" declarations only.
var inert = map[string][][2]string{
	"schema":              {{"version", "1.0"}, {"version", "unbounded"}, {"elementFormDefault", "qualified"}, {"elementFormDefault", "unqualified"}, {"attributeFormDefault", "qualified"}, {"attributeFormDefault", "unqualified"}, {"blockDefault", "#all"}, {"finalDefault", "extension restriction"}, {"finalDefault", "#all"}},
	"global element":      {{"default", ""}, {"default", "x"}, {"default", "xs:int"}, {"fixed", "0"}, {"fixed", ""}, {"nillable", "true"}, {"nillable", "false"}, {"abstract", "true"}, {"abstract", "false"}, {"block", "#all"}, {"block", "substitution"}, {"final", "#all"}, {"final", "restriction"}},
	"local element":       {{"default", ""}, {"default", "x"}, {"default", "unbounded"}, {"fixed", "0"}, {"fixed", ""}, {"nillable", "true"}, {"nillable", "1"}, {"nillable", "false"}, {"form", "qualified"}, {"form", "unqualified"}, {"block", "#all"}, {"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}},
	"reference element":   {{"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}},
	"global attribute":    {{"default", ""}, {"default", "x"}, {"default", "required"}, {"fixed", "0"}, {"fixed", ""}},
	"local attribute":     {{"default", ""}, {"default", "x"}, {"default", "required"}, {"fixed", "0"}, {"fixed", ""}, {"fixed", "required"}, {"form", "qualified"}, {"form", "unqualified"}, {"use", "optional"}},
	"reference attribute": {{"default", ""}, {"default", "x"}, {"fixed", "0"}, {"fixed", "required"}, {"use", "optional"}},
	"simpleType":          {{"final", "#all"}, {"final", "list"}, {"final", "union"}, {"final", "restriction"}},
	"complexType":         {{"abstract", "true"}, {"abstract", "false"}, {"block", "#all"}, {"final", "#all"}, {"final", "extension"}, {"mixed", "false"}},
	"complexContent":      {{"mixed", "false"}},
	"sequence":            {{"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}},
	"choice":              {{"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}},
	"all":                 {{"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}},
	"reference group":     {{"minOccurs", "0"}, {"minOccurs", "1"}, {"maxOccurs", "1"}},
	"any":                 {{"namespace", "##any"}, {"namespace", "##other"}, {"namespace", "##targetNamespace urn:q"}, {"processContents", "lax"}, {"processContents", "skip"}, {"minOccurs", "0"}},
	"anyAttribute":        {{"namespace", "##any"}, {"namespace", "##local"}, {"processContents", "skip"}},
	"annotation":          {},
	"documentation":       {{"source", "urn:d"}, {"xml:lang", "en"}},
	"restriction":         {}, "extension": {}, "list": {}, "union": {}, "simpleContent": {}, "attributeGroup": {}, "global group": {},
}

func init() {
	for _, f := range strings.Fields("minInclusive maxInclusive minExclusive maxExclusive length minLength maxLength totalDigits fractionDigits whiteSpace") {
		inert[f] = [][2]string{{"fixed", "true"}, {"fixed", "false"}}
	}
	inert["enumeration"] = nil
	inert["pattern"] = nil
	for k := range inert {
		if k != "documentation" {
			inert[k] = append(inert[k], [2]string{"id", "ID"}, [2]string{"id", "name"})
		}
	}
}

// standing of a node: which entry of the table applies.
func standing(x, parent *xsd.X) string {
	switch x.Name {
	case "element", "attribute", "group":
		for _, a := range x.Attrs {
			if a.Name == "ref" {
				return "reference " + x.Name
			}
		}
		if parent != nil && parent.Name == "schema" {
			return "global " + x.Name
		}
		return "local " + x.Name
	}
	return x.Name
}

func hasAttr(x *xsd.X, name string) bool {
	for _, a := range x.Attrs {
		if a.Name == name {
			return true
		}
	}
	return false
}

// addInert adds an attribute to a node; false if it is there already or the two
// may not stand together.
func addInert(x *xsd.X, a [2]string, n *int) bool {
	if hasAttr(x, a[0]) || a[0] == "default" && (hasAttr(x, "fixed") || x.Attr("use") == "required") || a[0] == "fixed" && hasAttr(x, "default") {
		return false
	}
	if a[0] == "abstract" && x.Attr("name") == "" || a[0] == "final" && x.Attr("name") == "" || a[0] == "block" && x.Name == "complexType" && x.Attr("name") == "" {
		return false
	}
	v := a[1]
	if a[0] == "id" && v == "ID" {
		*n++
		v = fmt.Sprint("i", *n)
	}
	x.Attrs = append([]xsd.XAttr{{Name: a[0], Val: v}}, x.Attrs...)
	return true
}

// inertKids are the elements XML Schema allows that say nothing about names,
// types, members and occurrences: by what they stand in, as a name and a
// function that adds them. Names are those of the first component, which has a
// symbol space of its own.
var inertKids = []struct {
	in, name string
	kid      func(name string, n *int) *xsd.X
	first    bool
}{
	{"schema", "notation", func(name string, n *int) *xsd.X { return x("notation", "name", name, "public", "p") }, true},
	{"schema", "notation at the end", func(name string, n *int) *xsd.X { return x("notation", "name", name, "public", "p", "system", "s") }, false},
	{"element", "unique", func(name string, n *int) *xsd.X { return identity("unique", n) }, false},
	{"element", "key", func(name string, n *int) *xsd.X { return identity("key", n) }, false},
	{"element", "key and keyref", func(name string, n *int) *xsd.X {
		k := identity("key", n)
		r := identity("keyref", n)
		r.Attrs = append(r.Attrs, xsd.XAttr{Name: "refer", Refs: []xsd.Ref{xsd.T(k.Attrs[0].Val)}})
		return &xsd.X{Name: "", Kids: []*xsd.X{k, r}}
	}, false},
	{"sequence", "any", func(name string, n *int) *xsd.X { return x("any", "namespace", "urn:other", "processContents", "lax") }, true},
	{"sequence", "any at the end", func(name string, n *int) *xsd.X {
		return x("any", "namespace", "urn:other", "maxOccurs", "unbounded", "minOccurs", "0")
	}, false},
	{"choice", "any", func(name string, n *int) *xsd.X { return x("any", "namespace", "urn:other", "maxOccurs", "unbounded") }, true},
	{"choice", "any at the end", func(name string, n *int) *xsd.X { return x("any", "namespace", "urn:other") }, false},
	{"complexType", "anyAttribute", func(name string, n *int) *xsd.X { return x("anyAttribute", "namespace", "##other") }, false},
	{"extension", "anyAttribute", func(name string, n *int) *xsd.X { return x("anyAttribute", "processContents", "lax") }, false},
	{"attributeGroup", "anyAttribute", func(name string, n *int) *xsd.X { return x("anyAttribute") }, false},
}

func x(name string, attrs ...string) *xsd.X {
	e := &xsd.X{NS: "xs", Name: name}
	for i := 0; i < len(attrs); i += 2 {
		e.Attrs = append(e.Attrs, xsd.XAttr{Name: attrs[i], Val: attrs[i+1]})
	}
	return e
}

func identity(kind string, n *int) *xsd.X {
	*n++
	e := x(kind, "name", fmt.Sprint("ic", *n))
	e.Kids = []*xsd.X{x("selector", "xpath", ".//t:a|t:b"), x("field", "xpath", "@c"), x("field", "xpath", "t:d")}
	return e
}

// addKid puts an inert element into a node where it may stand.
func addKid(root, e *xsd.X, i int, n *int) bool {
	k := inertKids[i]
	if e.Attr("ref") != "" || hasAttr(e, "ref") {
		return false
	}
	for _, kid := range e.Kids {
		switch kid.Name {
		case "simpleContent", "complexContent", "anyAttribute":
			if k.in == "complexType" || kid.Name == k.kid("", new(int)).Name {
				return false
			}
		}
	}
	name := "ic"
	for _, c := range root.Kids {
		if v := c.Attr("name"); v != "" {
			name = v
			break
		}
	}
	add := k.kid(name, n)
	l := []*xsd.X{add}
	if add.Name == "" {
		l = add.Kids
	}
	at := len(e.Kids)
	if k.first {
		for at = 0; at < len(e.Kids) && (e.Kids[at].Name == "annotation" || e.Kids[at].Name == "import" || e.Kids[at].Name == "include"); at++ {
		}
	}
	e.Kids = append(append(append([]*xsd.X{}, e.Kids[:at]...), l...), e.Kids[at:]...)
	return true
}

// inertSpace: attributes that say nothing about the structure leave what the
// model expects unchanged.
func inertSpace(prop, name, bound string, g gen) eng.Space {
	return eng.Space{Name: "inert " + name, Bound: bound + ": each of the attributes that say nothing about structure (default, fixed, nillable, form, abstract, block, final, id, minOccurs, ...; several values each) and elements (notation, unique, key, keyref, any, anyAttribute) at all elements it may stand on, and all together (thorough: also at each element alone)", Gen: func(tier string, emit func(eng.Case)) {
		g(tier, func(it space.Item) {
			// which of them apply to this schema
			use := map[string]bool{}
			var nodes int
			count := func(x, p *xsd.X) {
				nodes++
				if x.NS != "xs" {
					return
				}
				for _, a := range inert[standing(x, p)] {
					use[standing(x, p)+" "+a[0]+"="+a[1]] = true
				}
			}
			each(it.Schema().Tree(), count)
			var keys []string
			for k := range use {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			add := func(what string, pick func(i int, stand string, a [2]string) bool) {
				emit(eng.Case{State: func() string { return it.Label + " with " + what }, Run: func(c *eng.Ctx) {
					s := it.Schema()
					root := s.Tree()
					n, i, done := 0, 0, 0
					each(root, func(x, p *xsd.X) {
						i++
						if x.NS != "xs" {
							return
						}
						for _, a := range inert[standing(x, p)] {
							if pick(i, standing(x, p), a) && addInert(x, a, &n) {
								done++
							}
						}
					})
					if done == 0 {
						return
					}
					c.Count("attributes added", int64(done))
					ds, doc, outs := evalDoc(c, s, xsd.Plain, xsd.Plain.Write(root, s), conv.Langs, prop == "C07")
					reportDiffs(c, prop, name, s, ds, doc, outs)
				}})
			}
			for _, k := range keys {
				k := k
				add(k, func(i int, stand string, a [2]string) bool { return stand+" "+a[0]+"="+a[1] == k })
				if thorough(tier) {
					for j := 1; j <= nodes; j++ {
						j := j
						add(fmt.Sprintf("%s at %d", k, j), func(i int, stand string, a [2]string) bool { return i == j && stand+" "+a[0]+"="+a[1] == k })
					}
				}
			}
			names := map[string]bool{}
			each(it.Schema().Tree(), func(x, p *xsd.X) { names[x.Name] = x.NS == "xs" || names[x.Name] })
			for i, k := range inertKids {
				i, k := i, k
				if !names[k.in] {
					continue
				}
				put := func(what string, pick func(j int) bool) {
					emit(eng.Case{State: func() string { return it.Label + " with " + k.name + " in " + what + " " + k.in }, Run: func(c *eng.Ctx) {
						s := it.Schema()
						root := s.Tree()
						var l []*xsd.X
						each(root, func(x, p *xsd.X) {
							if x.NS == "xs" && x.Name == k.in {
								l = append(l, x)
							}
						})
						n, done := 0, 0
						for j, x := range l {
							if pick(j) && addKid(root, x, i, &n) {
								done++
							}
						}
						if done == 0 {
							return
						}
						c.Count("elements added", int64(done))
						ds, doc, outs := evalDoc(c, s, xsd.Plain, xsd.Plain.Write(root, s), conv.Langs, prop == "C07")
						reportDiffs(c, prop, name, s, ds, doc, outs)
					}})
				}
				put("every", func(int) bool { return true })
				if thorough(tier) {
					for j := 0; j < nodes; j++ {
						j := j
						put(fmt.Sprint("number ", j), func(i int) bool { return i == j })
					}
				}
			}
			add("all first values", func(int, string, [2]string) bool { return true })
		})
	}}
}
