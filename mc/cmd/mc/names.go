package main

import (
	"fmt"
	"regexp"
	"strings"
	"unicode"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

// readAll converts a document for a language and reads the output back.
func readAll(c *eng.Ctx, doc, lang string) (f *read.File, out, bad string) {
	out, err, p := box(c).Conv(doc, lang)
	c.Transition(1, 1)
	if p != "" {
		return nil, "", "panic: " + p
	}
	if err != nil {
		return nil, "", "error: " + err.Error()
	}
	f, err = read.Read(lang, out)
	if err != nil {
		return nil, out, "not well-formed: " + err.Error()
	}
	return f, out, ""
}

// nameCase is a set of named components and users of them.
type nameCase struct {
	kinds []int
	names []string
	first bool // the user comes first
	joint bool // one user refers to all
	style xsd.Style
	only  string // classes of disagreement to report, all if empty
}

var markTypes = []string{"unsignedShort", "boolean", "float"}

func (k nameCase) label(ks []space.NameKind) string {
	var l []string
	for i, n := range k.names {
		l = append(l, ks[k.kinds[i]].Name+" "+n)
	}
	return strings.Join(l, ", ") + fmt.Sprint(" user first=", k.first, " prefix=", k.style.T, " joint=", k.joint)
}

func (k nameCase) schema(ks []space.NameKind) *xsd.Schema {
	s := &xsd.Schema{}
	var users []xsd.Comp
	var user *xsd.Complex
	for i, n := range k.names {
		if !k.joint || i == 0 {
			user = &xsd.Complex{Name: fmt.Sprintf("ZzUser%d", i), Content: space.Seq()}
		}
		kd := ks[k.kinds[i]]
		s.Comps = append(s.Comps, kd.Make(n, fmt.Sprintf("mark%d", i), xsd.XS(markTypes[i])))
		if kd.Use != nil {
			p, a := kd.Use(n, fmt.Sprintf("zzref%d", i))
			if p != nil {
				user.Content.Kids = append(user.Content.Kids, p)
			} else {
				user.Attrs = append(user.Attrs, a)
			}
		}
		if !k.joint || i == 0 {
			user.Content.Kids = append(user.Content.Kids, space.El("zzz", xsd.XS("date"), ""))
			users = append(users, xsd.Comp{C: user})
		}
	}
	if k.first {
		s.Comps = append(users, s.Comps...)
	} else {
		s.Comps = append(s.Comps, users...)
	}
	return s
}

// marked tells whether a declaration is the i-th named component.
func marked(d *read.Decl, kind string, i int, lang string) bool {
	want, _ := spec.Lang(markTypes[i], lang)
	switch kind {
	case "complexType", "element", "group", "attributeGroup":
		for _, f := range d.Fields {
			n := spec.Fold(f.Name)
			if n == fmt.Sprintf("mark%d", i) || n == fmt.Sprintf("mark%dattr", i) {
				return true
			}
		}
		return false
	case "union":
		return d.Kind == "struct" && len(d.Fields) == 1 && d.Fields[0].Type.Name == want.Name && spec.Fold(d.Fields[0].Name) == spec.Fold(markTypes[i])
	case "list":
		return d.Kind == "alias" && d.Type.Lists == 1 && d.Type.Name == want.Name ||
			d.Kind == "struct" && len(d.Fields) == 1 && d.Fields[0].Type.Lists == 1 && d.Fields[0].Type.Name == want.Name
	case "enumeration":
		if lang == "TypeScript" {
			return d.Kind == "enum"
		}
	}
	return d.Kind == "alias" && d.Type.Lists == 0 && d.Type.Name == want.Name ||
		d.Kind == "struct" && len(d.Fields) == 1 && d.Fields[0].Type.Lists == 0 && d.Fields[0].Type.Name == want.Name && spec.Fold(d.Fields[0].Name) != spec.Fold(markTypes[i])
}

// refersTo tells whether a type name used in a file denotes the i-th component.
func (k nameCase) refersTo(f *read.File, got string, i int, ident []string, lang string) bool {
	if got == ident[i] {
		return true
	}
	// the others are simple, so that a reference may be resolved
	want, _ := spec.Lang(markTypes[i], lang)
	return k.kinds[i] >= 6 && got == want.Name
}

// run converts the schema and checks the identifiers.
func (k nameCase) run(c *eng.Ctx, ks []space.NameKind) {
	s := k.schema(ks)
	doc := s.Text(k.style)
	for _, lang := range conv.Langs {
		f, out, bad := readAll(c, doc, lang)
		report := func(class, msg string) {
			if k.only != "" && !strings.Contains(k.only, class) {
				return
			}
			d := spec.Diff{Class: class, Lang: lang, Got: msg}
			fid := ""
			for _, n := range k.names {
				if fid == "" {
					fid = spec.NameFinding(class, lang, n)
				}
			}
			if fid != "" && !c.Known(fid) {
				fid = ""
			}
			_ = d
			kinds := ""
			for _, i := range k.kinds {
				kinds += " " + ks[i].Name
			}
			c.Report(lang+" "+class+kinds, lang+": "+msg, fid, map[string]string{"a.xsd": doc, "a.xsd" + read.Ext(lang): out})
		}
		if bad != "" {
			report("source", bad)
			continue
		}
		for _, d := range spec.Formedness(f, nil) {
			report(d.Class, d.String())
		}
		users := map[string]*read.Decl{}
		for i := range f.Decls {
			if strings.HasPrefix(spec.Fold(f.Decls[i].Name), "zzuser") {
				users[spec.Fold(f.Decls[i].Name)] = &f.Decls[i]
			}
		}
		nusers := len(k.names)
		if k.joint {
			nusers = 1
		}
		if len(users) != nusers || len(f.Decls) != nusers+len(k.names) {
			report("decl", fmt.Sprintf("%d declarations for %d components", len(f.Decls), nusers+len(k.names)))
			continue
		}
		ident := make([]string, len(k.names))
		used := map[string]bool{}
		for i := range k.names {
			for j := range f.Decls {
				d := &f.Decls[j]
				if !strings.HasPrefix(spec.Fold(d.Name), "zzuser") && !used[d.Name] && marked(d, ks[k.kinds[i]].Name, i, lang) {
					ident[i] = d.Name
					used[d.Name] = true
					break
				}
			}
			if ident[i] == "" {
				report("decl", fmt.Sprintf("no declaration is recognisably %s %s", ks[k.kinds[i]].Name, k.names[i]))
			}
		}
		c.Count("identifiers", int64(len(k.names)))
		// the identifier is the name without separators, at most with a suffix
		for i, n := range k.names {
			if ident[i] == "" {
				continue
			}
			if !isIdentOf(ident[i], n) {
				report("ident", fmt.Sprintf("%s declared as %s", n, ident[i]))
			}
			if k.joint {
				continue
			}
			// the member of the user that refers to it
			user := users[fmt.Sprintf("zzuser%d", i)]
			refs := 0
			for _, fl := range user.Fields {
				if spec.Fold(fl.Name) == "zzz" {
					continue
				}
				refs++
				if got := fl.Type.Name; !k.refersTo(f, got, i, ident, lang) {
					report("reference", fmt.Sprintf("%s %s is declared as %s but referred to as %s", ks[k.kinds[i]].Name, n, ident[i], got))
				}
			}
			if refs != 1 {
				report("reference", fmt.Sprintf("%d members refer to %s", refs, n))
			}
		}
		if k.joint {
			// each member of the user stands for another component
			left := map[int]bool{}
			for i := range k.names {
				left[i] = true
			}
			refs := 0
			for _, fl := range users["zzuser0"].Fields {
				if spec.Fold(fl.Name) == "zzz" {
					continue
				}
				refs++
				for i := range k.names {
					if left[i] && k.refersTo(f, fl.Type.Name, i, ident, lang) {
						delete(left, i)
						break
					}
				}
			}
			if refs != len(k.names) || len(left) > 0 {
				report("reference", fmt.Sprintf("%d members refer to %v", refs, k.names))
			}
		}
		if len(k.names) == 2 && spec.Fold(k.names[0]) == spec.Fold(k.names[1]) {
			c.Outcome(fmt.Sprintf("%s colliding pair", lang))
		}
	}
}

var suffixes = regexp.MustCompile(`^[0-9]*(attr)?[0-9]*$`)

// isIdentOf tells whether an identifier is the name without separators and
// case, at most with a letter before it, if it does not begin with one, and a
// suffix.
func isIdentOf(ident, name string) bool {
	g, w := spec.Fold(ident), spec.Fold(name)
	first := []rune(name)[0]
	if !unicode.IsUpper(unicode.ToUpper(first)) && strings.HasPrefix(g, "x"+w) && (w != "" || g != "x") {
		g = g[1:]
	}
	if w == "" {
		g = strings.TrimPrefix(g, "x")
	}
	return strings.HasPrefix(g, w) && suffixes.MatchString(g[len(w):])
}

func namesCheck() *eng.Check {
	ks := space.NameKinds()
	emitCase := func(emit func(eng.Case), k nameCase) {
		emit(eng.Case{State: func() string { return k.label(ks) }, Run: func(c *eng.Ctx) { k.run(c, ks) }})
	}
	unp := xsd.Plain
	unp.T = ""
	return &eng.Check{Prop: "C17", Level: "model_checking", Assumptions: assume, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			{Name: "names", Bound: "all names of up to 4 (thorough: 5) characters over {a A 1 . - _}, first a letter or _ x 10 kinds of component x user before/after", Gen: func(tier string, emit func(eng.Case)) {
				for _, n := range space.Names(pick(tier, 4, 5)) {
					for i := range ks {
						for f := 0; f < 2; f++ {
							emitCase(emit, nameCase{[]int{i}, []string{n}, f == 1, false, xsd.Plain, ""})
						}
					}
				}
			}},
			{Name: "words", Bound: "all reserved words and type names of all languages in 5 spellings, and 40 names with letters beyond ASCII, x 10 kinds x user before/after x prefixed or not", Gen: func(tier string, emit func(eng.Case)) {
				for _, n := range append(space.Words(), space.Letters()...) {
					for i := range ks {
						for f := 0; f < 4; f++ {
							st := xsd.Plain
							if f > 1 {
								st = unp
							}
							emitCase(emit, nameCase{[]int{i}, []string{n}, f&1 == 1, false, st, ""})
						}
					}
				}
			}},
			{Name: "members", Bound: "all names of up to 4 characters and all reserved words as local element and attribute names", Gen: func(tier string, emit func(eng.Case)) {
				for _, n := range append(append(space.Names(pick(tier, 4, 5)), space.Words()...), space.Letters()...) {
					for form := 0; form < 3; form++ {
						n, form := n, form
						emit(eng.Case{State: func() string { return fmt.Sprintf("member %s form %d", n, form) }, Run: func(c *eng.Ctx) { memberName(c, n, form) }})
					}
				}
			}},
			{Name: "pairs", Bound: "all ordered pairs of names of up to 2 (thorough: 3) characters x all pairs of kinds", Gen: func(tier string, emit func(eng.Case)) {
				ns := space.Names(pick(tier, 2, 3))
				for a, n := range ns {
					for b, m := range ns {
						if a == b {
							continue
						}
						for i := range ks {
							for j := range ks {
								if thorough(tier) && i != j && (i+j)%3 != 0 && spec.Fold(n) != spec.Fold(m) {
									continue // distinct identifiers: a third of the kind pairs
								}
								emitCase(emit, nameCase{[]int{i, j}, []string{n, m}, (a+b)%2 == 0, false, xsd.Plain, ""})
								if i == j && spec.Fold(n) != spec.Fold(m) {
									emitCase(emit, nameCase{[]int{i, j}, []string{n, m}, (a+b)%2 == 0, true, xsd.Plain, ""})
								}
							}
						}
					}
				}
			}},
			{Name: "triples", Bound: "all ordered triples of distinct names from {a A a2 A2 a-2 A_2 a22} x kinds", Gen: func(tier string, emit func(eng.Case)) {
				ns := []string{"a", "A", "a2", "A2", "a-2", "A_2", "a22"}
				for _, x := range ns {
					for _, y := range ns {
						for _, z := range ns {
							if x == y || y == z || x == z {
								continue
							}
							for i := range ks {
								for j := 0; j < 2; j++ {
									emitCase(emit, nameCase{[]int{i, (i + j) % len(ks), (i + 2*j) % len(ks)}, []string{x, y, z}, j == 1, false, xsd.Plain, ""})
								}
							}
						}
					}
				}
			}},
		}
	}}
}

// memberName checks a name in the positions of members.
func memberName(c *eng.Ctx, n string, form int) {
	s := &xsd.Schema{}
	ty := &xsd.Complex{Name: "ZzUser", Content: space.Seq(space.El("zzz", xsd.XS("date"), ""))}
	kind := "elem"
	switch form {
	case 0:
		ty.Content.Kids = append(ty.Content.Kids, space.El(n, xsd.XS("unsignedShort"), ""))
	case 1:
		ty.Attrs = append(ty.Attrs, space.At(n, xsd.XS("unsignedShort"), "required"))
		kind = "attr"
	case 2:
		s.Comps = append(s.Comps, xsd.Comp{G: &xsd.Group{Name: "ZzGroup", Content: space.Seq(space.El(n, xsd.XS("unsignedShort"), ""))}})
		kind = "group"
	}
	s.Comps = append(s.Comps, xsd.Comp{C: ty})
	doc := s.Text(xsd.Plain)
	for _, lang := range conv.Langs {
		f, out, bad := readAll(c, doc, lang)
		report := func(class, msg string) {
			fid := spec.NameFinding(class, lang, n)
			if fid != "" && !c.Known(fid) {
				fid = ""
			}
			c.Report(lang+" "+class+" "+kind, lang+": "+msg, fid, map[string]string{"a.xsd": doc, "a.xsd" + read.Ext(lang): out})
		}
		if bad != "" {
			report("source", bad)
			continue
		}
		for _, d := range spec.Formedness(f, nil) {
			report(d.Class, d.String())
		}
		want, _ := spec.Lang("unsignedShort", lang)
		found := 0
		for _, d := range f.Decls {
			for _, g := range d.Fields {
				if g.Type.Name != want.Name {
					continue
				}
				found++
				if g.HasXML && g.XML != n {
					report("xmlname", fmt.Sprintf("member %s is bound to %s", n, g.XML))
				}
				if !isIdentOf(g.Name, n) {
					report("ident", fmt.Sprintf("member %s is named %s", n, g.Name))
				}
			}
		}
		if found != 1 {
			report("member", fmt.Sprintf("%d members for %s", found, n))
		}
	}
}

// builtinNames enumerates the types that have the name of a built-in type of
// XML Schema, in every referring position.
func builtinNames() eng.Space {
	return eng.Space{Name: "built-in names", Bound: "all names of built-in types for a declared type x varieties x referring positions x {prefix, XML Schema the default namespace, no target namespace, target namespaces whose names resemble that of XML Schema}", Gen: func(tier string, emit func(eng.Case)) {
		for _, name := range spec.Builtins() {
			for _, end := range []string{"list", "union", "complex", "restriction"} {
				for _, u := range space.RefUsers() {
					for mode := 0; mode < 5; mode++ {
						for perm := 0; perm < 2; perm++ {
							name, end, u, mode, perm := name, end, u, mode, perm
							if end == "complex" && !u.Complex || end != "complex" && u.Name == "complex extension" ||
								u.Name == "simple extension" && (end == "list" || end == "union") || u.Name == "item" && end == "list" ||
								u.Name == "member" && name == "boolean" { // beside the built-in type
								continue
							}
							emit(eng.Case{State: func() string {
								return fmt.Sprintf("%s to a %s named %s, mode %d, order %d", u.Name, end, name, mode, perm)
							}, Run: func(c *eng.Ctx) {
								var t xsd.Comp
								switch end {
								case "restriction":
									t = xsd.Comp{S: space.Re(name, xsd.XS("gYear"))}
								default:
									t = *ends[end]()
									if t.S != nil {
										t.S.Name = name
									} else {
										t.C.Name = name
									}
								}
								r, st := xsd.T(name), xsd.Plain
								s := &xsd.Schema{}
								switch mode {
								case 1:
									st.XS = ""
								case 2:
									st.T = ""
									s.NoTNS = true
									r.NS = "-"
								case 3:
									s.TNS = "http://example.org/2001/XMLSchema"
								case 4:
									s.TNS = "http://www.w3.org/2001/XMLSchema/types"
								}
								s.Comps = []xsd.Comp{t, u.Make(r)}
								if perm == 1 {
									s.Comps[0], s.Comps[1] = s.Comps[1], s.Comps[0]
								}
								var langs []string
								for _, l := range conv.Langs {
									// Java's Double stands for no built-in type
									if !spec.IsLangType(l, name) && !(l == "Java" && name == "double") {
										langs = append(langs, l)
									}
								}
								ds, doc, outs := evalSchema(c, s, st, langs, false)
								// the identifier may have got a suffix
								var rest []spec.Diff
								for _, d := range ds {
									got := strings.TrimPrefix(strings.TrimPrefix(d.Got, "extends "), "embedded ")
									if plain := strings.Replace(got, "2", "", 1); plain != got && (spec.Fold(plain) == spec.Fold(d.Exp) || spec.Fold(strings.Trim(plain, "[]")) == spec.Fold(name)) {
										continue
									}
									rest = append(rest, d)
								}
								reportDiffs(c, "C05", "", s, rest, doc, outs)
							}})
						}
					}
				}
			}
		}
	}}
}

// nearNames enumerates pairs of components with similar names, which one type
// or two types refer to.
func nearNames(joint bool) eng.Space {
	ks := space.NameKinds()
	bound := "all ordered pairs of names of up to 2 (thorough: 3) characters x kinds, each referred to by a type of its own"
	if joint {
		bound = "all ordered pairs of names of up to 2 (thorough: 3) characters with distinct identifiers x pairs of kinds, both referred to by one type"
	}
	return eng.Space{Name: "near names", Bound: bound, Gen: func(tier string, emit func(eng.Case)) {
		ns := space.Names(pick(tier, 2, 3))
		for a, n := range ns {
			for b, m := range ns {
				if a == b || joint && spec.Fold(n) == spec.Fold(m) {
					continue
				}
				for i := range ks {
					for j := range ks {
						if i != j && (!joint || thorough(tier)) {
							continue
						}
						k := nameCase{[]int{i, j}, []string{n, m}, (a+b)%2 == 0, joint, xsd.Plain, ""}
						emit(eng.Case{State: func() string { return k.label(ks) }, Run: func(c *eng.Ctx) { k.run(c, ks) }})
					}
				}
			}
		}
	}}
}

// similarNames enumerates pairs of components with similar names, each of
// which is declared.
func similarNames() eng.Space {
	ks := space.NameKinds()
	return eng.Space{Name: "similar names", Bound: "all ordered pairs of names of up to 2 (thorough: 3) characters x all pairs of kinds; all ordered pairs of 30 longer names that differ in case, separators and numbers x kinds", Gen: func(tier string, emit func(eng.Case)) {
		pairs := func(ns []string, all bool) {
			for a, n := range ns {
				for b, m := range ns {
					for i := range ks {
						for j := range ks {
							if a == b || i != j && !all {
								continue
							}
							k := nameCase{[]int{i, j}, []string{n, m}, (a+b)%2 == 0, false, xsd.Plain, "decl source"}
							emit(eng.Case{State: func() string { return k.label(ks) }, Run: func(c *eng.Ctx) { k.run(c, ks) }})
						}
					}
				}
			}
		}
		pairs(space.Names(2), true)
		if thorough(tier) {
			pairs(space.Names(3), false)
		}
		pairs(longNames, false)
	}}
}
