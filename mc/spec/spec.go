// Package spec is the reference model: what XML Schema and the documented
// mapping require of the generated declarations of a schema.
package spec

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"verif/mc/read"
	"verif/mc/xsd"
)

// End is what a type reference denotes after following simple restrictions
// and element references: a built-in type or a declaration.
type End struct {
	Builtin string
	Decl    string // name of a complex, list or union type
	AnyOf   string // built-in types of the members of a local union
	Unknown bool   // nothing is claimed
}

func (e End) String() string {
	if e.Unknown {
		return "?"
	}
	if e.Builtin != "" {
		return "xs:" + e.Builtin
	}
	if e.AnyOf != "" {
		return "any of " + e.AnyOf
	}
	return "decl " + e.Decl
}

// in is what it denotes in a language: a local union is of the type all its
// members have in common, or of any type.
func (e End) in(lang string) End {
	if e.AnyOf == "" {
		return e
	}
	var common read.Type
	r := End{Builtin: "anyType"}
	for i, b := range strings.Fields(e.AnyOf) {
		t, ok := Lang(b, lang)
		if !ok || i > 0 && t != common {
			return End{Builtin: "anyType"}
		}
		common, r = t, End{Builtin: b}
	}
	return r
}

// Field expected.
type Field struct {
	Kind     string // attr, elem, group, agroup, member
	Name     string // as written (with prefix if a reference)
	XML      string // local name
	Type     End
	Plural   bool
	Optional bool
}

// Decl expected.
type Decl struct {
	Name    string
	Kind    string // alias, list, union, struct, enum (an alias that TypeScript declares as enum)
	Comp    string // simpleType, complexType, element, attribute, group, attributeGroup, anonymous
	Type    End    // alias target, list item
	Enums   []string
	Fields  []Field
	HasBase bool
	Base    End
	Doc     string
	NoClaim bool   // only its existence is claimed
	Elem    string // of an anonymous type
}

// xml is the name of the elements a declaration may be bound to.
func (d *Decl) xml() string {
	if d.Elem != "" {
		return d.Elem
	}
	return d.Name
}

// Model of a schema.
type Model struct {
	Decls  []*Decl
	byName map[string]*Decl
	simple map[string]*xsd.Simple
	elems  map[string]*xsd.Elem
	attrs  map[string]*xsd.Attr
	names  map[string]bool // of the components, and the anonymous types so far
	Prefix string
}

// Build computes the model of a set of schemas seen as one (all components in
// one name space); decls are those of s alone.
func Build(s *xsd.Schema, others ...*xsd.Schema) *Model {
	m := &Model{byName: map[string]*Decl{}, simple: map[string]*xsd.Simple{}, elems: map[string]*xsd.Elem{}, attrs: map[string]*xsd.Attr{}, names: map[string]bool{}, Prefix: "t"}
	for _, o := range append([]*xsd.Schema{s}, others...) {
		for _, c := range o.Comps {
			if c.S != nil {
				m.simple[c.S.Name] = c.S
			}
			if c.E != nil {
				m.elems[c.E.Name] = c.E
			}
			if c.A != nil {
				m.attrs[c.A.Name] = c.A
			}
		}
	}
	for _, c := range s.Comps {
		m.names[c.Name()] = true
	}
	for _, c := range s.Comps {
		m.comp(c)
	}
	return m
}

// anonymous is the name of the type of a local element: that of the element,
// with a number if another declaration has it.
func (m *Model) anonymous(e *xsd.Elem) string {
	name := e.Name
	for i := 2; m.names[name]; i++ {
		name = fmt.Sprintf("%s%d", e.Name, i)
	}
	m.names[name] = true
	return name
}

func (m *Model) add(d *Decl) {
	m.Decls = append(m.Decls, d)
	m.byName[Fold(d.Name)] = d
}

// Fold removes everything but letters and digits and case.
func Fold(s string) string {
	var b strings.Builder
	for _, r := range strings.ToLower(strings.ToUpper(s)) {
		if r == '_' || r == '-' || r == '.' || r == ':' || r == '$' {
			continue
		}
		b.WriteRune(r)
	}
	return b.String()
}

// Resolve a type reference.
func (m *Model) Resolve(r xsd.Ref) End {
	for i := 0; i < 20; i++ {
		if r.NS == "xs" {
			return End{Builtin: r.Name}
		}
		if r.NS == "xml" {
			return End{Builtin: "string"}
		}
		s, ok := m.simple[r.Name]
		if !ok {
			return End{Decl: r.Name}
		}
		s = effective(s)
		if s.Variety == "list" || (s.Variety == "union" && len(s.Members) > 0) {
			return End{Decl: r.Name}
		}
		if s.Variety == "union" || (s.Base.Zero()) {
			return m.inline(s)
		}
		r = s.Base
	}
	return End{Unknown: true}
}

// effective is a simple type with its inline base type, if any, in place: a
// restriction has the variety of its base and, if it lists values, its own.
func effective(s *xsd.Simple) *xsd.Simple {
	if s.Variety == "list" || s.Variety == "union" || s.InBase == nil {
		return s
	}
	e := *effective(s.InBase)
	e.Name, e.Doc = s.Name, s.Doc
	if len(enums(s)) > 0 {
		e.Facets = s.Facets
	}
	return &e
}

// enums lists the values a simple type is restricted to.
func enums(s *xsd.Simple) (l []string) {
	for _, f := range s.Facets {
		if f.Kind == "enumeration" {
			l = append(l, f.Value)
		}
	}
	if l == nil && s.Variety == "union" && len(s.Members) == 0 {
		seen := map[string]bool{}
		for _, m := range s.InMem {
			v := enums(effective(m))
			if len(v) == 0 {
				return nil
			}
			for _, x := range v {
				if !seen[x] {
					seen[x] = true
					l = append(l, x)
				}
			}
		}
	}
	return
}

// inline is what a local simple type denotes.
func (m *Model) inline(s *xsd.Simple) End {
	s = effective(s)
	switch {
	case s.Variety == "list":
		return End{Unknown: true}
	case s.Variety == "union" && len(s.Members) > 0:
		return End{Builtin: "anyType"}
	case s.Variety == "union":
		var l []string
		for _, k := range s.InMem {
			k = effective(k)
			e := m.inline(k)
			switch {
			case k.Variety == "list":
				e = End{Builtin: "anyType"}
			case k.Variety == "union" && len(k.Members) == 0:
				e = End{Builtin: "anyType"}
			}
			if e.Builtin == "" {
				return End{Unknown: true}
			}
			l = append(l, e.Builtin)
		}
		return End{AnyOf: strings.Join(l, " ")}
	case !s.Base.Zero():
		return m.Resolve(s.Base)
	}
	return End{Unknown: true}
}

// elemType is what an element declaration denotes.
func (m *Model) elemType(e *xsd.Elem) End {
	switch {
	case !e.Ref.Zero():
		if g, ok := m.elems[e.Ref.Name]; ok {
			return m.elemType(g)
		}
		return End{Decl: e.Ref.Name}
	case e.InC != nil:
		return End{Decl: e.Name}
	case e.InS != nil:
		return m.inline(e.InS)
	case !e.Type.Zero():
		return m.Resolve(e.Type)
	case !e.Subst.Zero(): // the type of the head
		if g, ok := m.elems[e.Subst.Name]; ok {
			return m.elemType(g)
		}
		return End{Decl: e.Subst.Name}
	}
	return End{Builtin: "anyType"}
}

func (m *Model) attrType(a *xsd.Attr) End {
	switch {
	case !a.Ref.Zero():
		if a.Ref.NS == "xml" {
			return End{Builtin: "string"}
		}
		if g, ok := m.attrs[a.Ref.Name]; ok {
			return m.attrType(g)
		}
		return End{Decl: a.Ref.Name}
	case a.Inline != nil:
		return m.inline(a.Inline)
	case !a.Type.Zero():
		return m.Resolve(a.Type)
	}
	return End{Builtin: "anySimpleType"}
}

func (m *Model) qn(r xsd.Ref) string {
	if r.NS == "xml" {
		return "xml:" + r.Name
	}
	if r.NS == "-" { // no prefix, whatever the style
		return r.Name
	}
	if r.NS != "t" && r.NS != "" {
		return r.NS + ":" + r.Name
	}
	if m.Prefix == "" {
		return r.Name
	}
	return m.Prefix + ":" + r.Name
}

func (m *Model) comp(c xsd.Comp) {
	switch {
	case c.S != nil:
		d := &Decl{Name: c.S.Name, Comp: "simpleType", Doc: c.S.Doc}
		s := effective(c.S)
		variety := s.Variety
		if variety == "union" && len(s.Members) == 0 {
			variety = "restriction"
		}
		switch variety {
		case "list":
			d.Kind = "list"
			if !s.Base.Zero() {
				d.Type = m.Resolve(s.Base)
			} else if d.Type = m.inline(s.InBase); effective(s.InBase).Variety == "union" {
				d.Type = End{Builtin: "anyType"}
			}
		case "union":
			d.Kind = "union"
			for _, r := range s.Members {
				d.Fields = append(d.Fields, Field{Kind: "member", Name: r.Name, XML: r.Name, Type: m.Resolve(r)})
			}
		default:
			d.Kind = "alias"
			d.Type = m.inline(s)
			if d.Enums = enums(s); len(d.Enums) > 0 {
				d.Kind = "enum"
			}
		}
		m.add(d)
	case c.C != nil:
		m.complex(c.C, c.C.Name, "complexType", c.C.Doc)
	case c.E != nil:
		e := c.E
		if e.InC != nil {
			m.complex(e.InC, e.Name, "element", e.Doc)
			return
		}
		if e.Type.Name == e.Name && e.Type.NS != "xs" {
			return // shares the declaration of its type
		}
		m.add(&Decl{Name: e.Name, Kind: "alias", Comp: "element", Type: m.elemType(e), Doc: e.Doc})
	case c.A != nil:
		m.add(&Decl{Name: c.A.Name, Kind: "alias", Comp: "attribute", Type: m.attrType(c.A), Doc: c.A.Doc})
	case c.G != nil:
		d := &Decl{Name: c.G.Name, Kind: "struct", Comp: "group", Doc: c.G.Doc}
		m.particles(d, c.G.Content)
		m.add(d)
	case c.AG != nil:
		d := &Decl{Name: c.AG.Name, Kind: "struct", Comp: "attributeGroup", Doc: c.AG.Doc}
		m.attributes(d, c.AG.Attrs)
		m.add(d)
	}
}

func (m *Model) complex(c *xsd.Complex, name, comp, doc string) *Decl {
	d := &Decl{Name: name, Kind: "struct", Comp: comp, Doc: doc}
	m.particles(d, c.Content)
	m.attributes(d, c.Attrs)
	if c.Deriv == "simpleExt" || c.Deriv == "complexExt" {
		d.HasBase = true
		d.Base = m.Resolve(c.Base)
	}
	m.add(d)
	return d
}

// Many tells whether a maxOccurs value allows more than one occurrence.
func Many(max string) bool {
	return max != "" && max != "0" && max != "1" && max != "00" && max != "01"
}

// particles adds the members of a content model: one for every element and
// group it names, which is plural if it may occur more than once.
func (m *Model) particles(d *Decl, p *xsd.Particle) {
	occ := m.occurrences(p)
	var walk func(p *xsd.Particle)
	add := func(f Field) {
		for i := range d.Fields {
			if g := &d.Fields[i]; g.Kind == f.Kind && g.Name == f.Name {
				return
			}
		}
		f.Plural = occ[f.Kind+" "+f.Name] > 1
		d.Fields = append(d.Fields, f)
	}
	walk = func(p *xsd.Particle) {
		if p == nil {
			return
		}
		switch p.Kind {
		case "elem":
			e := p.E
			f := Field{Kind: "elem", Name: m.elemName(e), XML: e.Name, Type: m.elemType(e)}
			if !e.Ref.Zero() {
				f.XML = e.Ref.Name
			}
			if e.InC != nil {
				f.Type = End{Decl: m.anonymous(e)}
			}
			add(f)
			if e.InC != nil {
				m.complex(e.InC, f.Type.Decl, "anonymous", e.Doc).Elem = e.Name
			}
		case "group":
			add(Field{Kind: "group", Name: m.qn(p.Ref), XML: p.Ref.Name, Type: End{Decl: p.Ref.Name}})
		case "any":
		default:
			for _, k := range p.Kids {
				walk(k)
			}
		}
	}
	walk(p)
}

func (m *Model) elemName(e *xsd.Elem) string {
	if !e.Ref.Zero() {
		return m.qn(e.Ref)
	}
	return e.Name
}

// occurrences counts how often each element and group may occur in a content
// model: 1, or 2 for any greater number. The occurrences in the alternatives
// of a choice exclude one another, those in the parts of a sequence add up.
func (m *Model) occurrences(p *xsd.Particle) map[string]int {
	n := map[string]int{}
	if p == nil {
		return n
	}
	switch p.Kind {
	case "elem":
		n["elem "+m.elemName(p.E)] = 1
	case "group":
		n["group "+m.qn(p.Ref)] = 1
	}
	for _, k := range p.Kids {
		for x, i := range m.occurrences(k) {
			if p.Kind != "choice" {
				n[x] += i
			} else if n[x] < i {
				n[x] = i
			}
		}
	}
	max := p.Max
	if p.Kind == "elem" {
		max = p.E.Max
	}
	for x := range n {
		if Many(max) || n[x] > 2 {
			n[x] = 2
		}
	}
	return n
}

func (m *Model) attributes(d *Decl, as []*xsd.Attr) {
	for _, a := range as {
		if !a.Group.Zero() {
			d.Fields = append(d.Fields, Field{Kind: "agroup", Name: m.qn(a.Group), XML: a.Group.Name, Type: End{Decl: a.Group.Name}})
			continue
		}
		f := Field{Kind: "attr", Name: a.Name, XML: a.Name, Type: m.attrType(a), Optional: a.Use != "required"}
		if !a.Ref.Zero() {
			f.Name, f.XML = m.qn(a.Ref), a.Ref.Name
		}
		d.Fields = append(d.Fields, f)
	}
}

// Lang maps a built-in type to its type in a language.
func Lang(builtin, lang string) (read.Type, bool) {
	row, ok := table[builtin]
	if !ok {
		return read.Type{}, false
	}
	i := map[string]int{"Go": 0, "TypeScript": 1, "C": 2, "Java": 3, "Rust": 4}[lang]
	return parseType(row[i]), true
}

// Builtins lists the built-in types, sorted, without the xml: entries.
func Builtins() []string {
	var l []string
	for k := range table {
		if !strings.Contains(k, ":") {
			l = append(l, k)
		}
	}
	sort.Strings(l)
	return l
}

func parseType(s string) (t read.Type) {
	for {
		switch {
		case strings.HasPrefix(s, "[]"):
			s = s[2:]
		case strings.HasSuffix(s, "[]"):
			s = s[:len(s)-2]
		case strings.HasPrefix(s, "Array<"), strings.HasPrefix(s, "List<"), strings.HasPrefix(s, "Vec<"):
			s = s[strings.Index(s, "<")+1 : len(s)-1]
		default:
			t.Name = s
			return
		}
		t.Lists++
	}
}

// Diff is a disagreement between model and generated code.
type Diff struct {
	Class string // noout, decl-missing, decl-extra, decl-dup, kind, member-missing, member-extra, member-dup, xmlname, optional, plural, type, builtin, base, alias, list, union, enum, import, dangling, parse
	Lang  string
	Decl  string
	Memb  string
	Comp  string // kind of component
	Exp   string
	Got   string
	End   End
}

func (d Diff) String() string {
	s := d.Lang + ": " + d.Class + " " + d.Decl
	if d.Memb != "" {
		s += "." + d.Memb
	}
	return s + ": expected " + d.Exp + ", got " + d.Got
}

// Compare compares the declarations read back with the model.
func (m *Model) Compare(f *read.File) (diffs []Diff) {
	lang := f.Lang
	rep := func(d Diff) { d.Lang = lang; diffs = append(diffs, d) }
	act := map[string]*read.Decl{}
	for i := range f.Decls {
		a := &f.Decls[i]
		k := Fold(a.Name)
		if _, ok := act[k]; ok {
			rep(Diff{Class: "decl-dup", Decl: a.Name, Exp: "one declaration", Got: "two"})
			continue
		}
		act[k] = a
	}
	seen := map[string]bool{}
	for _, d := range m.Decls {
		k := Fold(d.Name)
		a, ok := act[k]
		if !ok {
			rep(Diff{Class: "decl-missing", Decl: d.Name, Comp: d.Comp + "/" + d.Kind, Exp: "a declaration for the " + d.Comp, Got: "none"})
			continue
		}
		seen[k] = true
		for _, x := range m.compareDecl(f, act, d, a) {
			x.Comp = d.Comp + "/" + d.Kind
			rep(x)
		}
	}
	place := map[string]int{}
	for i, a := range f.Decls {
		place[Fold(a.Name)] = i
	}
	last := map[string]string{}
	for _, d := range m.Decls {
		if !seen[Fold(d.Name)] || d.Comp == "anonymous" {
			continue
		}
		if l, ok := last["decl"]; ok && place[Fold(l)] > place[Fold(d.Name)] {
			rep(Diff{Class: "decl-order", Decl: d.Name, Comp: d.Comp, Exp: "declared after " + l, Got: "before"})
		}
		last["decl"] = d.Name
	}
	for _, a := range f.Decls {
		if !seen[Fold(a.Name)] {
			rep(Diff{Class: "decl-extra", Decl: a.Name, Exp: "no such declaration", Got: "declared"})
		}
	}
	return
}

// wrapped returns the type a simple declaration stands for: the alias target
// or, in Java and Rust, the type of the only member.
func wrapped(a *read.Decl) (read.Type, bool) {
	switch a.Kind {
	case "alias":
		return a.Type, true
	case "struct":
		if len(a.Fields) == 1 && a.Extends == "" && !a.Fields[0].Embed && (Fold(a.Fields[0].Name) == Fold(a.Name) || Fold(a.Fields[0].Name) == Fold(a.Name)+"attr") {
			return a.Fields[0].Type, true
		}
	}
	return read.Type{}, false
}

// chase follows aliases in the generated file until a built-in type or a
// declaration that the model does not consider an alias.
func (m *Model) chase(f *read.File, act map[string]*read.Decl, t read.Type) (read.Type, string) {
	for i := 0; ; i++ {
		if i > 30 {
			return t, "cyclic"
		}
		if read.Builtin(f.Lang, t.Name) {
			return t, ""
		}
		k := Fold(t.Name)
		a, ok := act[k]
		if !ok || a.Name != t.Name && f.Lang != "Rust" {
			return t, "undeclared"
		}
		d, ok := m.byName[k]
		if !ok {
			return t, "undeclared"
		}
		if d.Kind == "alias" || d.Kind == "enum" {
			if a.Kind == "enum" {
				bt, _ := Lang(d.Type.in(f.Lang).Builtin, f.Lang)
				bt.Lists += t.Lists
				return bt, ""
			}
			w, ok := wrapped(a)
			if !ok {
				return t, "undeclared"
			}
			w.Lists += t.Lists
			t = w
			continue
		}
		return t, d.Name
	}
}

// typeDiff compares a generated type with what the reference denotes;
// collections are compared only if plural is 0 or 1.
func (m *Model) typeDiff(f *read.File, act map[string]*read.Decl, t read.Type, e End, plural int) (typeBad, plBad bool, exp, got string) {
	if e.Unknown {
		return
	}
	g, at := m.chase(f, act, t)
	got = g.String()
	var want read.Type
	if any, _ := Lang("anyType", f.Lang); e.AnyOf != "" && g.Name == any.Name && at == "" {
		e = End{Builtin: "anyType"}
	}
	e = e.in(f.Lang)
	if e.Builtin != "" {
		w, ok := Lang(e.Builtin, f.Lang)
		if !ok {
			return
		}
		want = w
		want.Lists += plural
		if at != "" || g.Name != want.Name {
			typeBad = true
		}
	} else {
		want = read.Type{Name: e.Decl, Lists: plural}
		if _, known := m.byName[Fold(e.Decl)]; known {
			typeBad = Fold(at) != Fold(e.Decl)
		} else { // declared in another file
			typeBad = Fold(g.Name) != Fold(e.Decl)
		}
	}
	wl, gl := want.Lists, g.Lists
	if f.Lang == "C" { // C flattens arrays
		if wl > 1 {
			wl = 1
		}
		if gl > 1 {
			gl = 1
		}
	}
	plBad = wl != gl
	exp = want.String()
	return
}

func (m *Model) compareDecl(f *read.File, act map[string]*read.Decl, d *Decl, a *read.Decl) (diffs []Diff) {
	lang := f.Lang
	rep := func(x Diff) { x.Decl = d.Name; diffs = append(diffs, x) }
	if d.NoClaim {
		return
	}
	switch d.Kind {
	case "alias", "list", "enum":
		if d.Kind == "enum" && lang == "TypeScript" {
			m.compareEnum(d, a, rep)
			return
		}
		t, ok := wrapped(a)
		if !ok {
			rep(Diff{Class: "kind", Exp: d.Kind, Got: fmt.Sprintf("%s with %d members", a.Kind, len(a.Fields))})
			return
		}
		pl := 0
		if d.Kind == "list" {
			pl = 1
		}
		tb, pb, exp, got := m.typeDiff(f, act, t, d.Type, pl)
		if tb || pb {
			rep(Diff{Class: map[bool]string{true: "list", false: "alias"}[d.Kind == "list"], Exp: exp, Got: got, End: d.Type})
		}
		if a.XML != "" && a.XML != d.Name && lang == "Java" {
			rep(Diff{Class: "xmlname", Exp: d.Name, Got: a.XML})
		}
		return
	}
	if a.Kind != "struct" {
		rep(Diff{Class: "kind", Exp: d.Kind, Got: a.Kind})
		return
	}
	if xml := d.xml(); lang == "Go" && a.XML != "" && a.XML != xml {
		rep(Diff{Class: "xmlname", Exp: xml, Got: a.XML})
	}
	used := make([]bool, len(a.Fields))
	find := func(e Field) int {
		for i, g := range a.Fields {
			if used[i] || g.Text || g.Embed {
				continue
			}
			k := Fold(g.Name)
			n := Fold(e.Name)
			switch {
			case e.Kind == "attr" && lang != "Rust":
				if k == n+"attr" && (!g.HasXML || g.Attr) {
					return i
				}
			case k == n || (lang == "Rust" && k == n+"attr"):
				if !g.Attr {
					return i
				}
			}
		}
		return -1
	}
	last := map[string]int{}
	for _, e := range d.Fields {
		i := find(e)
		if i < 0 {
			rep(Diff{Class: "member-missing", Memb: e.Name, Exp: e.Kind + " " + e.Type.String(), Got: "no such member"})
			continue
		}
		used[i] = true
		if l, ok := last[e.Kind]; ok && l > i && e.Kind != "member" {
			rep(Diff{Class: "member-order", Memb: e.Name, Exp: "after " + a.Fields[l].Name, Got: "before"})
		}
		last[e.Kind] = i
		g := a.Fields[i]
		if (e.Kind == "attr" || e.Kind == "elem") && g.HasXML && g.XML != e.XML {
			rep(Diff{Class: "xmlname", Memb: e.Name, Exp: e.XML, Got: g.XML})
		}
		if (e.Kind == "attr" || (e.Kind == "elem" && d.Comp != "group")) && !g.HasXML && (lang == "Go" || lang == "Java" || lang == "Rust") {
			rep(Diff{Class: "xmlname", Memb: e.Name, Exp: e.XML, Got: "none"})
		}
		if e.Kind == "attr" && e.Optional != g.Optional {
			rep(Diff{Class: "optional", Memb: e.Name, Exp: fmt.Sprint("optional=", e.Optional), Got: fmt.Sprint("optional=", g.Optional)})
		}
		pl := 0
		if e.Plural {
			pl = 1
		}
		tb, pb, exp, got := m.typeDiff(f, act, g.Type, e.Type, pl)
		if tb {
			rep(Diff{Class: "type", Memb: e.Name, Exp: exp, Got: got, End: e.Type})
		}
		if pb {
			rep(Diff{Class: "plural", Memb: e.Name, Exp: exp, Got: got, End: e.Type})
		}
	}
	for i, g := range a.Fields {
		if used[i] {
			continue
		}
		if d.HasBase && lang != "C" {
			if g.Text || (lang == "TypeScript" && g.Name == "Value") {
				tb, pb, exp, got := m.typeDiff(f, act, g.Type, d.Base, 0)
				if tb || pb || d.Base.Builtin == "" && !d.Base.Unknown {
					rep(Diff{Class: "base", Exp: exp, Got: "text of type " + got, End: d.Base})
				}
				d := *d
				_ = d
				used[i] = true
				continue
			}
			if g.Embed {
				tb, pb, exp, got := m.typeDiff(f, act, g.Type, d.Base, 0)
				if tb || pb || d.Base.Builtin != "" {
					rep(Diff{Class: "base", Exp: exp, Got: "embedded " + got, End: d.Base})
				}
				used[i] = true
				continue
			}
		}
		dup := false
		for j, h := range a.Fields {
			if j != i && Fold(h.Name) == Fold(g.Name) {
				dup = true
			}
		}
		rep(Diff{Class: map[bool]string{true: "member-dup", false: "member-extra"}[dup], Memb: g.Name, Exp: "no such member", Got: g.Type.String()})
	}
	nb := 0
	for i, g := range a.Fields {
		if used[i] && (g.Text || g.Embed || (lang == "TypeScript" && g.Name == "Value" && d.HasBase)) {
			nb++
		}
	}
	if a.Extends != "" {
		nb++
		t := parseExt(a.Extends)
		tb, pb, exp, got := m.typeDiff(f, act, t, d.Base, 0)
		if !d.HasBase || tb || pb || d.Base.Builtin != "" {
			rep(Diff{Class: "base", Exp: exp, Got: "extends " + got, End: d.Base})
		}
	}
	if d.HasBase && lang != "C" && nb != 1 && !d.Base.Unknown {
		rep(Diff{Class: "base", Exp: "base " + d.Base.String(), Got: fmt.Sprintf("%d base members", nb), End: d.Base})
	}
	return
}

func parseExt(s string) (t read.Type) {
	for strings.HasSuffix(s, "[]") {
		s = s[:len(s)-2]
		t.Lists++
	}
	t.Name = s
	return
}

func (m *Model) compareEnum(d *Decl, a *read.Decl, rep func(Diff)) {
	if a.Kind != "enum" {
		rep(Diff{Class: "enum", Exp: "an enumeration", Got: a.Kind})
		return
	}
	bt, ok := Lang(d.Type.in("TypeScript").Builtin, "TypeScript")
	var got []string
	for _, e := range a.Enums {
		if v, err := strconv.ParseFloat(e.Value, 64); err == nil && !e.Quoted && len(got) < len(d.Enums) {
			// the same number may be written in another way
			if w, err := strconv.ParseFloat(d.Enums[len(got)], 64); err == nil && (v == w || v != v && w != w) {
				e.Value = d.Enums[len(got)]
			}
		}
		got = append(got, e.Value)
		if ok && e.Quoted == (bt.Name == "number") {
			rep(Diff{Class: "enum", Memb: e.Name, Exp: "quoted only if the base is no number", Got: fmt.Sprint("quoted=", e.Quoted)})
		}
		if !strings.HasSuffix(Fold(e.Name), Fold(e.Value)) {
			rep(Diff{Class: "enum", Memb: e.Name, Exp: "name of the value " + e.Value, Got: e.Name})
		}
	}
	if strings.Join(got, "\x00") != strings.Join(d.Enums, "\x00") {
		rep(Diff{Class: "enum", Exp: fmt.Sprintf("values %q", d.Enums), Got: fmt.Sprintf("%q", got)})
	}
}

// Formedness checks what C07 claims of a file beyond its syntax: no duplicate
// names, no dangling type names, exact imports in Go. known are names declared
// in other files.
func Formedness(f *read.File, known map[string]bool) (diffs []Diff) {
	rep := func(d Diff) { d.Lang = f.Lang; diffs = append(diffs, d) }
	decl := map[string]bool{}
	for _, d := range f.Decls {
		if decl[d.Name] {
			rep(Diff{Class: "decl-dup", Decl: d.Name, Exp: "one declaration", Got: "two"})
		}
		decl[d.Name] = true
	}
	used := map[string]bool{}
	ref := func(d, m string, t read.Type) {
		if i := strings.Index(t.Name, "."); i >= 0 {
			used[t.Name[:i]] = true
		}
		if read.Builtin(f.Lang, t.Name) || decl[t.Name] || known[Fold(t.Name)] {
			return
		}
		rep(Diff{Class: "dangling", Decl: d, Memb: m, Exp: "a declared type", Got: t.Name})
	}
	for _, d := range f.Decls {
		if d.Kind == "alias" {
			ref(d.Name, "", d.Type)
			if f.Lang == "TypeScript" || f.Lang == "Go" || f.Lang == "C" {
				if d.Type.Name == d.Name {
					rep(Diff{Class: "dangling", Decl: d.Name, Exp: "a type other than itself", Got: d.Type.Name})
				}
			}
		}
		if d.Extends != "" {
			ref(d.Name, "extends", parseExt(d.Extends))
		}
		mem := map[string]bool{}
		if f.Lang == "Go" && d.XML != "" {
			mem["XMLName"] = true
			used["xml"] = true
		}
		for _, g := range d.Fields {
			if mem[g.Name] {
				rep(Diff{Class: "member-dup", Decl: d.Name, Memb: g.Name, Exp: "one member", Got: "two"})
			}
			mem[g.Name] = true
			ref(d.Name, g.Name, g.Type)
		}
		en := map[string]bool{}
		for _, e := range d.Enums {
			if en[e.Name] {
				rep(Diff{Class: "member-dup", Decl: d.Name, Memb: e.Name, Exp: "one constant", Got: "two"})
			}
			en[e.Name] = true
		}
	}
	if f.Lang == "Go" {
		imp := map[string]bool{}
		for _, i := range f.Imports {
			imp[i[strings.LastIndex(i, "/")+1:]] = true
		}
		for p := range used {
			if !imp[p] {
				rep(Diff{Class: "import", Exp: "import of " + p, Got: "none"})
			}
		}
		for p := range imp {
			if !used[p] {
				rep(Diff{Class: "import", Exp: "no unused import", Got: p})
			}
		}
	}
	return
}
