// Package xsd holds abstract schemas, the states the explorers enumerate, and
// renders them as XML Schema documents.
package xsd

import (
	"fmt"
	"strings"
)

// Ref references a type, element, attribute or group. NS is "xs" for the
// XML Schema namespace, "t" for the target namespace, "o" for the namespace of
// an imported file, "xml" for the xml namespace.
type Ref struct{ NS, Name string }

// XS references a built-in type.
func XS(n string) Ref { return Ref{"xs", n} }

// T references a component of the target namespace.
func T(n string) Ref { return Ref{"t", n} }

// Zero tells whether the reference is absent.
func (r Ref) Zero() bool { return r.Name == "" }

// Facet of a restriction.
type Facet struct{ Kind, Value string }

// Simple type definition.
type Simple struct {
	Name    string
	Variety string // restriction, list, union
	Base    Ref    // base or item type
	InBase  *Simple
	Facets  []Facet
	Members []Ref
	InMem   []*Simple
	Doc     string
	Ann     *X // complete annotation, when not plain documentation
}

// Attr is an attribute declaration or reference, or (Group set) an
// attribute-group reference.
type Attr struct {
	Name   string
	Ref    Ref
	Type   Ref
	Inline *Simple
	Use    string
	Doc    string
	Group  Ref
	Extra  [][2]string // further XML attributes (default, fixed, form, ...)
}

// Elem is an element declaration or reference.
type Elem struct {
	Name    string
	Ref     Ref
	Type    Ref
	InS     *Simple
	InC     *Complex
	Min     string
	Max     string
	Doc     string
	Extra   [][2]string
	Nillabl bool
	Subst   Ref // head of the substitution group
}

// Particle is a node of a content model.
type Particle struct {
	Kind string // elem, sequence, choice, all, group, any
	E    *Elem
	Ref  Ref // group reference
	Min  string
	Max  string
	Kids []*Particle
	Doc  string
}

// Complex type definition.
type Complex struct {
	Name    string
	Content *Particle
	Attrs   []*Attr
	AnyAttr bool
	Deriv   string // "", simpleExt, complexExt, complexRestr, simpleRestr
	Base    Ref
	Mixed   bool
	Doc     string
	Extra   [][2]string
}

// Group is a named model group.
type Group struct {
	Name    string
	Content *Particle
	Doc     string
}

// AttrGroup is a named attribute group.
type AttrGroup struct {
	Name  string
	Attrs []*Attr
	Doc   string
}

// Comp is a top-level component; exactly one field is set.
type Comp struct {
	S  *Simple
	C  *Complex
	E  *Elem
	A  *Attr
	G  *Group
	AG *AttrGroup
}

// Name of the component.
func (c Comp) Name() string {
	switch {
	case c.S != nil:
		return c.S.Name
	case c.C != nil:
		return c.C.Name
	case c.E != nil:
		return c.E.Name
	case c.A != nil:
		return c.A.Name
	case c.G != nil:
		return c.G.Name
	}
	return c.AG.Name
}

// Schema is a schema document.
type Schema struct {
	Comps    []Comp
	Includes []string    // schemaLocation
	Imports  [][2]string // namespace, schemaLocation
	Links    []Link      // further includes and imports, in order
	TNS      string      // default urn:t
	Other    string      // namespace bound to prefix o
	NoTNS    bool
	NSs      [][2]string // further prefixes and their namespaces
	Doc      string
}

// Link is an include or an import.
type Link struct {
	Include bool
	NS      string // "" if none
	Loc     string // "-" if none is given
}

// X is an XML element of the rendered document, or text if Name is empty.
type X struct {
	NS, Name string
	Attrs    []XAttr
	Kids     []*X
	Text     string
	Raw      string // raw markup, written verbatim
	Bind     *Bind  // namespaces bound anew on this element
	Foreign  bool   // foreign attributes on this element
}

// Bind binds the XML Schema and target namespaces to other prefixes.
type Bind struct {
	XS, T     string
	KeepXS    bool // the XML Schema namespace keeps its prefix
	KeepT     bool
	OnlyKids  bool // the element itself still has its old prefix
	TNS       string
	Redeclare bool // further, unused declarations
}

// XAttr is an attribute; QRef marks values that are QName lists.
type XAttr struct {
	Name string
	Val  string
	Refs []Ref
}

func (x *X) a(name, val string) {
	if val != "" {
		x.Attrs = append(x.Attrs, XAttr{Name: name, Val: val})
	}
}
func (x *X) r(name string, r Ref) {
	if !r.Zero() {
		x.Attrs = append(x.Attrs, XAttr{Name: name, Refs: []Ref{r}})
	}
}
func (x *X) add(k ...*X) *X {
	for _, y := range k {
		if y != nil {
			x.Kids = append(x.Kids, y)
		}
	}
	return x
}
func (x *X) extra(e [][2]string) {
	for _, p := range e {
		x.a(p[0], p[1])
	}
}

// E makes an element of the XML Schema namespace.
func E(name string, kids ...*X) *X { return (&X{NS: "xs", Name: name}).add(kids...) }

// DocNode makes an annotation.
func DocNode(doc string) *X {
	if doc == "" {
		return nil
	}
	return E("annotation", E("documentation", &X{Text: doc}))
}

// Tree renders the schema as an XML tree.
func (s *Schema) Tree() *X {
	root := E("schema")
	root.add(DocNode(s.Doc))
	for _, i := range s.Includes {
		n := E("include")
		n.a("schemaLocation", i)
		root.add(n)
	}
	for _, i := range s.Imports {
		n := E("import")
		if i[0] != "" {
			n.a("namespace", i[0])
		}
		n.a("schemaLocation", i[1])
		root.add(n)
	}
	for _, l := range s.Links {
		n := E("import")
		if l.Include {
			n = E("include")
		} else if l.NS != "" {
			n.a("namespace", l.NS)
		}
		if l.Loc != "-" {
			n.a("schemaLocation", l.Loc)
		}
		root.add(n)
	}
	for _, c := range s.Comps {
		root.add(c.Tree())
	}
	return root
}

// Tree renders a component.
func (c Comp) Tree() *X {
	switch {
	case c.S != nil:
		return c.S.tree()
	case c.C != nil:
		return c.C.tree()
	case c.E != nil:
		return c.E.tree()
	case c.A != nil:
		return c.A.tree()
	case c.G != nil:
		x := E("group")
		x.a("name", c.G.Name)
		return x.add(DocNode(c.G.Doc), c.G.Content.tree())
	}
	x := E("attributeGroup")
	x.a("name", c.AG.Name)
	x.add(DocNode(c.AG.Doc))
	for _, a := range c.AG.Attrs {
		x.add(a.tree())
	}
	return x
}

func (s *Simple) tree() *X {
	x := E("simpleType")
	x.a("name", s.Name)
	if s.Ann != nil {
		x.add(s.Ann)
	} else {
		x.add(DocNode(s.Doc))
	}
	switch s.Variety {
	case "list":
		y := E("list")
		y.r("itemType", s.Base)
		if s.InBase != nil {
			y.add(s.InBase.tree())
		}
		x.add(y)
	case "union":
		y := E("union")
		if len(s.Members) > 0 {
			y.Attrs = append(y.Attrs, XAttr{Name: "memberTypes", Refs: s.Members})
		}
		for _, m := range s.InMem {
			y.add(m.tree())
		}
		x.add(y)
	default:
		y := E("restriction")
		y.r("base", s.Base)
		if s.InBase != nil {
			y.add(s.InBase.tree())
		}
		for _, f := range s.Facets {
			z := E(f.Kind)
			z.Attrs = append(z.Attrs, XAttr{Name: "value", Val: f.Value})
			y.add(z)
		}
		x.add(y)
	}
	return x
}

func (a *Attr) tree() *X {
	if !a.Group.Zero() {
		x := E("attributeGroup")
		x.r("ref", a.Group)
		return x.add(DocNode(a.Doc))
	}
	x := E("attribute")
	x.a("name", a.Name)
	x.r("ref", a.Ref)
	x.r("type", a.Type)
	x.a("use", a.Use)
	x.extra(a.Extra)
	x.add(DocNode(a.Doc))
	if a.Inline != nil {
		x.add(a.Inline.tree())
	}
	return x
}

func (e *Elem) tree() *X {
	x := E("element")
	x.a("name", e.Name)
	x.r("ref", e.Ref)
	x.r("type", e.Type)
	x.r("substitutionGroup", e.Subst)
	x.a("minOccurs", e.Min)
	x.a("maxOccurs", e.Max)
	x.extra(e.Extra)
	x.add(DocNode(e.Doc))
	if e.InS != nil {
		x.add(e.InS.tree())
	}
	if e.InC != nil {
		x.add(e.InC.tree())
	}
	return x
}

func (p *Particle) tree() *X {
	if p == nil {
		return nil
	}
	if p.Kind == "elem" {
		return p.E.tree()
	}
	x := E(p.Kind)
	x.r("ref", p.Ref)
	x.a("minOccurs", p.Min)
	x.a("maxOccurs", p.Max)
	x.add(DocNode(p.Doc))
	for _, k := range p.Kids {
		x.add(k.tree())
	}
	return x
}

func (c *Complex) tree() *X {
	x := E("complexType")
	x.a("name", c.Name)
	if c.Mixed {
		x.a("mixed", "true")
	}
	x.extra(c.Extra)
	x.add(DocNode(c.Doc))
	in := x
	switch c.Deriv {
	case "simpleExt", "simpleRestr":
		in = E("extension")
		if c.Deriv == "simpleRestr" {
			in = E("restriction")
		}
		x.add(E("simpleContent", in))
	case "complexExt", "complexRestr":
		in = E("extension")
		if c.Deriv == "complexRestr" {
			in = E("restriction")
		}
		x.add(E("complexContent", in))
	}
	if c.Deriv != "" {
		in.r("base", c.Base)
	}
	in.add(c.Content.tree())
	for _, a := range c.Attrs {
		in.add(a.tree())
	}
	if c.AnyAttr {
		in.add(E("anyAttribute"))
	}
	return x
}

// Style is the lexical form of a document.
type Style struct {
	XS, T, O  string // prefixes; "" = default namespace
	Quote     string // attribute quote
	Pretty    bool
	Decl      string // XML declaration and whatever precedes the root
	Comment   bool   // comments between all elements
	PI        bool
	Long      bool // <a></a> instead of <a/>
	RevAttr   bool // reverse attribute order
	CharRef   bool // character references in attribute values
	CDATA     bool // text as CDATA
	SpaceAttr bool // extra white space inside tags
	Foreign   bool // foreign attributes on every element
	ForeignEl bool // foreign elements in appinfo on every component
	LateNS    bool // xmlns attributes after the others
	CRLF      bool
	Pad       string // white space around attribute values that are tokens
	Tail      string // what follows the root
}

// Plain is the default style.
var Plain = Style{XS: "xs", T: "t", O: "o", Quote: `"`, Pretty: true, Decl: `<?xml version="1.0" encoding="UTF-8"?>` + "\n"}

// XSNS is the XML Schema namespace.
const XSNS = "http://www.w3.org/2001/XMLSchema"

func esc(s string, q string, ref bool) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r == '&':
			b.WriteString("&amp;")
		case r == '<':
			b.WriteString("&lt;")
		case r == '>':
			b.WriteString("&gt;")
		case r == '"' && q == `"`:
			b.WriteString("&quot;")
		case r == '\'' && q == `'`:
			b.WriteString("&apos;")
		case r == '\r' || (q != "" && (r == '\n' || r == '\t')):
			fmt.Fprintf(&b, "&#%d;", r)
		case ref && r < 128 && q != "":
			fmt.Fprintf(&b, "&#x%X;", r)
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

func (st Style) qname(ns, name string) string {
	p := map[string]string{"xs": st.XS, "t": st.T, "o": st.O, "xml": "xml"}[ns]
	if ns != "" && ns != "-" && ns != "xs" && ns != "t" && ns != "o" {
		p = ns
	}
	if ns == "" || p == "" {
		return name
	}
	return p + ":" + name
}

// Write renders the tree; the root gets the namespace declarations.
func (st Style) Write(root *X, s *Schema) string {
	var b strings.Builder
	b.WriteString(st.Decl)
	st.write(&b, root, 0, s)
	if st.Pretty {
		b.WriteByte('\n')
	}
	b.WriteString(st.Tail)
	out := b.String()
	if st.CRLF {
		out = strings.ReplaceAll(out, "\n", "\r\n")
	}
	return out
}

func (st Style) write(b *strings.Builder, x *X, depth int, s *Schema) {
	if x.Raw != "" {
		b.WriteString(x.Raw)
		return
	}
	if x.Name == "" {
		if st.CDATA && !strings.Contains(x.Text, "]]>") && !strings.Contains(x.Text, "\r") {
			b.WriteString("<![CDATA[" + x.Text + "]]>")
		} else {
			b.WriteString(esc(x.Text, "", false))
		}
		return
	}
	if st.Pretty && depth > 0 {
		b.WriteString("\n" + strings.Repeat("  ", depth))
	}
	if st.Comment && depth > 0 {
		b.WriteString("<!-- element name=\"x\" <xs:element/> -->")
	}
	if st.PI && depth > 0 {
		b.WriteString("<?pi element ?>")
	}
	var binds [][2]string
	old := st
	if x.Bind != nil {
		ns := func(p, uri string) {
			n := "xmlns"
			if p != "" {
				n += ":" + p
			}
			binds = append(binds, [2]string{n, uri})
		}
		if !x.Bind.KeepXS {
			st.XS = x.Bind.XS
			ns(st.XS, XSNS)
		}
		if !x.Bind.KeepT {
			st.T = x.Bind.T
			ns(st.T, x.Bind.TNS)
		}
		if x.Bind.Redeclare {
			ns("unused", "urn:unused")
			ns("unusedxs", XSNS)
		}
	}
	qn := st.qname(x.NS, x.Name)
	if x.Bind != nil && x.Bind.OnlyKids {
		qn = old.qname(x.NS, x.Name)
	}
	b.WriteString("<" + qn)
	var attrs []string
	sp := ""
	if st.SpaceAttr {
		sp = "\n "
	}
	emit := func(n, v string) {
		attrs = append(attrs, " "+sp+n+sp+"="+sp+st.Quote+esc(v, st.Quote, st.CharRef && !strings.HasPrefix(n, "xmlns"))+st.Quote)
	}
	for _, a := range x.Attrs {
		v := a.Val
		if a.Refs != nil {
			var l []string
			for _, r := range a.Refs {
				l = append(l, st.qname(r.NS, r.Name))
			}
			v = strings.Join(l, " ")
			if st.Pad != "" {
				v = strings.Join(l, " "+st.Pad)
			}
		}
		if st.Pad != "" && a.Name != "value" && a.Name != "default" && a.Name != "fixed" {
			v = st.Pad + v + st.Pad
		}
		emit(a.Name, v)
	}
	for _, p := range binds {
		emit(p[0], p[1])
	}
	if x.Foreign && depth > 0 {
		emit("xmlns:ff", "urn:foreign")
		for _, n := range []string{"name", "type", "ref", "base", "value", "maxOccurs", "use", "itemType", "memberTypes", "id"} {
			emit("ff:"+n, "ff:Foreign")
		}
		emit("xml:lang", "en")
		emit("xml:base", "urn:x")
	}
	if st.Foreign {
		for _, n := range []string{"name", "type", "ref", "base", "value", "maxOccurs", "use", "itemType", "memberTypes", "schemaLocation", "namespace"} {
			emit("f:"+n, "t:Foreign")
		}
	}
	if st.RevAttr {
		for i, j := 0, len(attrs)-1; i < j; i, j = i+1, j-1 {
			attrs[i], attrs[j] = attrs[j], attrs[i]
		}
	}
	if depth == 0 && s != nil {
		var nsd []string
		save := attrs
		attrs = nil
		x := "xmlns"
		if st.XS != "" {
			x += ":" + st.XS
		}
		emit(x, XSNS)
		tns := s.TNS
		if tns == "" {
			tns = "urn:t"
		}
		if !s.NoTNS {
			x = "xmlns"
			if st.T != "" {
				x += ":" + st.T
			}
			emit(x, tns)
			emit("targetNamespace", tns)
		}
		if s.Other != "" {
			x = "xmlns"
			if st.O != "" {
				x += ":" + st.O
			}
			emit(x, s.Other)
		}
		for _, n := range s.NSs {
			emit("xmlns:"+n[0], n[1])
		}
		if st.Foreign || st.ForeignEl {
			emit("xmlns:f", "urn:foreign")
		}
		nsd = attrs
		if st.LateNS {
			for i, j := 0, len(nsd)-1; i < j; i, j = i+1, j-1 {
				nsd[i], nsd[j] = nsd[j], nsd[i]
			}
			attrs = append(save, nsd...)
		} else {
			attrs = append(nsd, save...)
		}
	}
	for _, a := range attrs {
		b.WriteString(a)
	}
	kids := x.Kids
	if st.ForeignEl && x.NS == "xs" && annotatable[x.Name] {
		fe := &X{Raw: "<" + st.qname("xs", "appinfo") + `><f:element name="Foreign1" type="xs:int"/><f:complexType name="Foreign2"><f:sequence><f:element name="x"/></f:sequence></f:complexType><f:charData/><f:simpleType name="Foreign3"/></` + st.qname("xs", "appinfo") + ">"}
		nk := []*X{}
		if len(kids) > 0 && kids[0].Name == "annotation" {
			ann := *kids[0]
			ann.Kids = append([]*X{fe}, ann.Kids...)
			nk = append(nk, &ann)
			nk = append(nk, kids[1:]...)
		} else {
			nk = append([]*X{E("annotation", fe)}, kids...)
		}
		kids = nk
	}
	if len(kids) == 0 && !st.Long {
		if st.SpaceAttr {
			b.WriteString(" ")
		}
		b.WriteString("/>")
		return
	}
	if st.SpaceAttr {
		b.WriteString(" ")
	}
	b.WriteString(">")
	elem := false
	for _, k := range kids {
		if k.Name != "" {
			elem = true
		}
		st.write(b, k, depth+1, s)
	}
	if st.Pretty && elem {
		b.WriteString("\n" + strings.Repeat("  ", depth))
	}
	b.WriteString("</" + qn)
	if st.SpaceAttr {
		b.WriteString(" \n")
	}
	b.WriteString(">")
}

var annotatable = map[string]bool{}

func init() {
	for _, n := range strings.Fields("simpleType complexType element attribute group attributeGroup sequence choice all any anyAttribute restriction extension simpleContent complexContent list union enumeration pattern length minLength maxLength minInclusive maxInclusive minExclusive maxExclusive totalDigits fractionDigits whiteSpace schema import include") {
		annotatable[n] = true
	}
}

// Annotatable lists the nodes of a tree that may hold an annotation, in
// document order, with their parents.
func Annotatable(root *X) (nodes, parents []*X) {
	var rec func(x, parent *X)
	rec = func(x, parent *X) {
		if x.NS == "xs" && annotatable[x.Name] {
			nodes = append(nodes, x)
			parents = append(parents, parent)
		}
		for _, k := range x.Kids {
			rec(k, x)
		}
	}
	rec(root, nil)
	return
}

// Attr returns the value of an attribute.
func (x *X) Attr(name string) string {
	for _, a := range x.Attrs {
		if a.Name == name {
			return a.Val
		}
	}
	return ""
}

// Annotate puts an annotation into a node.
func (x *X) Annotate(ann *X) {
	x.Kids = append([]*X{ann}, x.Kids...)
}

// Text renders the schema in the given style.
func (s *Schema) Text(st Style) string { return st.Write(s.Tree(), s) }
