package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"time"

	"verif/mc/eng"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

// node is an element of an instance document.
type node struct {
	name   string
	attrs  []nodeAttr
	kids   []*node
	text   string
	number bool   // the text is a floating-point number
	known  string // what recorded defect the element can be lost by
	dec    string // what recorded defect the element makes decoding fail by
}

type nodeAttr struct {
	name, val   string
	number      bool
	optional    bool
	known, dec_ string
}

func (n *node) write(b *strings.Builder, ns string) {
	b.WriteString("<" + ns + n.name)
	if ns != "" {
		b.WriteString(` xmlns:` + strings.TrimSuffix(ns, ":") + `="urn:t"`)
	}
	for _, a := range n.attrs {
		fmt.Fprintf(b, ` %s="`, a.name)
		xml.EscapeText(b, []byte(a.val))
		b.WriteString(`"`)
	}
	b.WriteString(">")
	if len(n.kids) > 0 {
		b.WriteString("\n")
	} else {
		xml.EscapeText(b, []byte(n.text))
	}
	for _, k := range n.kids {
		k.write(b, "")
		b.WriteString("\n")
	}
	b.WriteString("</" + ns + n.name + ">")
}

// expected recorded defects that keep a document from being decoded.
func (n *node) undecodable() (l []string) {
	if n.dec != "" {
		l = append(l, n.dec)
	}
	for _, a := range n.attrs {
		if a.dec_ != "" {
			l = append(l, a.dec_)
		}
	}
	for _, k := range n.kids {
		l = append(l, k.undecodable()...)
	}
	return
}

// chooser yields the choices of one document.
type chooser struct {
	vec  []int
	opts []int
	n    int // running number, keeps values apart
}

func (c *chooser) choose(n int) int {
	if n < 1 {
		n = 1
	}
	v := 0
	if len(c.opts) < len(c.vec) {
		v = c.vec[len(c.opts)]
	} else {
		c.vec = append(c.vec, 0)
	}
	c.opts = append(c.opts, n)
	if v >= n {
		panic("check error: a choice vanished")
	}
	return v
}

// documents enumerates the documents that deviate in at most the given number
// of choices from the plainest one.
func documents(deviations int, make func(c *chooser), emit func()) {
	var rec func(prefix []int, left int)
	rec = func(prefix []int, left int) {
		c := &chooser{vec: append([]int{}, prefix...)}
		make(c)
		emit()
		if left == 0 {
			return
		}
		for p := len(prefix); p < len(c.opts); p++ {
			for v := 1; v < c.opts[p]; v++ {
				rec(append(append([]int{}, c.vec[:p]...), v), left-1)
			}
		}
	}
	rec(nil, deviations)
}

type unsupported string

// instances makes documents of a schema.
type instances struct {
	*chooser
	s     *xsd.Schema
	depth int
}

func (g *instances) find(kind string, r xsd.Ref) xsd.Comp {
	for _, c := range g.s.Comps {
		k := ""
		switch {
		case c.S != nil, c.C != nil:
			k = "type"
		case c.E != nil:
			k = "elem"
		case c.A != nil:
			k = "attr"
		case c.G != nil:
			k = "group"
		case c.AG != nil:
			k = "agroup"
		}
		if k == kind && c.Name() == r.Name {
			return c
		}
	}
	panic("check error: no " + kind + " " + r.Name)
}

// value is a value of a simple type.
type value struct {
	text        string
	number      bool
	known, fail string // recorded defects: lost, decoding fails
}

var numbered = regexp.MustCompile("#")

// values of the built-in types; # is a number that keeps values apart. The
// values of integer types include the least and the greatest that any
// implementation has to take, or the 64-bit ones.
var values = map[string][]string{
	"string":             {"v#", "", "a<b>&\"c'", " x  y ", "\u00e9\u4e2d\U0001F600", "0", "true"},
	"normalizedString":   {"v#", "", " x  y "},
	"token":              {"v#", "", "x y"},
	"language":           {"en-x-a#", "de"},
	"Name":               {"v#", "a:b-c"},
	"NCName":             {"v#", "_a-b.c"},
	"NMTOKEN":            {"v#", "0"},
	"NMTOKENS":           {"v#", "a b"},
	"ID":                 {"v#"},
	"IDREF":              {"v#"},
	"IDREFS":             {"v#", "a b"},
	"ENTITY":             {"v#"},
	"ENTITIES":           {"v#", "a b"},
	"NOTATION":           {"v#", "p:n"},
	"QName":              {"v#", "p:n"},
	"anyURI":             {"http://x/#", "", "urn:a?b=c&d#e"},
	"anyType":            {"v#", ""},
	"anySimpleType":      {"v#", ""},
	"boolean":            {"true", "false"},
	"byte":               {"#", "-128", "127", "0"},
	"short":              {"#", "-32768", "32767", "0"},
	"int":                {"#", "-2147483648", "2147483647", "0"},
	"long":               {"#", "-9223372036854775808", "9223372036854775807", "0"},
	"integer":            {"#", "-9223372036854775808", "9223372036854775807", "0"},
	"nonNegativeInteger": {"#", "9223372036854775807", "0"},
	"positiveInteger":    {"#", "9223372036854775807"},
	"nonPositiveInteger": {"-#", "-9223372036854775808", "0"},
	"negativeInteger":    {"-#", "-9223372036854775808"},
	"unsignedByte":       {"#", "255", "0"},
	"unsignedShort":      {"#", "65535", "0"},
	"unsignedInt":        {"#", "4294967295", "0"},
	"unsignedLong":       {"#", "18446744073709551615", "0"},
	"decimal":            {"#.5", "-0.125", "123456789012345", "0"},
	"float":              {"#.5", "-1.5E-10", "3.4028235E38", "0"},
	"double":             {"#.5", "1.7976931348623157E308", "4.9E-324", "0"},
	"duration":           {"P#D", "-P1Y2M3DT4H5M6.7S"},
	"dateTime":           {"2001-02-03T04:05:#", "2001-02-03T04:05:06Z", "-0044-03-15T00:00:00.5+01:00"},
	"date":               {"2001-02-#", "2001-02-03Z", "2001-02-03-05:00"},
	"time":               {"04:05:#", "04:05:06.5Z"},
	"gYear":              {"20#", "-0044Z"},
	"gYearMonth":         {"20#-05"},
	"gMonth":             {"--12", "--01Z"},
	"gMonthDay":          {"--12-#"},
	"gDay":               {"---#"},
	"hexBinary":          {"0AFF#", "", "00"},
	"base64Binary":       {"AAE=", "", "/+8#"},
	"xml:lang":           {"en", "de-CH", ""},
	"xml:space":          {"preserve", "default"},
	"xml:base":           {"http://x/#"},
	"xml:id":             {"v#"},
}

var floating = map[string]bool{"decimal": true, "float": true, "double": true}

func (g *instances) builtin(name string) value {
	l, ok := values[name]
	if !ok {
		panic("check error: no values of " + name)
	}
	g.n++
	v := value{text: numbered.ReplaceAllString(l[g.choose(len(l))], strconv.Itoa(10+g.n%18)), number: floating[name]}
	switch name {
	case "time":
		v.known, v.fail = "go-time", "go-time"
	case "QName":
		v.known, v.fail = "go-qname", "go-qname"
	}
	return v
}

var listTypes = map[string]bool{"NMTOKENS": true, "IDREFS": true, "ENTITIES": true, "NOTATION": true}

// simple is a value of a type given by reference or inline.
func (g *instances) simple(r xsd.Ref, in *xsd.Simple) value {
	if in == nil {
		switch {
		case r.Zero():
			return g.builtin("anyType")
		case r.NS == "xs":
			return g.builtin(r.Name)
		case r.NS == "xml":
			return g.builtin("xml:" + r.Name)
		}
		c := g.find("type", r)
		if c.S == nil {
			panic("check error: not a simple type: " + r.Name)
		}
		in = c.S
	}
	switch in.Variety {
	case "list":
		a := g.simple(in.Base, in.InBase)
		b := g.simple(in.Base, in.InBase)
		return value{text: strings.TrimSpace(strings.Join(strings.Fields(a.text+" "+b.text), " ")), known: "go-list", fail: "go-list"}
	case "union":
		var v value
		if k := g.choose(len(in.Members) + len(in.InMem)); k < len(in.Members) {
			v = g.simple(in.Members[k], nil)
		} else {
			v = g.simple(xsd.Ref{}, in.InMem[k-len(in.Members)])
		}
		v.known, v.fail = "go-union", "go-union"
		return v
	}
	var enum []string
	base := g.primitive(in)
	for _, f := range in.Facets {
		switch f.Kind {
		case "enumeration":
			enum = append(enum, f.Value)
		case "whiteSpace":
		default:
			if base == "" || len(values[base]) == 0 || f.Kind != "minInclusive" && f.Kind != "maxInclusive" {
				panic(unsupported("facet " + f.Kind))
			}
			panic(unsupported("facet " + f.Kind))
		}
	}
	if enum != nil {
		v := value{text: enum[g.choose(len(enum))], number: floating[base]}
		switch {
		case base == "time":
			v.known, v.fail = "go-time", "go-time"
		case base == "QName":
			v.known, v.fail = "go-qname", "go-qname"
		case base == "boolean":
			panic(unsupported("enumeration of boolean"))
		}
		return v
	}
	return g.simple(in.Base, in.InBase)
}

// primitive is the built-in type a restriction comes from, if any.
func (g *instances) primitive(s *xsd.Simple) string {
	for s != nil && s.Variety != "list" && s.Variety != "union" {
		if s.InBase != nil {
			s = s.InBase
			continue
		}
		if s.Base.NS == "xs" {
			return s.Base.Name
		}
		c := g.find("type", s.Base)
		s = c.S
	}
	return ""
}

func (g *instances) elem(e *xsd.Elem) *node {
	if !e.Ref.Zero() {
		e = g.find("elem", e.Ref).E
	}
	n := &node{name: e.Name}
	for e.Type.Zero() && e.InC == nil && e.InS == nil && !e.Subst.Zero() { // the type of the head
		e = g.find("elem", e.Subst).E
	}
	if g.depth++; g.depth > 12 {
		panic(unsupported("recursion"))
	}
	defer func() { g.depth-- }()
	var v value
	switch {
	case e.InC != nil:
		g.complex(e.InC, n)
		if e.Name != n.name { // the generated type is bound to the name of the head
			n.known, n.dec = "go-head", "go-head"
		}
		if spec.IsLangType("Go", e.Name) { // taken for the built-in type
			n.known, n.dec = "type-name-Go", "type-name-Go"
			for i := range n.attrs {
				n.attrs[i].known = n.known
			}
			for _, k := range n.kids {
				k.known = n.known
			}
		}
		return n
	case e.InS != nil:
		v = g.simple(xsd.Ref{}, e.InS)
	case e.Type.NS == "t":
		if c := g.find("type", e.Type); c.C != nil {
			g.complex(c.C, n)
			return n
		}
		v = g.simple(e.Type, nil)
	default:
		v = g.simple(e.Type, nil)
	}
	n.text, n.number, n.known, n.dec = v.text, v.number, v.known, v.fail
	return n
}

func (g *instances) content(n *node, v value, list bool) {
	n.text, n.number, n.known, n.dec = v.text, v.number, v.known, v.fail
	if list {
		n.known, n.dec = "go-list", "go-list"
	}
}

func (g *instances) complex(c *xsd.Complex, n *node) {
	if c.Mixed || c.AnyAttr {
		panic(unsupported("wildcard or mixed content"))
	}
	switch c.Deriv {
	case "simpleExt", "simpleRestr":
		if c.Base.NS == "t" {
			if b := g.find("type", c.Base); b.C != nil {
				g.complex(b.C, n)
				g.attributes(n, c.Attrs, "")
				return
			}
		}
		list := c.Base.NS == "xs" && listTypes[c.Base.Name]
		if c.Base.NS == "t" {
			list = listTypes[g.primitive(g.find("type", c.Base).S)]
		}
		g.content(n, g.simple(c.Base, nil), list)
	case "complexExt":
		g.complex(g.find("type", c.Base).C, n)
		g.particle(n, c.Content, "")
	case "complexRestr":
		var b node
		g.complex(g.find("type", c.Base).C, &b)
		n.attrs = append(n.attrs, b.attrs...)
		g.particle(n, c.Content, "")
	default:
		g.particle(n, c.Content, "")
	}
	g.attributes(n, c.Attrs, "")
}

func (g *instances) attributes(n *node, as []*xsd.Attr, known string) {
	for _, a := range as {
		if !a.Group.Zero() {
			g.attributes(n, g.find("agroup", a.Group).AG.Attrs, "go-attribute-group")
			continue
		}
		if a.Use == "prohibited" || a.Use != "required" && g.choose(2) == 1 {
			continue
		}
		d := a
		name := a.Name
		var v value
		switch {
		case a.Ref.NS == "xml":
			name = "xml:" + a.Ref.Name
			v = g.simple(a.Ref, nil)
		case !a.Ref.Zero():
			d = g.find("attr", a.Ref).A
			name = d.Name
			v = g.simple(d.Type, d.Inline)
		default:
			v = g.simple(d.Type, d.Inline)
		}
		for i := range n.attrs {
			if n.attrs[i].name == name {
				panic(unsupported("redeclared attribute"))
			}
		}
		if known != "" {
			v.known, v.fail = known, ""
		}
		n.attrs = append(n.attrs, nodeAttr{name: name, val: v.text, number: v.number, optional: a.Use != "required", known: v.known, dec_: v.fail})
	}
}

// times a particle occurs.
func (g *instances) times(min, max string) int {
	l := []int{1}
	if strings.Trim(min, "0") == "" && min != "" {
		l = append(l, 0)
	}
	if spec.Many(max) {
		l = append(l, 2)
		if strings.TrimLeft(max, "0") != "2" {
			l = append(l, 3)
		}
	}
	if max != "" && strings.Trim(max, "0") == "" {
		return 0
	}
	return l[g.choose(len(l))]
}

func (g *instances) particle(n *node, p *xsd.Particle, known string) {
	if p == nil {
		return
	}
	min, max := p.Min, p.Max
	if p.Kind == "elem" {
		min, max = p.E.Min, p.E.Max
	}
	if p.Kind == "any" {
		panic(unsupported("wildcard or mixed content"))
	}
	for k := g.times(min, max); k > 0; k-- {
		switch p.Kind {
		case "elem":
			e := g.elem(p.E)
			if known != "" {
				e.known = known
				e.clear()
			}
			n.kids = append(n.kids, e)
		case "choice":
			if len(p.Kids) > 0 {
				g.particle(n, p.Kids[g.choose(len(p.Kids))], known)
			}
		case "group":
			g.particle(n, g.find("group", p.Ref).G.Content, "go-group")
		default:
			for _, q := range p.Kids {
				g.particle(n, q, known)
			}
		}
	}
}

// clear forgets what decoding fails by: it is not decoded at all.
func (n *node) clear() {
	n.dec = ""
	for i := range n.attrs {
		n.attrs[i].dec_ = ""
	}
	for _, k := range n.kids {
		k.clear()
	}
}

// rtProgram is compiled with the generated sources; it decodes and encodes
// documents.
const rtProgram = `package main

import (
	"bytes"
	"encoding/json"
	"encoding/xml"
	"fmt"
	"os"
	"bufio"
)

type job struct {
	Key     string
	Name    string // of the root, if the type does not know
	Doc     string
}

type result struct{ Out, Err string }

var types = map[string]func() interface{}{}

func do(j job) (r result) {
	defer func() {
		if p := recover(); p != nil {
			r.Err = fmt.Sprint("panic: ", p)
		}
	}()
	v := types[j.Key]()
	if err := xml.Unmarshal([]byte(j.Doc), v); err != nil {
		r.Err = "decoding: " + err.Error()
		return
	}
	var b bytes.Buffer
	e := xml.NewEncoder(&b)
	var err error
	if j.Name == "" {
		err = e.Encode(v)
	} else {
		err = e.EncodeElement(v, xml.StartElement{Name: xml.Name{Local: j.Name}})
	}
	if err == nil {
		err = e.Flush()
	}
	if err != nil {
		r.Err = "encoding: " + err.Error()
	}
	r.Out = b.String()
	return
}

func main() {
	in := json.NewDecoder(bufio.NewReader(os.Stdin))
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	for in.More() {
		var j job
		if err := in.Decode(&j); err != nil {
			panic(err)
		}
		enc.Encode(do(j))
	}
	out.Flush()
}
`

// rtRoot is a root element of a schema under test.
type rtRoot struct {
	elem  *xsd.Elem
	ident string
	named bool // the type does not have the name of the element
}

// rtItem is a schema under test.
type rtItem struct {
	label  string
	s      *xsd.Schema
	roots  []rtRoot
	doc    string
	source string
}

func goIdent(name string) (id string) {
	for _, w := range strings.FieldsFunc(name, func(r rune) bool { return r == '.' }) {
		id += strings.ToUpper(w[:1]) + w[1:]
	}
	return strings.NewReplacer("-", "", "_", "").Replace(id)
}

// rootsOf adds a root element for each type, and lists all root elements.
func rootsOf(s *xsd.Schema) (l []rtRoot) {
	n := 0
	comps := s.Comps
	for _, c := range comps {
		name := c.Name()
		helper := len(name) > 1 && name[0] == 'H' && strings.ToUpper(name) == name
		if helper {
			continue
		}
		switch {
		case c.E != nil:
			l = append(l, rtRoot{elem: c.E, ident: goIdent(name), named: c.E.InC == nil})
		case c.C != nil || c.S != nil:
			n++
			e := &xsd.Elem{Name: fmt.Sprintf("Root%d", n), Type: xsd.T(name)}
			s.Comps = append(s.Comps, xsd.Comp{E: e})
			l = append(l, rtRoot{elem: e, ident: e.Name, named: true})
		}
	}
	return
}

// rtBatch generates, compiles and runs a number of schemas.
func rtBatch(c *eng.Ctx, items []space.Item, deviations int) {
	dir := filepath.Join(c.Dir, "rt")
	os.MkdirAll(dir, 0755)
	wipe(dir)
	write := func(name, text string) {
		p := filepath.Join(dir, name)
		os.MkdirAll(filepath.Dir(p), 0755)
		if err := ioutil.WriteFile(p, []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	b := box(c)
	all := make([]*rtItem, len(items))
	live := map[int]bool{}
	for i, it := range items {
		r := &rtItem{label: it.Label, s: it.Schema()}
		all[i] = r
		r.roots = rootsOf(r.s)
		r.doc = r.s.Text(xsd.Plain)
		if len(r.roots) == 0 {
			continue
		}
		out, err, p := b.Conv(r.doc, "Go")
		c.Transition(1, 1)
		if err != nil || p != "" {
			c.Report("no output", fmt.Sprintf("%s: conversion failed: %v %s", r.label, err, p), "", map[string]string{"a.xsd": r.doc})
			continue
		}
		r.source = out
		live[i] = true
	}
	write("go.mod", "module rt\n\ngo 1.15\n")
	files := func(r *rtItem) map[string]string {
		return map[string]string{"a.xsd": r.doc, "a.xsd.go": r.source}
	}
	for round := 0; ; round++ {
		for i, r := range all {
			pk := fmt.Sprintf("p%d", i)
			if !live[i] {
				os.RemoveAll(filepath.Join(dir, pk))
				os.Remove(filepath.Join(dir, pk+".go"))
				continue
			}
			if round > 0 {
				continue
			}
			write(pk+"/a.xsd.go", r.source)
			news := ""
			var reg strings.Builder
			for k, root := range r.roots {
				news += fmt.Sprintf("func VerifNew%d() interface{} { return new(%s) }\n", k, root.ident)
				fmt.Fprintf(&reg, "\ttypes[\"%d.%d\"] = p.VerifNew%d\n", i, k, k)
			}
			write(pk+"/verif.go", "package schema\n\n"+news)
			write(pk+".go", fmt.Sprintf("package main\n\nimport p \"rt/%s\"\n\nfunc init() {\n%s}\n", pk, reg.String()))
		}
		write("main.go", rtProgram)
		cmd := exec.Command("go", "build", "-p", "2", "-trimpath", "-gcflags=-e", "-o", "prog", ".")
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOMAXPROCS=2")
		o, err := cmd.CombinedOutput()
		if err == nil {
			break
		}
		// which packages do not compile?
		failed := 0
		at := -1
		msgs := map[int]string{}
		for _, l := range strings.Split(string(o), "\n") {
			if m := regexp.MustCompile(`^# rt/p(\d+)$`).FindStringSubmatch(l); m != nil {
				at, _ = strconv.Atoi(m[1])
				continue
			}
			if m := regexp.MustCompile(`^p(\d+)/[\w.]+:`).FindStringSubmatch(l); m != nil {
				at, _ = strconv.Atoi(m[1]) // a file that does not parse
			} else if strings.HasPrefix(l, "p") && strings.Contains(l, ".go:") || strings.HasPrefix(l, "#") {
				at = -1
			}
			if at >= 0 && l != "" {
				msgs[at] += l + "\n"
			}
		}
		for i, m := range msgs {
			if live[i] {
				failed++
				live[i] = false
				c.Report("compile", fmt.Sprintf("%s: the generated Go does not compile: %s", all[i].label, firstLines(m, 5)), "", files(all[i]))
			}
		}
		if failed == 0 || round > 4 {
			panic("check error: go build failed: " + firstLines(string(o), 20))
		}
	}

	type job struct {
		Key, Name, Doc string
		item           *rtItem
		tree           *node
	}
	var jobs []job
	flush := func() {
		if len(jobs) == 0 {
			return
		}
		var in bytes.Buffer
		enc := json.NewEncoder(&in)
		for _, j := range jobs {
			enc.Encode(j)
		}
		cmd := exec.Command(filepath.Join(dir, "prog"))
		cmd.Dir = dir
		cmd.Env = append(os.Environ(), "GOMAXPROCS=2")
		cmd.Stdin = &in
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		if err := cmd.Run(); err != nil {
			panic("check error: the round-trip program failed: " + err.Error() + firstLines(stderr.String(), 20))
		}
		dec := json.NewDecoder(&stdout)
		c.AddStates(len(jobs))
		c.Count("documents", int64(len(jobs)))
		c.Transition(len(jobs), len(jobs))
		for _, j := range jobs {
			var r struct{ Out, Err string }
			if err := dec.Decode(&r); err != nil {
				panic("check error: " + err.Error())
			}
			f := files(j.item)
			f["in.xml"], f["out.xml"] = j.Doc, r.Out
			report := func(sig, msg, known string) {
				if known != "" && !c.Known(known) {
					known = ""
				}
				c.Report(sig, j.item.label+": "+msg, known, f)
			}
			if r.Err != "" {
				known := ""
				if l := j.tree.undecodable(); len(l) > 0 && (!strings.HasPrefix(r.Err, "panic") || strings.Contains(r.Err, "SetBytes of non-byte slice")) {
					known = l[0]
				}
				report("error "+firstWords2(r.Err), r.Err, known)
				continue
			}
			got, err := parseNode(r.Out)
			if err != nil {
				report("unreadable", "the encoded document: "+err.Error(), "")
				continue
			}
			compareNodes("", j.tree, got, report)
		}
		jobs = jobs[:0]
	}
	for i, r := range all {
		if !live[i] {
			continue
		}
		for k, root := range r.roots {
			func() {
				defer func() {
					if p := recover(); p != nil {
						if u, ok := p.(unsupported); ok {
							c.Count("left out: "+string(u), 1)
							return
						}
						panic(p)
					}
				}()
				var tree *node
				documents(deviations, func(ch *chooser) {
					tree = (&instances{chooser: ch, s: r.s}).elem(root.elem)
				}, func() {
					var t strings.Builder
					tree.write(&t, "q:")
					j := job{Key: fmt.Sprintf("%d.%d", i, k), Doc: t.String(), item: r, tree: tree}
					if root.named {
						j.Name = root.elem.Name
					}
					if jobs = append(jobs, j); len(jobs) == 20000 {
						flush()
					}
				})
			}()
		}
	}
	flush()
}

func firstWords2(s string) string {
	if i := strings.Index(s, ":"); i > 0 {
		return s[:i]
	}
	return s
}

// parseNode reads a document; names are taken without prefix.
func parseNode(doc string) (root *node, err error) {
	d := xml.NewDecoder(strings.NewReader(doc))
	var stack []*node
	for {
		t, err := d.RawToken()
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		switch x := t.(type) {
		case xml.StartElement:
			n := &node{name: x.Name.Local}
			for _, a := range x.Attr {
				n.attrs = append(n.attrs, nodeAttr{name: a.Name.Local, val: a.Value})
			}
			if len(stack) > 0 {
				p := stack[len(stack)-1]
				p.kids = append(p.kids, n)
			} else if root == nil {
				root = n
			} else {
				return nil, fmt.Errorf("two roots")
			}
			stack = append(stack, n)
		case xml.EndElement:
			if len(stack) == 0 || stack[len(stack)-1].name != x.Name.Local {
				return nil, fmt.Errorf("unbalanced")
			}
			stack = stack[:len(stack)-1]
		case xml.CharData:
			if len(stack) > 0 {
				stack[len(stack)-1].text += string(x)
			}
		}
	}
	if root == nil || len(stack) > 0 {
		return nil, fmt.Errorf("no complete document: %q", doc)
	}
	return
}

func local(name string) string { return name[strings.LastIndex(name, ":")+1:] }

func sameValue(a, b string, number bool) bool {
	if a == b {
		return true
	}
	if !number {
		return false
	}
	x, e1 := strconv.ParseFloat(a, 64)
	y, e2 := strconv.ParseFloat(b, 64)
	return e1 == nil && e2 == nil && (x == y || float32(x) == float32(y) && len(a) < 15)
}

func zero(s string) bool {
	return s == "" || s == "0" || s == "false" || s == "0001-01-01T00:00:00Z"
}

func (n *node) empty() bool {
	for _, a := range n.attrs {
		if !zero(a.val) {
			return false
		}
	}
	for _, k := range n.kids {
		if !k.empty() {
			return false
		}
	}
	return zero(strings.TrimSpace(n.text)) || len(n.kids) > 0
}

// compareNodes reports what of the document is not there again.
func compareNodes(path string, want, got *node, report func(sig, msg, known string)) {
	path += "/" + want.name
	if local(want.name) != got.name {
		report("name", fmt.Sprintf("%s is encoded as %s", path, got.name), want.known)
		return
	}
	if len(want.kids) == 0 && !sameValue(want.text, got.text, want.number) && !(want.text == "" && zero(got.text)) {
		report("value", fmt.Sprintf("%s: value %q is encoded as %q", path, want.text, got.text), want.known)
	}
	if len(want.kids) > 0 && strings.TrimSpace(got.text) != "" {
		report("text", fmt.Sprintf("%s: text %q appears", path, got.text), "")
	}
	have := map[string]string{}
	count := map[string]int{}
	for _, a := range got.attrs {
		have[a.name] = a.val
		if count[a.name]++; count[a.name] > 1 {
			report("attribute twice", fmt.Sprintf("%s: attribute %s is there twice", path, a.name), "")
		}
	}
	for _, a := range want.attrs {
		n := local(a.name)
		v, ok := have[n]
		delete(have, n)
		switch {
		case !ok:
			known := a.known
			if known == "" && a.optional && zero(a.val) {
				known = "go-optional-zero"
			}
			if a.optional && a.val == "" && known == "go-optional-zero" {
				known = "go-optional-zero"
			}
			report("attribute lost", fmt.Sprintf("%s: attribute %s=%q is lost", path, n, a.val), known)
		case !sameValue(a.val, v, a.number):
			report("attribute value", fmt.Sprintf("%s: attribute %s=%q is encoded as %q", path, n, a.val, v), a.known)
		}
	}
	for n, v := range have {
		if !zero(v) {
			report("attribute appears", fmt.Sprintf("%s: attribute %s=%q appears", path, n, v), "")
		}
	}
	kids := map[string][]*node{}
	for _, k := range got.kids {
		kids[k.name] = append(kids[k.name], k)
	}
	done := map[string]bool{}
	for _, k := range want.kids {
		if done[k.name] {
			continue
		}
		done[k.name] = true
		var w []*node
		known := ""
		for _, x := range want.kids {
			if x.name == k.name {
				w = append(w, x)
				if x.known != "" {
					known = x.known
				}
			}
		}
		g := kids[k.name]
		delete(kids, k.name)
		if len(w) != len(g) {
			report("repetition", fmt.Sprintf("%s: %d elements %s become %d", path, len(w), k.name, len(g)), known)
			continue
		}
		for i := range w {
			if known == "go-group" {
				continue
			}
			compareNodes(path, w[i], g[i], report)
		}
	}
	for n, l := range kids {
		for _, k := range l {
			if !k.empty() {
				report("element appears", fmt.Sprintf("%s: element %s appears", path, n), "")
			}
		}
	}
}

func roundTripCheck(families map[string]gen) *eng.Check {
	// batches of schemas that are compiled together
	batches := func(g gen, deviations func(tier string) int, fit func(it space.Item) bool) func(tier string, emit func(eng.Case)) {
		return func(tier string, emit func(eng.Case)) {
			const size = 48
			var cur []space.Item
			n := 0
			flush := func() {
				if len(cur) == 0 {
					return
				}
				l := cur
				cur = nil
				n += len(l)
				emit(eng.Case{State: func() string { return l[0].Label + " and the following" }, Run: func(c *eng.Ctx) {
					c.AddStates(-1)
					c.Count("schemas compiled", int64(len(l)))
					rtBatch(c, l, deviations(c.Tier))
				}})
			}
			g(tier, func(it space.Item) {
				if fit != nil && !fit(it) {
					return
				}
				cur = append(cur, it)
				if len(cur) == size {
					flush()
				}
			})
			flush()
		}
	}
	dev := func(q, t int) func(string) int { return func(tier string) int { return pick(tier, q, t) } }
	return &eng.Check{Prop: "C08", Level: "model_checking", CaseTimeout: 10 * time.Minute, Assumptions: []string{
		"the schema instances are made by an independent enumeration (mc/cmd/mc/roundtrip.go) of what XML Schema allows",
		"encoding/xml and the Go compiler are the ones installed",
		"names are compared without their namespace, elements of different names without their order",
	}, Spaces: func(tier string) []eng.Space {
		plain := func(it space.Item) bool {
			return !strings.HasPrefix(it.Label, "group: ") && !strings.HasPrefix(it.Label, "group of")
		}
		return []eng.Space{
			{Name: "components", Bound: "all component templates; all documents that deviate in up to 2 (thorough: 4) choices from the plainest", Gen: batches(families["single"], dev(2, 4), plain)},
			{Name: "members", Bound: "all lists of up to 2 (thorough: 3) member kinds in every context; documents with up to 2 deviations", Gen: batches(families["members"], dev(2, 2), plain)},
			{Name: "particles", Bound: "all content models of one particle x maxOccurs {absent, 2, unbounded} (thorough: 8, two particles of {absent, unbounded}) x compositors x contexts; documents with up to 3 deviations", Gen: batches(families["particles"], dev(3, 3), plain)},
			{Name: "repeats", Bound: "all content models in which the same element or global element stands twice, directly or in nested compositors, x occurrence bounds {absent, unbounded} of all of them x 2 contexts (thorough: all); documents with up to 2 (thorough: 3) deviations", Gen: batches(families["repeats"], dev(2, 3), func(it space.Item) bool {
				return plain(it) && !strings.Contains(it.Label, "one group") && (tier == "thorough" || strings.HasPrefix(it.Label, "type: ") || strings.HasPrefix(it.Label, "extension: "))
			})},
			{Name: "nested", Bound: "all trees of up to 2 (thorough: 3) anonymous types x 8 member patterns per node; documents with up to 2 (thorough: 3) deviations", Gen: batches(families["nested"], dev(2, 3), plain)},
			{Name: "namesakes", Bound: "all elements that have the name of their type x up to 1 (thorough: 2) users x orders of the components; documents with up to 2 deviations", Gen: batches(families["namesakes"], dev(2, 2), func(it space.Item) bool { return !strings.Contains(it.Label, "group") })},
			{Name: "anonymous", Bound: "all pairs (thorough: triples) of places with local elements of one name that have types of their own x global components of that name or none x orders of the components; documents with up to 1 deviation", Gen: batches(families["anonymous"], dev(1, 1), func(it space.Item) bool {
				named := strings.Contains(it.Label, "namesake: complex type") || strings.Contains(it.Label, "namesake: numbered type")
				return !strings.Contains(it.Label, "group,") && !strings.Contains(it.Label, "group;") && !(named && strings.HasPrefix(it.Label, "elements item"))
			})},
			{Name: "substitutions", Bound: "all chains of 1 (thorough: up to 2) elements of substitution groups with their heads' types or types of their own x uses x orders of the components; documents with up to 2 deviations", Gen: batches(families["substitutions"], dev(2, 2), func(it space.Item) bool { return !strings.Contains(it.Label, "in a group") })},
			{Name: "names", Bound: "all pairs of 6 member kinds x pairs of neighbouring (thorough: all pairs) names of 13, in a named type and an element; documents with up to 2 deviations", Gen: batches(rtNames, dev(2, 2), nil)},
			{Name: "values", Bound: "all built-in types x all positions; documents with up to 2 deviations, boundary values among them", Gen: batches(families["positions"], dev(2, 2), plain)},
		}
	}}
}

// rtNames enumerates pairs of member names in members of all kinds.
func rtNames(tier string, emit func(space.Item)) {
	names := []string{"a-b", "A_b2", "a.b", "x1", "\u00e9t\u00e9", "type", "Value", "value", "range", "Name", "a.B-c_D", "xml-a", "string"}
	fold := func(s string) string {
		return strings.ToLower(strings.NewReplacer("-", "", "_", "", ".", "").Replace(s))
	}
	kinds := []struct {
		name string
		p    func(n string) *xsd.Particle
		a    func(n string) *xsd.Attr
	}{
		{name: "element", p: func(n string) *xsd.Particle { return space.El(n, xsd.XS("int"), "") }},
		{name: "repeated element", p: func(n string) *xsd.Particle { return space.El(n, xsd.XS("string"), "unbounded") }},
		{name: "anonymous", p: func(n string) *xsd.Particle {
			return space.ElE(&xsd.Elem{Name: n, Max: "2", InC: &xsd.Complex{Content: space.Seq(space.El("in", xsd.XS("int"), "")), Attrs: []*xsd.Attr{space.At("at", xsd.XS("int"), "required")}}})
		}},
		{name: "content", p: func(n string) *xsd.Particle {
			return space.ElE(&xsd.Elem{Name: n, InC: &xsd.Complex{Deriv: "simpleExt", Base: xsd.XS("string"), Attrs: []*xsd.Attr{space.At(n, xsd.XS("int"), "required")}}})
		}},
		{name: "attribute", a: func(n string) *xsd.Attr { return space.At(n, xsd.XS("int"), "required") }},
		{name: "optional attribute", a: func(n string) *xsd.Attr { return space.At(n, xsd.XS("string"), "") }},
	}
	for _, k := range kinds {
		for _, m := range kinds {
			for i, n := range names {
				for j, o := range names {
					if (k.a == nil) == (m.a == nil) && fold(n) == fold(o) || k.p != nil && m.p != nil && i == j {
						continue
					}
					if !thorough(tier) && i != j && (i+1)%len(names) != j && (j+1)%len(names) != i {
						continue
					}
					k, m, n, o := k, m, n, o
					for top := 0; top < 2; top++ {
						top := top
						emit(space.Item{Label: fmt.Sprintf("%s %s, %s %s in %d", k.name, n, m.name, o, top), Schema: func() *xsd.Schema {
							c := &xsd.Complex{}
							for _, x := range []struct {
								p func(string) *xsd.Particle
								a func(string) *xsd.Attr
								n string
							}{{k.p, k.a, n}, {m.p, m.a, o}} {
								if x.p == nil {
									c.Attrs = append(c.Attrs, x.a(x.n))
									continue
								}
								if c.Content == nil {
									c.Content = space.Seq()
								}
								c.Content.Kids = append(c.Content.Kids, x.p(x.n))
							}
							if top == 0 {
								c.Name = "Top"
								return &xsd.Schema{Comps: []xsd.Comp{{C: c}}}
							}
							return &xsd.Schema{Comps: []xsd.Comp{{E: &xsd.Elem{Name: "top-el.x", InC: c}}}}
						}})
					}
				}
			}
		}
	}
}
