// Package read reads the declarations of generated source files back, one
// strict reader per language. A reader fails on anything that is not
// well-formed as far as the declaration subset of its language goes.
package read

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"unicode"
)

// Type is a member or alias type: Lists collection layers around Name.
type Type struct {
	Name  string
	Lists int
	Opt   bool // Option<..>, | null
}

func (t Type) String() string {
	s := t.Name + strings.Repeat("[]", t.Lists)
	if t.Opt {
		s += "?"
	}
	return s
}

// Field is a member.
type Field struct {
	Name     string
	Type     Type
	XML      string // bound XML name, "" if none
	HasXML   bool
	Attr     bool
	Text     bool // character data / XmlValue / $value
	Embed    bool // embedded base, serde(flatten)
	Optional bool
	Required bool
}

// Enum constant.
type Enum struct {
	Name, Value string
	Quoted      bool
}

// Decl is a type declaration.
type Decl struct {
	Name    string
	Kind    string // alias, struct, enum
	Type    Type   // alias
	Fields  []Field
	Enums   []Enum
	Extends string
	XML     string // bound XML name of the declaration itself
	XMLKind string
	Doc     string // comment directly before the declaration
}

// File is a generated file.
type File struct {
	Lang    string
	Package string
	Imports []string
	Decls   []Decl
	Tokens  []string // all tokens but comments
}

// Lang describes a language.
type Lang struct{ Name, Ext string }

// Langs are the languages, in a fixed order.
var Langs = []Lang{{"Go", ".go"}, {"TypeScript", ".ts"}, {"C", ".h"}, {"Java", ".java"}, {"Rust", ".rs"}}

// Ext of a language.
func Ext(lang string) string {
	for _, l := range Langs {
		if l.Name == lang {
			return l.Ext
		}
	}
	return ""
}

// Read reads a file.
func Read(lang, src string) (*File, error) {
	switch lang {
	case "Go":
		return readGo(src)
	case "TypeScript":
		return run(lang, src, (*p).ts)
	case "C":
		return run(lang, src, (*p).c)
	case "Java":
		return run(lang, src, (*p).java)
	case "Rust":
		return run(lang, src, (*p).rust)
	}
	return nil, fmt.Errorf("language %q", lang)
}

type tok struct {
	s   string
	str bool   // string literal, s without quotes
	doc string // comments since the previous token
}

type p struct {
	lang string
	t    []tok
	i    int
	f    *File
}

type syntaxErr struct{ error }

func (p *p) fail(format string, a ...interface{}) {
	var around []string
	for j := p.i - 4; j < p.i+4; j++ {
		if j >= 0 && j < len(p.t) {
			m := p.t[j].s
			if j == p.i {
				m = ">>" + m + "<<"
			}
			around = append(around, m)
		}
	}
	panic(syntaxErr{fmt.Errorf("%s: not well-formed: %s near %q", p.lang, fmt.Sprintf(format, a...), strings.Join(around, " "))})
}

func run(lang, src string, fn func(*p)) (f *File, err error) {
	defer func() {
		if r := recover(); r != nil {
			if se, ok := r.(syntaxErr); ok {
				f, err = nil, se.error
				return
			}
			panic(r)
		}
	}()
	q := &p{lang: lang, f: &File{Lang: lang}}
	q.lex(src)
	for _, t := range q.t {
		if t.str {
			q.f.Tokens = append(q.f.Tokens, "\""+t.s+"\"")
		} else if t.s != "" {
			q.f.Tokens = append(q.f.Tokens, t.s)
		}
	}
	fn(q)
	return q.f, nil
}

func isIdent(r rune) bool {
	return r == '_' || r == '$' || unicode.IsLetter(r) || unicode.IsDigit(r) || unicode.Is(unicode.Mn, r) || unicode.Is(unicode.Mc, r)
}

// lineEnd tells whether r ends a line comment in the language.
func lineEnd(lang string, r rune) bool {
	switch r {
	case '\n':
		return true
	case '\r':
		return lang != "Rust"
	case '\u2028', '\u2029':
		return lang == "TypeScript"
	}
	return false
}

func (p *p) lex(src string) {
	if p.lang == "C" { // line splicing comes first
		src = strings.ReplaceAll(src, "\\\r\n", "")
		src = strings.ReplaceAll(src, "\\\n", "")
	}
	if p.lang == "Java" { // unicode escapes come first
		src = javaEscapes(p, src)
	}
	rs := []rune(src)
	doc := ""
	for i := 0; i < len(rs); {
		r := rs[i]
		switch {
		case r == '/' && i+1 < len(rs) && rs[i+1] == '/':
			j := i + 2
			for j < len(rs) && !lineEnd(p.lang, rs[j]) {
				j++
			}
			doc += string(rs[i+2:j]) + "\n"
			i = j
		case r == '/' && i+1 < len(rs) && rs[i+1] == '*':
			j := strings.Index(string(rs[i+2:]), "*/")
			if j < 0 {
				p.fail("unterminated comment")
			}
			i += 2 + len([]rune(string(rs[i+2:])[:j])) + 2
		case r == ' ' || r == '\t' || r == '\n' || r == '\r' || r == '\u2028' || r == '\u2029':
			i++
		case r == '"' || r == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != r && rs[j] != '\n' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			if j >= len(rs) || rs[j] != r {
				p.fail("unterminated string literal")
			}
			p.t = append(p.t, tok{s: string(rs[i+1 : j]), str: true, doc: doc})
			doc = ""
			i = j + 1
		case isIdent(r):
			j := i
			for j < len(rs) && isIdent(rs[j]) {
				j++
			}
			p.t = append(p.t, tok{s: string(rs[i:j]), doc: doc})
			doc = ""
			i = j
		default:
			p.t = append(p.t, tok{s: string(r), doc: doc})
			doc = ""
			i++
		}
	}
	p.t = append(p.t, tok{s: "", doc: doc})
}

func javaEscapes(p *p, src string) string {
	var b strings.Builder
	rs := []rune(src)
	bs := 0
	for i := 0; i < len(rs); i++ {
		if rs[i] == '\\' {
			if bs%2 == 0 && i+1 < len(rs) && rs[i+1] == 'u' {
				j := i + 1
				for j < len(rs) && rs[j] == 'u' {
					j++
				}
				v, n := 0, 0
				for n < 4 && j < len(rs) {
					k := strings.IndexRune("0123456789abcdef", unicode.ToLower(rs[j]))
					if k < 0 {
						break
					}
					v = v*16 + k
					j++
					n++
				}
				if n < 4 {
					p.fail("illegal unicode escape")
				}
				b.WriteRune(rune(v))
				i = j - 1
				bs = 0
				continue
			}
			bs++
		} else {
			bs = 0
		}
		b.WriteRune(rs[i])
	}
	return b.String()
}

func (p *p) peek() string {
	if p.t[p.i].str {
		return "\"" + p.t[p.i].s
	}
	return p.t[p.i].s
}
func (p *p) at(n int) string {
	if p.i+n < len(p.t) && !p.t[p.i+n].str {
		return p.t[p.i+n].s
	}
	return ""
}
func (p *p) eof() bool { return p.i == len(p.t)-1 }
func (p *p) next() tok {
	t := p.t[p.i]
	if p.i < len(p.t)-1 {
		p.i++
	} else {
		p.fail("unexpected end")
	}
	return t
}
func (p *p) want(ss ...string) {
	for _, s := range ss {
		if p.t[p.i].str || p.t[p.i].s != s {
			p.fail("expected %q", s)
		}
		p.next()
	}
}
func (p *p) accept(s string) bool {
	if !p.t[p.i].str && p.t[p.i].s == s {
		p.next()
		return true
	}
	return false
}

// ident reads an identifier that is not reserved.
func (p *p) ident() string {
	t := p.t[p.i]
	if t.str || t.s == "" || !isIdent([]rune(t.s)[0]) || unicode.IsDigit([]rune(t.s)[0]) {
		p.fail("expected an identifier")
	}
	if Reserved(p.lang, t.s) {
		p.fail("reserved word %q as identifier", t.s)
	}
	if (p.lang == "C" || p.lang == "Rust") && strings.Contains(t.s, "$") {
		p.fail("illegal character in identifier")
	}
	p.next()
	return t.s
}
func (p *p) strLit() string {
	if !p.t[p.i].str {
		p.fail("expected a string literal")
	}
	return p.next().s
}

// ---- TypeScript

func (p *p) ts() {
	for !p.eof() {
		doc := p.t[p.i].doc
		p.want("export")
		d := Decl{Doc: doc}
		switch {
		case p.accept("type"):
			d.Kind = "alias"
			d.Name = p.ident()
			p.want("=")
			d.Type = p.tsType()
			p.want(";")
		case p.accept("class"):
			d.Kind = "struct"
			d.Name = p.ident()
			if p.accept("extends") {
				t := p.tsType()
				d.Extends = t.String()
			}
			p.want("{")
			for !p.accept("}") {
				f := Field{Name: p.ident()}
				p.want(":")
				f.Type = p.tsType()
				p.want(";")
				f.Optional = f.Type.Opt
				f.Type.Opt = false
				d.Fields = append(d.Fields, f)
			}
		case p.accept("enum"):
			d.Kind = "enum"
			d.Name = p.ident()
			p.want("{")
			for !p.accept("}") {
				n := p.next()
				e := Enum{Name: n.s} // reserved words are legal property names
				if n.str {
					e.Name = unescape(n.s)
				}
				if !n.str && (!isIdent([]rune(e.Name + " ")[0]) || unicode.IsDigit([]rune(e.Name + " ")[0])) || tsNumericName.MatchString(e.Name) {
					p.i--
					p.fail("enum member name")
				}
				p.want("=")
				t := p.next()
				if t.str {
					e.Quoted, e.Value = true, unescape(t.s)
				} else {
					e.Value = t.s
					for pk := p.peek(); pk != "," && pk != "}" && pk != ""; pk = p.peek() {
						e.Value += p.next().s
					}
					if !tsNumber.MatchString(e.Value) {
						p.i--
						p.fail("enum value " + e.Value)
					}
				}
				d.Enums = append(d.Enums, e)
				if !p.accept(",") {
					p.want("}")
					break
				}
			}
		default:
			p.fail("expected a declaration")
		}
		p.f.Decls = append(p.f.Decls, d)
	}
}

// tsNumericName is a numeric property name, which no member of an enumeration
// may have.
var tsNumericName = regexp.MustCompile(`^-?(0|[1-9][0-9]*)(\.[0-9]*[1-9])?$`)

// tsNumber is a literal of a number, with a sign.
var tsNumber = regexp.MustCompile(`^[+-]?(Infinity|NaN|(0|[1-9][0-9]*)(\.[0-9]*)?([eE][+-]?[0-9]+)?|\.[0-9]+([eE][+-]?[0-9]+)?)$`)

// unescape a string literal.
func unescape(s string) string {
	var b strings.Builder
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '\\' || i+1 == len(rs) {
			b.WriteRune(rs[i])
			continue
		}
		i++
		switch rs[i] {
		case 'n':
			b.WriteByte('\n')
		case 'r':
			b.WriteByte('\r')
		case 't':
			b.WriteByte('\t')
		case 'u':
			v, _ := strconv.ParseUint(string(rs[i+1:i+5]), 16, 32)
			b.WriteRune(rune(v))
			i += 4
		default:
			b.WriteRune(rs[i])
		}
	}
	return b.String()
}

func (p *p) tsType() (t Type) {
	if p.peek() == "Array" && p.at(1) == "<" {
		p.next()
		p.next()
		t = p.tsType()
		t.Lists++
		p.want(">")
	} else {
		s := p.peek()
		if TSBuiltin[s] {
			p.next()
			t.Name = s
		} else {
			t.Name = p.ident()
		}
		for p.peek() == "[" {
			p.want("[", "]")
			t.Lists++
		}
	}
	if p.accept("|") {
		if p.peek() != "null" && p.peek() != "undefined" {
			p.fail("union type")
		}
		p.next()
		t.Opt = true
	}
	return
}

// TSBuiltin are the built-in types TypeScript output may use.
var TSBuiltin = map[string]bool{"string": true, "number": true, "boolean": true, "any": true, "Uint8Array": true, "void": true, "null": true, "undefined": true}

// ---- C

var cWords = map[string]bool{"char": true, "int": true, "float": true, "double": true, "short": true, "long": true, "unsigned": true, "signed": true, "bool": true, "void": true, "enum": true, "_Bool": true}

func (p *p) c() {
	for !p.eof() {
		doc := p.t[p.i].doc
		d := Decl{Doc: doc}
		p.want("typedef")
		if p.accept("struct") {
			d.Kind = "struct"
			p.want("{")
			for !p.accept("}") {
				t := p.cType()
				f := Field{Name: p.ident(), Type: t}
				for p.accept("[") {
					p.want("]")
					f.Type.Lists++
				}
				p.want(";")
				// the comment after the member says attr and optional
				c := p.t[p.i].doc
				if strings.Contains(strings.Split(c, "\n")[0], "attr") {
					f.Attr = true
					f.Optional = strings.Contains(strings.Split(c, "\n")[0], "optional")
				}
				d.Fields = append(d.Fields, f)
			}
			d.Name = p.ident()
			p.want(";")
		} else {
			d.Kind = "alias"
			d.Type = p.cType()
			d.Name = p.ident()
			for p.accept("[") {
				p.want("]")
				d.Type.Lists++
			}
			p.want(";")
		}
		p.f.Decls = append(p.f.Decls, d)
	}
}

func (p *p) cType() (t Type) {
	var w []string
	for cWords[p.peek()] {
		w = append(w, p.next().s)
	}
	if len(w) > 0 {
		t.Name = strings.Join(w, " ")
		return
	}
	t.Name = p.ident()
	return
}

// ---- Java

func (p *p) dotted() string {
	s := p.ident()
	for p.accept(".") {
		if p.accept("*") {
			s += ".*"
			break
		}
		s += "." + p.ident()
	}
	return s
}

func (p *p) annot() (name string, args map[string]string) {
	p.want("@")
	name = p.ident()
	args = map[string]string{}
	if p.accept("(") {
		for !p.accept(")") {
			if p.at(1) == "=" {
				k := p.ident()
				p.want("=")
				if p.t[p.i].str {
					args[k] = p.strLit()
				} else {
					args[k] = p.next().s
				}
			} else {
				args["value"] = p.dotted()
			}
			if !p.accept(",") {
				p.want(")")
				break
			}
		}
	}
	return
}

func (p *p) java() {
	for !p.eof() {
		doc := p.t[p.i].doc
		switch p.peek() {
		case "package":
			p.next()
			p.f.Package = p.dotted()
			p.want(";")
			continue
		case "import":
			p.next()
			p.f.Imports = append(p.f.Imports, p.dotted())
			p.want(";")
			continue
		}
		d := Decl{Kind: "struct", Doc: doc}
		for p.peek() == "@" {
			n, a := p.annot()
			if n == "XmlAttribute" || n == "XmlElement" {
				d.XML, d.XMLKind = a["name"], n
			}
		}
		p.want("public", "class")
		d.Name = p.ident()
		if p.accept("extends") {
			t := p.javaType()
			d.Extends = t.String()
		}
		p.want("{")
		for !p.accept("}") {
			var f Field
			for p.peek() == "@" {
				n, a := p.annot()
				if v, ok := a["name"]; ok {
					f.XML, f.HasXML = v, true
				}
				switch n {
				case "XmlAttribute":
					f.Attr = true
					f.Required = a["required"] == "true"
				case "XmlElement":
				case "XmlValue":
					f.Text = true
				default:
					p.fail("annotation %s", n)
				}
			}
			p.want("protected")
			f.Type = p.javaType()
			f.Name = p.ident()
			f.Optional = f.Attr && !f.Required
			p.want(";")
			d.Fields = append(d.Fields, f)
		}
		p.f.Decls = append(p.f.Decls, d)
	}
}

func (p *p) javaType() (t Type) {
	if p.peek() == "List" && p.at(1) == "<" {
		p.next()
		p.next()
		t = p.javaType()
		t.Lists++
		p.want(">")
		return
	}
	if p.peek() == "void" {
		p.next()
		t.Name = "void"
		return
	}
	t.Name = p.ident()
	return
}

// ---- Rust

func (p *p) rust() {
	for !p.eof() {
		doc := p.t[p.i].doc
		switch p.peek() {
		case "extern":
			p.want("extern", "crate")
			p.f.Imports = append(p.f.Imports, p.ident())
			p.want(";")
			continue
		case "use":
			p.next()
			s := p.ident()
			for p.accept(":") {
				p.want(":")
				s += "::" + p.ident()
			}
			p.f.Imports = append(p.f.Imports, s)
			p.want(";")
			continue
		}
		d := Decl{Kind: "struct", Doc: doc}
		if p.peek() == "#" && p.at(2) == "macro_use" {
			p.want("#", "[", "macro_use", "]")
			continue
		}
		for p.peek() == "#" {
			p.want("#", "[", "derive", "(")
			for !p.accept(")") {
				p.ident()
				p.accept(",")
			}
			p.want("]")
		}
		p.want("pub", "struct")
		d.Name = p.ident()
		p.want("{")
		for !p.accept("}") {
			var f Field
			for p.peek() == "#" {
				p.want("#", "[", "serde", "(")
				if p.accept("flatten") {
					f.Embed = true
				} else {
					p.want("rename", "=")
					f.XML, f.HasXML = p.strLit(), true
					if f.XML == "$value" {
						f.Text = true
					}
				}
				p.want(")", "]")
			}
			p.want("pub")
			f.Name = p.ident()
			p.want(":")
			f.Type = p.rustType()
			f.Optional = f.Type.Opt
			f.Type.Opt = false
			if !p.accept(",") && p.peek() != "}" {
				p.fail("expected ,")
			}
			d.Fields = append(d.Fields, f)
		}
		p.f.Decls = append(p.f.Decls, d)
	}
}

func (p *p) rustType() (t Type) {
	if (p.peek() == "Vec" || p.peek() == "Option") && p.at(1) == "<" {
		w := p.next().s
		p.next()
		t = p.rustType()
		if w == "Vec" {
			t.Lists++
		} else {
			t.Opt = true
		}
		p.want(">")
		return
	}
	t.Name = p.ident()
	return
}
