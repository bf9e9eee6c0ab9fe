package main

import (
	"encoding/xml"
	"fmt"
	"hash/fnv"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"time"

	"github.com/xuri/xgen"
	"verif/mc/conv"
	"verif/mc/eng"
)

// dumper writes a canonical form of the parser's state: everything reachable
// from the options, with identities of pointers numbered in order of visit.
type dumper struct {
	w   io.Writer
	ids map[uintptr]int
}

var skipFields = map[string]bool{"FilePath": true, "FileDir": true, "InputDir": true, "OutputDir": true, "Lang": true, "Package": true}

func (d *dumper) dump(v reflect.Value, depth int) {
	if depth > 200 {
		io.WriteString(d.w, "...")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			io.WriteString(d.w, "nil;")
			return
		}
		if id, ok := d.ids[v.Pointer()]; ok {
			fmt.Fprintf(d.w, "@%d;", id)
			return
		}
		d.ids[v.Pointer()] = len(d.ids)
		io.WriteString(d.w, "&")
		d.dump(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			io.WriteString(d.w, "nil;")
			return
		}
		io.WriteString(d.w, v.Elem().Type().String()+":")
		d.dump(v.Elem(), depth+1)
	case reflect.Struct:
		t := v.Type()
		if t.PkgPath() == "container/list" && t.Name() == "List" {
			io.WriteString(d.w, "list(")
			// only the values, front to back: the links say no more
			for e := v.FieldByName("root").FieldByName("next"); !e.IsNil(); e = e.Elem().FieldByName("next") {
				if l := e.Elem().FieldByName("list"); l.IsNil() {
					break
				}
				d.dump(e.Elem().FieldByName("Value"), depth+1)
			}
			io.WriteString(d.w, ")")
			return
		}
		io.WriteString(d.w, "{")
		for i := 0; i < v.NumField(); i++ {
			if depth <= 1 && skipFields[t.Field(i).Name] {
				continue
			}
			d.dump(v.Field(i), depth+1)
		}
		io.WriteString(d.w, "}")
	case reflect.Slice, reflect.Array:
		if v.Kind() == reflect.Slice && v.IsNil() {
			io.WriteString(d.w, "[]")
			return
		}
		io.WriteString(d.w, "[")
		for i := 0; i < v.Len(); i++ {
			d.dump(v.Index(i), depth+1)
		}
		io.WriteString(d.w, "]")
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprint(k)
			if k.Kind() == reflect.Ptr { // what it points to, not where that is
				var b strings.Builder
				(&dumper{w: &b, ids: map[uintptr]int{}}).dump(k, depth+1)
				s = b.String()
			}
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		sort.Strings(ks)
		io.WriteString(d.w, "map[")
		for _, k := range ks {
			io.WriteString(d.w, k+"=")
			d.dump(m[k], depth+1)
		}
		io.WriteString(d.w, "]")
	case reflect.String:
		fmt.Fprintf(d.w, "%q;", v.String())
	case reflect.Bool:
		fmt.Fprint(d.w, v.Bool(), ";")
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(d.w, v.Int(), ";")
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(d.w, v.Uint(), ";")
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(d.w, v.Float(), ";")
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprint(d.w, v.IsNil(), ";")
	default:
		fmt.Fprint(d.w, v.Kind(), ";")
	}
}

type key [16]byte

func stateKey(o *xgen.Options, open []string) (k key) {
	h := fnv.New128a()
	io.WriteString(h, strings.Join(open, "/")+"|")
	d := &dumper{w: h, ids: map[uintptr]int{}}
	d.dump(reflect.ValueOf(o), 0)
	h.Sum(k[:0])
	return
}

// attribute variants of an element
var attrSets = []string{
	``,
	`name="A" type="t:B" base="t:B" itemType="t:B" memberTypes="t:B xs:int" value="1" maxOccurs="unbounded" use="required"`,
	`name="B" type="t:A" base="t:A" itemType="t:A" memberTypes="t:A" value="1"`,
	`ref="t:A" type="xs:int" base="xs:int" itemType="xs:int" maxOccurs="2"`,
	`name="A" type="t:A" base="t:A" itemType="t:A" memberTypes="t:A t:A" ref="t:A" value=""`,
	`name="" type="" base="" itemType="" memberTypes="" ref="" value="" maxOccurs="0" use="" namespace="" schemaLocation="" substitutionGroup=""`,
	`name="-" type="a:b:c" base="::" itemType=":" memberTypes=":: -" ref="q:" value="-" use="x" substitutionGroup="t:"`,
	`name="C" type="xs:NOTATION" base="xs:IDREFS" itemType="xs:anyType" memberTypes="xs:NMTOKENS xs:string"`,
	`namespace="urn:t" schemaLocation="a.xsd" name="D" substitutionGroup="t:type"`,
	`namespace="urn:t" schemaLocation="b.xsd" name="type" substitutionGroup="t:D"`,
	`maxOccurs="x" namespace="urn:u" schemaLocation="missing.xsd"`,
	`xmlns="urn:t" xmlns:t="http://www.w3.org/2001/XMLSchema" xmlns:xs="urn:t" name="E" type="t:int"`,
}

type event struct {
	name string // "" ends the innermost element
	attr int
}

func (e event) String() string {
	if e.name == "" {
		return "/"
	}
	return fmt.Sprintf("%s%d", e.name, e.attr)
}

// core elements drive the parser's stacks; the rest has handlers that only pop,
// or none.
var coreNames = strings.Fields("element complexType simpleType attribute attributeGroup group sequence restriction extension list union")
var sideNames = strings.Fields("choice all simpleContent complexContent enumeration pattern minInclusive maxInclusive minExclusive maxExclusive length minLength maxLength totalDigits fractionDigits whiteSpace any anyAttribute annotation documentation appinfo schema include import redefine notation key keyref selector field unique charData")

const docHead = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="urn:t" targetNamespace="urn:t">`

// text renders a sequence of events, closed or not.
func eventText(ev []event, closed bool) string {
	var b strings.Builder
	b.WriteString(docHead)
	var open []string
	for _, e := range ev {
		if e.name == "" {
			b.WriteString("</xs:" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
			continue
		}
		if e.name == "#text" {
			b.WriteString("text")
			continue
		}
		p := "xs:"
		b.WriteString("<" + p + e.name + " " + strings.Replace(attrSets[e.attr], ` xmlns:xs="urn:t"`, "", 1) + ">")
		open = append(open, e.name)
	}
	if closed {
		for len(open) > 0 {
			b.WriteString("</xs:" + open[len(open)-1] + ">")
			open = open[:len(open)-1]
		}
		b.WriteString("</xs:schema>")
	}
	return b.String()
}

func openOf(ev []event) (open []string) {
	for _, e := range ev {
		switch e.name {
		case "":
			open = open[:len(open)-1]
		case "#text":
		default:
			open = append(open, e.name)
		}
	}
	return
}

type search struct {
	c       *eng.Ctx
	seen    map[key]int8 // remaining depth explored
	final   map[key]bool
	events  func(ev []event, left int) []event
	deadEnd int
}

var searches = map[string]*search{}

func totalOpts(c *eng.Ctx, lang string) *xgen.Options {
	b := box(c)
	return conv.Options(b.In(), filepath.Dir(b.In()), filepath.Join(b.Dir, "out"), lang, "schema")
}

// try runs a document and reports a panic.
func (s *search) try(ev []event, doc, lang string) (o *xgen.Options, live bool) {
	c := s.c
	b := box(c)
	if err := ioutil.WriteFile(b.In(), []byte(doc), 0644); err != nil {
		panic(err)
	}
	o = totalOpts(c, lang)
	err, p := conv.Parse(o)
	if p != "" {
		site := p
		if i := strings.LastIndex(p, " at "); i >= 0 {
			site = p[i:]
			if j := strings.Index(site, "("); j > 0 && strings.Contains(site, "0x") {
				site = site[:strings.Index(site, "0x")]
			}
		}
		c.Report(lang+" panic"+site, fmt.Sprintf("%s: panic %s after %v", lang, p, ev), "", map[string]string{"a.xsd": doc})
		return nil, false
	}
	if se, ok := err.(*xml.SyntaxError); ok && strings.Contains(se.Msg, "unexpected EOF") {
		return o, true
	}
	return o, err == nil
}

// visit explores the state reached by the events, and all its successors
// within the bound.
func (s *search) visit(ev []event, left int) {
	o, live := s.try(ev, eventText(ev, false), "Go")
	s.c.Transition(1, 1)
	if !live {
		s.deadEnd++
		return
	}
	k := stateKey(o, openOf(ev))
	old, ok := s.seen[k]
	if ok && int(old) >= left {
		return
	}
	s.seen[k] = int8(left)
	if !ok {
		s.c.AddStates(1)
		// the complete document, in every language
		doc := eventText(ev, true)
		for i, lang := range conv.Langs {
			o, live := s.try(ev, doc, lang)
			s.c.Transition(1, 1)
			if i > 0 || !live {
				continue
			}
			fk := stateKey(o, nil)
			if s.final[fk] {
				break // the generators saw the same tree before
			}
			s.final[fk] = true
		}
	}
	if left == 0 {
		return
	}
	open := 0
	for _, e := range ev {
		switch e.name {
		case "":
			open--
		case "#text":
		default:
			open++
		}
	}
	for _, e := range s.events(ev, left) {
		if e.name == "" && open == 0 {
			continue
		}
		s.visit(append(ev[:len(ev):len(ev)], e), left-1)
	}
}

func totalCheck() *eng.Check {
	all := append(append([]string{}, coreNames...), sideNames...)
	starts := func(names []string, sets ...int) (l []event) {
		for _, n := range names {
			for _, a := range sets {
				l = append(l, event{n, a})
			}
		}
		return
	}
	every := func(n int) (l []int) {
		for i := 0; i < n; i++ {
			l = append(l, i)
		}
		return
	}
	// split makes one case per pair of first events
	split := func(name string, menu []event, depth func(string) int) func(tier string, emit func(eng.Case)) {
		return func(tier string, emit func(eng.Case)) {
			d := depth(tier)
			run := func(ev []event, left int) {
				emit(eng.Case{State: func() string { return fmt.Sprint(ev, " then up to ", left, " events") }, Run: func(c *eng.Ctx) {
					s := searches[name]
					if s == nil || c.Trace {
						s = &search{seen: map[key]int8{}, final: map[key]bool{}, events: func([]event, int) []event { return menu }}
						searches[name] = s
						b := box(c)
						os.WriteFile(filepath.Join(b.Dir, "in", "b.xsd"), []byte(docHead+`<xs:include schemaLocation="a.xsd"/><xs:simpleType name="B"><xs:restriction base="t:A"/></xs:simpleType><xs:element name="A" type="t:B"/></xs:schema>`), 0644)
					}
					s.c = c
					s.visit(ev, left)
				}})
			}
			run(nil, 0)
			for _, a := range menu {
				if a.name == "" {
					continue
				}
				run([]event{a}, 0)
				if d < 2 {
					continue
				}
				for _, b := range menu {
					if a.name == "#text" && b.name == "" {
						continue
					}
					run([]event{a, b}, d-2)
				}
			}
		}
	}
	end := []event{{"", 0}}
	wide := append(append(starts(all, every(len(attrSets))...), end...), event{"#text", 0})
	wideQuick := append(append(append(starts(coreNames, every(len(attrSets))...), starts(sideNames, 0, 1, 6, 9)...), end...), event{"#text", 0})
	medium := append(append(starts(coreNames, 0, 1, 2), starts(sideNames, 0)...), end...)
	deep := append(starts(coreNames, 0, 1), append(starts(strings.Fields("choice simpleContent enumeration pattern"), 0), end...)...)
	narrow := append(starts(strings.Fields("element complexType simpleType attribute group attributeGroup restriction"), 0), append(starts(strings.Fields("element complexType simpleType attribute group attributeGroup extension union pattern"), 1), end...)...)
	pump := func(tier string, emit func(eng.Case)) {
		n := 60
		for _, a := range all {
			for _, b := range all {
				for set := 0; set < 3; set++ {
					a, b, set := a, b, set
					emit(eng.Case{State: func() string { return fmt.Sprintf("%d nestings of %s in %s, attributes %d", n, b, a, set) }, Run: func(c *eng.Ctx) {
						var ev []event
						for i := 0; i < n; i++ {
							ev = append(ev, event{a, set}, event{b, set})
						}
						s := &search{c: c}
						for _, lang := range conv.Langs {
							s.try(ev[:4], eventText(ev, true), lang)
							c.Transition(1, 1)
						}
						// and siblings
						var sib []event
						for i := 0; i < n; i++ {
							sib = append(sib, event{a, set}, event{b, set}, event{}, event{})
						}
						s.try(sib[:4], eventText(sib, true), "Go")
						c.Transition(1, 1)
					}})
				}
			}
		}
	}
	return &eng.Check{Prop: "C01", Level: "model_checking", CaseTimeout: 120 * time.Second, Assumptions: []string{
		"the parser's future behaviour is a function of its options (every field, private ones included, with pointer identities) and of the open elements, which make up the state that is compared",
	}, Spaces: func(tier string) []eng.Space {
		sp := func(name string, menu []event, q, t int) eng.Space {
			return eng.Space{Name: name, Bound: fmt.Sprintf("all event sequences of length up to %d over %d events", pick(tier, q, t), len(menu)),
				Gen: split(name, menu, func(tier string) int { return pick(tier, q, t) })}
		}
		w, nw := wideQuick, append(starts(strings.Fields("element complexType simpleType attribute group"), 0), append(starts(strings.Fields("element complexType simpleType extension union pattern"), 1), end...)...)
		if thorough(tier) {
			w, nw = wide, narrow
		}
		return []eng.Space{
			sp("wide", w, 2, 2),
			sp("medium", medium, 3, 4),
			sp("deep", deep, 4, 5),
			sp("narrow", nw, 5, 6),
			{Name: "pump", Bound: "60 nestings and 60 siblings of every pair of elements x 3 attribute sets", Gen: pump},
		}
	}}
}
