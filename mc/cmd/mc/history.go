package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/xuri/xgen"
	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
)

// A conversion of a history: which input, which language, and whether the
// parser of the conversion before is used once more.
type conversion struct {
	in    string
	lang  string
	again bool
}

func (k conversion) String() string {
	s := k.in + ":" + k.lang
	if k.again {
		s += ":again"
	}
	return s
}

const hdr = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns="urn:t" targetNamespace="urn:t">`

// historyInputs are the inputs of the histories. They share names, with
// different meanings, and each makes use of some of the state a parser or
// generator keeps while it works. Those named bad… fail.
var historyInputs = map[string]map[string]string{
	// names that need numbers to be told apart
	"names": {"a.xsd": hdr + `<xs:complexType name="order"><xs:sequence><xs:element name="item" type="xs:string"/><xs:element name="Item" type="xs:int"/></xs:sequence></xs:complexType><xs:complexType name="Order"><xs:attribute name="id" type="xs:ID"/></xs:complexType><xs:simpleType name="item"><xs:restriction base="xs:int"/></xs:simpleType><xs:simpleType name="code"><xs:restriction base="xs:string"><xs:enumeration value="a b"/><xs:enumeration value="a-b"/></xs:restriction></xs:simpleType></xs:schema>`},
	// the same names for other things
	"other": {"a.xsd": hdr + `<xs:simpleType name="order"><xs:restriction base="xs:short"/></xs:simpleType><xs:complexType name="item"><xs:sequence maxOccurs="unbounded"><xs:element name="code" type="order"/><xs:element name="n" type="code"/></xs:sequence></xs:complexType><xs:complexType name="code"><xs:simpleContent><xs:extension base="order"><xs:attribute name="id" type="xs:string"/></xs:extension></xs:simpleContent></xs:complexType><xs:element name="Order" type="item"/></xs:schema>`},
	// a single small type
	"small": {"a.xsd": hdr + `<xs:complexType name="Item"><xs:sequence><xs:element name="order" type="xs:decimal"/></xs:sequence></xs:complexType></xs:schema>`},
	// groups, attribute groups and nested types
	"nested": {"a.xsd": hdr + `<xs:group name="g"><xs:choice><xs:element name="item" type="xs:string"/><xs:element name="sub"><xs:complexType><xs:sequence><xs:element name="deep"><xs:simpleType><xs:restriction base="xs:int"><xs:minInclusive value="1"/></xs:restriction></xs:simpleType></xs:element></xs:sequence></xs:complexType></xs:element></xs:choice></xs:group><xs:attributeGroup name="ag"><xs:attribute name="id" type="xs:ID"/></xs:attributeGroup><xs:complexType name="order"><xs:sequence><xs:group ref="g" maxOccurs="unbounded"/></xs:sequence><xs:attributeGroup ref="ag"/></xs:complexType><xs:element name="root"><xs:complexType><xs:complexContent><xs:extension base="order"><xs:sequence><xs:element name="x" type="xs:date"/></xs:sequence></xs:extension></xs:complexContent></xs:complexType></xs:element></xs:schema>`},
	// unions, lists, facets, documentation
	"simple": {"a.xsd": hdr + `<xs:simpleType name="u"><xs:annotation><xs:documentation>either of two</xs:documentation></xs:annotation><xs:union memberTypes="code xs:int"/></xs:simpleType><xs:simpleType name="code"><xs:restriction base="xs:string"><xs:enumeration value="x"/><xs:pattern value="[a-z]+"/><xs:maxLength value="3"/></xs:restriction></xs:simpleType><xs:simpleType name="order"><xs:list itemType="code"/></xs:simpleType><xs:element name="item" type="u"><xs:annotation><xs:documentation>an item</xs:documentation></xs:annotation></xs:element></xs:schema>`},
	// several files
	"include": {"a.xsd": hdr + `<xs:include schemaLocation="b.xsd"/><xs:complexType name="order"><xs:sequence><xs:element name="item" type="item"/><xs:element name="code" type="code"/></xs:sequence></xs:complexType></xs:schema>`,
		"b.xsd": hdr + `<xs:simpleType name="item"><xs:restriction base="xs:long"/></xs:simpleType><xs:complexType name="code"><xs:attribute name="id" type="item"/></xs:complexType></xs:schema>`},
	"import": {"a.xsd": `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:b="urn:b" targetNamespace="urn:t"><xs:import namespace="urn:b" schemaLocation="b.xsd"/><xs:complexType name="order"><xs:sequence><xs:element name="item" type="b:item"/></xs:sequence></xs:complexType></xs:schema>`,
		"b.xsd": `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b"><xs:simpleType name="item"><xs:restriction base="xs:boolean"/></xs:simpleType></xs:schema>`},
	// the namespace of XML Schema bound in another way
	"default": {"a.xsd": `<schema xmlns="http://www.w3.org/2001/XMLSchema" xmlns:xs="urn:t" targetNamespace="urn:t"><complexType name="item"><sequence><element name="order" type="string"/><element name="code" type="xs:string"/></sequence></complexType><simpleType name="string"><restriction base="int"/></simpleType></schema>`},
	// names that only the separators tell apart, and references to them; the
	// same names elsewhere
	"apart":  {"a.xsd": hdr + `<xs:complexType name="or-der"><xs:sequence><xs:element name="it-em" type="xs:int"/><xs:element name="item" type="or_der"/><xs:element name="it.em" type="order"/></xs:sequence></xs:complexType><xs:complexType name="or_der"><xs:attribute name="co-de" type="code"/></xs:complexType><xs:complexType name="order"><xs:sequence><xs:element ref="item"/></xs:sequence></xs:complexType><xs:element name="item" type="or-der"/><xs:simpleType name="code"><xs:union memberTypes="co-de xs:int"/></xs:simpleType><xs:simpleType name="co-de"><xs:list itemType="xs:short"/></xs:simpleType></xs:schema>`},
	"joined": {"a.xsd": hdr + `<xs:complexType name="order"><xs:sequence><xs:element name="item" type="or_der"/></xs:sequence></xs:complexType><xs:complexType name="or_der"><xs:complexContent><xs:extension base="order"><xs:attribute name="code" type="co-de"/></xs:extension></xs:complexContent></xs:complexType><xs:simpleType name="co-de"><xs:restriction base="xs:long"/></xs:simpleType><xs:element name="or-der" type="order"/></xs:schema>`},
	"empty":  {"a.xsd": hdr + `</xs:schema>`},

	"badElement": {"a.xsd": hdr + `<xs:complexType name="order"><xs:sequence><xs:element name="item"><xs:complexType><xs:choice><xs:element name="code" type="xs:int"/>`},
	"badGroup":   {"a.xsd": hdr + `<xs:attributeGroup name="ag"><xs:attribute name="id"/></xs:attributeGroup><xs:group name="g"><xs:choice maxOccurs="2"><xs:element name="item" type="xs:int"/></xs:group></xs:schema>`},
	"badSimple":  {"a.xsd": hdr + `<xs:complexType name="Item"><xs:attribute name="Item"/></xs:complexType><xs:simpleType name="order"><xs:annotation><xs:documentation>cut`},
	"badInclude": {"a.xsd": hdr + `<xs:include schemaLocation="b.xsd"/><xs:complexType name="order"><xs:sequence><xs:element name="item" type="item"/></xs:sequence></xs:complexType></xs:schema>`, "b.xsd": hdr + `<xs:simpleType name="item"><xs:union><xs:simpleType>`},
	"badMissing": {},
	"badOutput":  {"a.xsd": hdr + `<xs:complexType name="order"><xs:sequence><xs:element name="item" type="xs:string"/></xs:sequence></xs:complexType><xs:complexType name="Order"/></xs:schema>`},
}

func historyNames() (good, bad []string) {
	for n := range historyInputs {
		if strings.HasPrefix(n, "bad") {
			bad = append(bad, n)
		} else {
			good = append(good, n)
		}
	}
	sort.Strings(good)
	sort.Strings(bad)
	return
}

// step is what one conversion of a history did.
type step struct {
	Failed bool
	Msg    string
	Files  map[string]string
}

// history runs conversions in this process: argument 0 is the directory,
// which has the inputs in in/<name> and gets the outputs in out.
func history(args []string) {
	dir := args[0]
	var opt *xgen.Options
	var steps []step
	for _, a := range args[1:] {
		f := strings.Split(a, ":")
		out := filepath.Join(dir, "out")
		if f[0] == "badOutput" { // the place of the output is taken
			out = filepath.Join(dir, "taken")
		}
		in := filepath.Join(dir, "in", f[0])
		if len(f) < 3 || opt == nil {
			opt = conv.Options(filepath.Join(in, "a.xsd"), in, out, f[1], "schema")
		}
		err, panicked := conv.Parse(opt)
		s := step{Failed: err != nil || panicked != "", Files: map[string]string{}}
		if err != nil {
			s.Msg = err.Error()
		}
		if panicked != "" {
			s.Msg = "panic: " + panicked
		}
		es, _ := ioutil.ReadDir(filepath.Join(dir, "out"))
		for _, e := range es {
			b, _ := ioutil.ReadFile(filepath.Join(dir, "out", e.Name()))
			s.Files[e.Name()] = string(b)
		}
		steps = append(steps, s)
	}
	json.NewEncoder(os.Stdout).Encode(steps)
}

// runHistory runs a history in a fresh process, over an output directory with
// the files given.
func runHistory(c *eng.Ctx, before map[string]string, ks []conversion) (steps []step, bad string) {
	dir := filepath.Join(c.Dir, "hist")
	if _, err := os.Stat(dir); err != nil {
		for n, fs := range historyInputs {
			for f, text := range fs {
				os.MkdirAll(filepath.Join(dir, "in", n), 0755)
				if err := ioutil.WriteFile(filepath.Join(dir, "in", n, f), []byte(text), 0644); err != nil {
					panic(err)
				}
			}
		}
		for _, l := range conv.Langs {
			os.MkdirAll(filepath.Join(dir, "taken", "a.xsd"+read.Ext(l)), 0755)
		}
		os.MkdirAll(filepath.Join(dir, "out"), 0755)
	}
	wipe(filepath.Join(dir, "out"))
	for f, text := range before {
		if err := ioutil.WriteFile(filepath.Join(dir, "out", f), []byte(text), 0644); err != nil {
			panic(err)
		}
	}
	args := []string{"history", dir}
	for _, k := range ks {
		args = append(args, k.String())
	}
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOGC=off")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err == nil {
		err = json.Unmarshal(o.Bytes(), &steps)
	}
	if err != nil {
		return nil, fmt.Sprintf("%v: %s", err, firstLines(e.String(), 5))
	}
	c.Transition(len(ks), len(ks))
	return
}

func firstLines(s string, n int) string {
	l := strings.SplitN(s, "\n", n+1)
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

var alone = map[string]step{}

// onItsOwn is what a conversion does as the first one of a process, into an
// empty directory.
func onItsOwn(c *eng.Ctx, k conversion) step {
	k.again = false
	s, ok := alone[k.String()]
	if !ok {
		st, bad := runHistory(c, nil, []conversion{k})
		if bad != "" {
			s = step{Failed: true, Msg: "panic: " + bad}
		} else {
			s = st[0]
		}
		alone[k.String()] = s
	}
	return s
}

func checkHistory(c *eng.Ctx, before map[string]string, ks []conversion) {
	for _, k := range ks { // the references first: they use the same directory
		onItsOwn(c, k)
	}
	steps, bad := runHistory(c, before, ks)
	if bad != "" {
		c.Report("died", "the process died: "+bad, "", nil)
		return
	}
	state := map[string]string{}
	for f, text := range before {
		state[f] = text
	}
	for i, k := range ks {
		want, got := onItsOwn(c, k), steps[i]
		what := fmt.Sprintf("conversion %d (%s)", i+1, k)
		switch {
		case want.Failed != strings.HasPrefix(k.in, "bad"):
			c.Report("reference "+k.in, fmt.Sprintf("%s, first of a process: failed %v %s", k, want.Failed, want.Msg), "", nil)
			return
		case want.Failed != got.Failed:
			c.Report(fmt.Sprintf("status %v again %v", got.Failed, k.again), fmt.Sprintf("%s: failed %v (%s), as the first of a process: failed %v (%s)", what, got.Failed, got.Msg, want.Failed, want.Msg), "", nil)
			return
		case want.Failed:
			// what a failed conversion leaves behind is its own matter
			state = got.Files
			continue
		}
		for f, text := range want.Files {
			state[f] = text
		}
		for f, text := range got.Files {
			w, ok := state[f]
			if !ok {
				c.Report("extra output", fmt.Sprintf("%s wrote %s, not so as the first of a process", what, f), "", map[string]string{f: text})
			} else if w != text {
				c.Report(fmt.Sprintf("content %s again %v first %v", k.lang, k.again, i == 0), fmt.Sprintf("after %s the content of %s is not that of the first conversion of a process", what, f), "", map[string]string{"observed-" + f: text, "expected-" + f: w})
			}
		}
		for f := range state {
			if _, ok := got.Files[f]; !ok {
				c.Report("no output", fmt.Sprintf("after %s there is no %s", what, f), "", nil)
			}
		}
	}
	last := steps[len(steps)-1]
	c.Outcome(fmt.Sprintf("%d conversions, last failed %v", len(ks), last.Failed))
}

func historyCheck() *eng.Check {
	good, bad := historyNames()
	label := func(ks []conversion) func() string {
		return func() string {
			var l []string
			for _, k := range ks {
				l = append(l, k.String())
			}
			return strings.Join(l, " ; ")
		}
	}
	send := func(emit func(eng.Case), before map[string]string, note string, ks ...conversion) {
		ks = append([]conversion{}, ks...)
		emit(eng.Case{State: func() string { return note + label(ks)() }, Run: func(c *eng.Ctx) { checkHistory(c, before, ks) }})
	}
	var all, few []conversion
	for _, n := range append(append([]string{}, good...), bad...) {
		for _, l := range conv.Langs {
			all = append(all, conversion{in: n, lang: l})
		}
	}
	for i, n := range []string{"names", "other", "nested", "simple", "include", "default", "badElement", "badGroup", "badSimple", "badInclude", "badOutput"} {
		for j, l := range conv.Langs {
			if l == "Go" || j == 1+i%4 || n == "names" {
				few = append(few, conversion{in: n, lang: l})
			}
		}
	}
	pairs := func(tier string, emit func(eng.Case)) {
		for _, a := range all {
			send(emit, nil, "", a)
			for _, b := range all {
				send(emit, nil, "", a, b)
			}
		}
	}
	triples := func(tier string, emit func(eng.Case)) {
		set := few
		if thorough(tier) {
			set = all
		}
		for _, a := range set {
			for _, b := range set {
				for _, k := range set {
					send(emit, nil, "", a, b, k)
				}
			}
		}
	}
	repeats := func(tier string, emit func(eng.Case)) {
		for _, a := range all {
			var ks []conversion
			for n := 0; n < pick(tier, 12, 40); n++ {
				ks = append(ks, a)
			}
			send(emit, nil, "", ks...)
		}
		set := few
		if thorough(tier) {
			set = all
		}
		for _, a := range set {
			for _, b := range set {
				var ks []conversion
				for n := 0; n < pick(tier, 4, 12); n++ {
					ks = append(ks, a, b)
				}
				if a != b {
					send(emit, nil, "", ks...)
				}
			}
		}
	}
	again := func(tier string, emit func(eng.Case)) {
		for _, a := range all {
			b := a
			b.again = true
			send(emit, nil, "", a, b)
			send(emit, nil, "", a, b, b)
			for _, k := range few {
				send(emit, nil, "", k, a, b)
				send(emit, nil, "", a, b, k)
			}
		}
	}
	outputs := func(tier string, emit func(eng.Case)) {
		sizes := []int{0, 1, 10, 100, 1000, 4095, 4096, 4097, 10000, 100000}
		if thorough(tier) {
			for n := 2; n < 5000; n += 7 {
				sizes = append(sizes, n)
			}
		}
		for _, a := range all {
			for _, n := range sizes {
				for _, fill := range []string{"x", "package y\n"} {
					before := map[string]string{}
					for _, f := range []string{"a.xsd", "b.xsd"} {
						before[f+read.Ext(a.lang)] = strings.Repeat(fill, n)[:n]
					}
					send(emit, before, fmt.Sprintf("over %d bytes of %q: ", n, fill), a)
				}
			}
		}
	}
	return &eng.Check{Prop: "C19", Level: "model_checking", Assumptions: []string{
		"every history runs in a process of its own; what a conversion does alone is what it does as the first one of a process, into an empty directory",
		"what a failed conversion leaves in the output directory is not constrained",
	}, Spaces: func(tier string) []eng.Space {
		n := len(all)
		return []eng.Space{
			{Name: "pairs", Bound: fmt.Sprintf("all histories of up to 2 of %d conversions (%d inputs, %d of them failing, x 5 languages), into the same output files", n, len(good)+len(bad), len(bad)), Gen: pairs},
			{Name: "triples", Bound: fmt.Sprintf("all histories of 3 of %d (thorough: %d) conversions", len(few), n), Gen: triples},
			{Name: "repeats", Bound: "every conversion 12 (thorough: 40) times in a row; every pair of conversions alternating 4 (thorough: 12) times (quick: of the smaller set)", Gen: repeats},
			{Name: "again", Bound: fmt.Sprintf("every conversion with its parser used once or twice more, before and after each of %d conversions", len(few)), Gen: again},
			{Name: "outputs", Bound: "every conversion over existing output files of 10 (thorough: 724) lengths and 2 contents", Gen: outputs},
		}
	}}
}
