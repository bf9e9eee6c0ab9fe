package main

import (
	"bytes"
	"encoding/xml"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/net/html/charset"

	"github.com/xuri/xgen"
	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/rt"
	"verif/mc/space"
	"verif/mc/xsd"
)

// An input of the fault family: its files, the first of which is converted.
type faultInput struct {
	name string
	docs map[string]string
	dir  string // of the main file, and the input directory
}

func faultInputs() (l []faultInput) {
	good, _ := historyNames()
	for _, n := range good {
		l = append(l, faultInput{name: n, docs: historyInputs[n]})
	}
	var b strings.Builder
	b.WriteString(hdr)
	for i := 0; i < 120; i++ {
		fmt.Fprintf(&b, `<xs:complexType name="Large%d"><xs:sequence><xs:element name="m%d" type="xs:int" maxOccurs="%d"/></xs:sequence></xs:complexType>`, i, i, 1+i%2)
	}
	b.WriteString(`</xs:schema>`)
	l = append(l, faultInput{name: "large", docs: map[string]string{"a.xsd": b.String()}})
	l = append(l, faultInput{name: "chain", docs: map[string]string{
		"a.xsd":   hdr + `<xs:include schemaLocation="b.xsd"/><xs:complexType name="A"><xs:sequence><xs:element name="x" type="Far"/><xs:element name="y" type="Near"/></xs:sequence></xs:complexType></xs:schema>`,
		"b.xsd":   hdr + `<xs:include schemaLocation="d/c.xsd"/><xs:simpleType name="Near"><xs:restriction base="Far"/></xs:simpleType></xs:schema>`,
		"d/c.xsd": hdr + `<xs:simpleType name="Far"><xs:restriction base="xs:gYear"/></xs:simpleType></xs:schema>`}})
	l = append(l, faultInput{name: "imports", docs: map[string]string{
		"a.xsd":   `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:b="urn:b" xmlns:c="urn:c" targetNamespace="urn:t"><xs:import namespace="urn:b" schemaLocation="b.xsd"/><xs:import namespace="urn:c" schemaLocation="d/c.xsd"/><xs:element name="A" type="b:item"/><xs:attribute name="at" type="c:code"/></xs:schema>`,
		"b.xsd":   `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b"><xs:complexType name="item"><xs:attribute name="id" type="xs:ID"/></xs:complexType></xs:schema>`,
		"d/c.xsd": `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:c"><xs:simpleType name="code"><xs:restriction base="xs:byte"/></xs:simpleType></xs:schema>`}})
	// what is referred to lies outside of the input directory
	l = append(l, faultInput{"outside imports", map[string]string{
		"m/a.xsd": `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:b="urn:b" targetNamespace="urn:t"><xs:import namespace="urn:b" schemaLocation="../b.xsd"/><xs:element name="A" type="b:item"/></xs:schema>`,
		"b.xsd":   `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b"><xs:include schemaLocation="c.xsd"/><xs:complexType name="item"><xs:attribute name="id" type="xs:ID"/></xs:complexType></xs:schema>`,
		"c.xsd":   `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" targetNamespace="urn:b"><xs:simpleType name="code"><xs:restriction base="xs:byte"/></xs:simpleType></xs:schema>`}, "m"})
	l = append(l, faultInput{"outside include", map[string]string{
		"m/a.xsd": hdr + `<xs:include schemaLocation="../b.xsd"/><xs:element name="A" type="Near"/></xs:schema>`,
		"b.xsd":   hdr + `<xs:simpleType name="Near"><xs:restriction base="xs:date"/></xs:simpleType></xs:schema>`}, "m"})
	return
}

// main is the file converted.
func (f faultInput) main() string { return filepath.Join(f.dir, "a.xsd") }

// outsBelow reads all files below a directory.
func outsBelow(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := ioutil.ReadFile(p)
			r, _ := filepath.Rel(dir, p)
			m[r] = string(b)
		}
		return nil
	})
	return m
}

// convertMain converts the first file into dir/o/p/out, which is empty, holds
// earlier output, or is missing.
func convertMain(c *eng.Ctx, f faultInput, lang string, fault rt.Fault, chunk int) (outs map[string]string, msg string, hit bool, log []string) {
	return convertWith(c, f, mainOptions(c, f, lang), fault, chunk)
}

func mainOptions(c *eng.Ctx, f faultInput, lang string) *xgen.Options {
	in, out := filepath.Join(c.Dir, "fin", f.dir), filepath.Join(c.Dir, "fo", "p", "out")
	return conv.Options(filepath.Join(in, "a.xsd"), in, out, lang, "schema")
}

// convertWith converts with the parser given.
func convertWith(c *eng.Ctx, f faultInput, opt *xgen.Options, fault rt.Fault, chunk int) (outs map[string]string, msg string, hit bool, log []string) {
	out := filepath.Join(c.Dir, "fo", "p", "out")
	rt.SetFault(fault, chunk)
	err, p := conv.Parse(opt)
	hit, log = rt.FaultOff()
	switch {
	case p != "":
		msg = "panic: " + p
	case err != nil:
		msg = err.Error()
		if msg == "" {
			msg = "error"
		}
	}
	c.Transition(1, 1)
	return outsBelow(out), msg, hit, log
}

func resetOut(c *eng.Ctx, before, lang string) {
	out := filepath.Join(c.Dir, "fo")
	os.MkdirAll(out, 0755)
	wipe(out)
	if before != "" {
		os.MkdirAll(filepath.Join(out, "p", "out"), 0755)
	}
	if before == "old" {
		ioutil.WriteFile(filepath.Join(out, "p", "out", "a.xsd"+read.Ext(lang)), []byte(strings.Repeat("old ", 5000)), 0644)
	}
}

func sameOuts(a, b map[string]string) string {
	var l []string
	for f := range a {
		if b[f] != a[f] {
			l = append(l, f)
		}
	}
	for f := range b {
		if _, ok := a[f]; !ok {
			l = append(l, "extra "+f)
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

// faultRef is the regular result of a conversion, and its steps.
func faultRef(c *eng.Ctx, in faultInput, lang string) (map[string]string, []string, string) {
	writeDocs(c, in.docs)
	resetOut(c, "", lang)
	outs, msg, _, log := convertMain(c, in, lang, rt.Fault{At: -1}, 0)
	return outs, log, msg
}

// place names the steps alike in all scratch directories.
// spare lists the steps that may fail unreported as long as the output is the
// regular one: looking at a file, and tidying up after the work is done.
var spare = map[string]bool{"stat": true, "remove": true, "chmod": true}

func stepName(c *eng.Ctx, s string) string { return strings.ReplaceAll(s, c.Dir, "") }

func faultCase(c *eng.Ctx, in faultInput, lang, before string, two bool) {
	if !rt.Active {
		panic("check error: the implementation is not instrumented")
	}
	want, log, msg := faultRef(c, in, lang)
	if msg != "" {
		c.Report("no reference", msg, "", in.docs)
		return
	}
	reads, writes := 0, 0
	for _, s := range log {
		switch strings.Fields(s)[0] {
		case "read", "open":
			reads++
		case "write", "create":
			writes++
		}
	}
	if reads == 0 || writes == 0 {
		panic("check error: the steps of the implementation are not seen: " + strings.Join(log, ", "))
	}
	resetOut(c, before, lang)
	_, _, _, log = convertMain(c, in, lang, rt.Fault{At: -1}, 0) // the steps with this directory
	for k, s := range log {
		for _, kind := range rt.Kinds(s) {
			resetOut(c, before, lang)
			opt := mainOptions(c, in, lang)
			outs, msg, hit, _ := convertWith(c, in, opt, rt.Fault{At: k, Kind: kind}, 0)
			what := fmt.Sprintf("%s at step %d of %d, %s", kind, k, len(log), stepName(c, s))
			op := strings.Fields(s)[0]
			if !hit {
				c.Report("step gone", what+": the step did not come again", "", nil)
				continue
			}
			c.Count("faults injected", 1)
			c.Outcome(op + " " + kind + " reported " + fmt.Sprint(msg != ""))
			if strings.HasPrefix(msg, "panic") {
				c.Report("panic "+op, what+": "+msg, "", in.docs)
			}
			if msg == "" && (!spare[op] || sameOuts(want, outs) != "") {
				c.Report("unreported "+op+" "+kind+" "+lang, what+": no error is returned; outputs that differ: "+sameOuts(want, outs), "", in.docs)
			}
			if msg != "" {
				outs, again, _, _ := convertWith(c, in, opt, rt.Fault{At: -1}, 0)
				if again != "" {
					c.Report("same parser after "+op, what+", then without a fault, same parser: "+again, "", in.docs)
				} else if d := sameOuts(want, outs); d != "" {
					c.Report("same parser after "+op+" output", what+", then without a fault, same parser: not the regular output: "+d, "", in.docs)
				}
				resetOut(c, before, lang)
				convertMain(c, in, lang, rt.Fault{At: k, Kind: kind}, 0)
			}
			if two {
				for k2, s2 := range log {
					for _, kind2 := range rt.Kinds(s2) {
						_, msg2, hit2, _ := convertMain(c, in, lang, rt.Fault{At: k2, Kind: kind2}, 0)
						if op2 := strings.Fields(s2)[0]; hit2 && msg2 == "" && !spare[op2] && op2 != "mkdir" {
							c.Report("unreported second "+op2, what+", then "+kind2+" at "+stepName(c, s2)+": no error is returned", "", in.docs)
						}
					}
				}
			}
			outs, msg, _, _ = convertMain(c, in, lang, rt.Fault{At: -1}, 0)
			if msg != "" {
				c.Report("after "+op, what+", then without a fault: "+msg, "", in.docs)
			} else if d := sameOuts(want, outs); d != "" {
				c.Report("after "+op+" output", what+", then without a fault: not the regular output: "+d, "", in.docs)
			}
		}
	}
}

func readCase(c *eng.Ctx, in faultInput, lang string, chunk int) {
	want, _, msg := faultRef(c, in, lang)
	if msg != "" {
		c.Report("no reference", msg, "", in.docs)
		return
	}
	resetOut(c, "", lang)
	outs, msg, _, _ := convertMain(c, in, lang, rt.Fault{At: -1}, chunk)
	if msg != "" {
		c.Report("short read error", fmt.Sprintf("reads of at most %d bytes: %s", chunk, msg), "", in.docs)
	} else if d := sameOuts(want, outs); d != "" {
		c.Report("short read output", fmt.Sprintf("reads of at most %d bytes: not the regular output: %s", chunk, d), "", in.docs)
	}
}

// parseable is what encoding/xml makes of a document.
func parseable(doc string) bool {
	if strings.HasPrefix(doc, "\xfe\xff") || strings.HasPrefix(doc, "\xff\xfe") {
		return true // not judged here
	}
	d := xml.NewDecoder(bytes.NewReader([]byte(doc)))
	d.CharsetReader = charset.NewReaderLabel
	element := false
	for {
		t, err := d.Token()
		if err == io.EOF {
			return element
		}
		if err != nil {
			return false
		}
		if _, ok := t.(xml.StartElement); ok {
			element = true
		}
	}
}

// brokenCase converts an input of which one document is damaged.
func brokenCase(c *eng.Ctx, f faultInput, lang, file, doc, what string, must, again bool) {
	in, out := filepath.Join(c.Dir, "fin", f.dir), filepath.Join(c.Dir, "bout")
	if err := ioutil.WriteFile(filepath.Join(c.Dir, "fin", file), []byte(doc), 0644); err != nil {
		panic(err)
	}
	if again {
		if err := os.RemoveAll(out); err != nil {
			panic(err)
		}
	}
	opt := conv.Options(filepath.Join(in, "a.xsd"), in, out, lang, "schema")
	err, p := conv.Parse(opt)
	c.Transition(1, 1)
	if p != "" {
		c.Report("panic", what+": "+p, "", map[string]string{file: doc})
	}
	if err != nil && again {
		retried(c, f, lang, what, opt, in, out)
	}
	if err == nil && must {
		c.Report("unreported "+strings.Fields(what)[0]+" "+f.name+" "+lang, what+": no error is returned", "", map[string]string{file: doc})
	}
	if must {
		c.Count("broken documents", 1)
	}
}

var regular = map[string]map[string]string{}

// retried restores the documents after an error and converts again, with the
// parser that failed and with a new one.
func retried(c *eng.Ctx, f faultInput, lang, what string, opt *xgen.Options, in, out string) {
	writeDocs(c, f.docs)
	key := fmt.Sprint(c.Dir, f.name, lang)
	for _, same := range []bool{true, false} {
		if !same {
			opt = conv.Options(filepath.Join(in, "a.xsd"), in, out, lang, "schema")
			if err := os.RemoveAll(out); err != nil {
				panic(err)
			}
		}
		err, p := conv.Parse(opt)
		c.Transition(1, 1)
		if err != nil || p != "" {
			c.Report(fmt.Sprint("after broken, same parser ", same), fmt.Sprintf("%s, then restored: %v %s (same parser: %v)", what, err, p, same), "", f.docs)
			continue
		}
		outs := outsBelow(out)
		if regular[key] == nil {
			o := filepath.Join(c.Dir, "bref")
			if err, p := conv.Parse(conv.Options(filepath.Join(in, "a.xsd"), in, o, lang, "schema")); err != nil || p != "" {
				panic(fmt.Sprint("check error: ", err, p))
			}
			regular[key] = outsBelow(o)
			os.RemoveAll(o)
		}
		if d := sameOuts(regular[key], outs); d != "" {
			c.Report(fmt.Sprint("after broken output, same parser ", same), fmt.Sprintf("%s, then restored: not the regular output: %s (same parser: %v)", what, d, same), "", outs)
		}
	}
}

func brokenDocs() (l []faultInput) {
	for _, in := range faultInputs() {
		if in.name != "large" {
			l = append(l, in)
		}
	}
	return
}

func filesOf(in faultInput) (l []string) {
	for f := range in.docs {
		l = append(l, f)
	}
	sort.Strings(l)
	return
}

func cliFaults(c *eng.Ctx, in faultInput, lang string, dir bool) {
	top, work := place(c)
	set := func() {
		wipe(work)
		for f, t := range in.docs {
			put(work, filepath.Join("s", f), t)
		}
		if !dir {
			return
		}
		put(work, "s/z.xsd", doc(9))
		put(work, "s/m/n.xsd", doc(8))
		put(work, "s/m/notes.txt", "no schema")
	}
	args := []string{"-i", "s/" + in.main(), "-o", "t/out", "-l", lang, "-p", "p"}
	if dir {
		args = []string{"-i", "s", "-o", "t/out", "-l", lang, "-p", "p"}
	}
	logf := filepath.Join(top, "log")
	put(top, "log", "")
	done := func(r cmdRun) bool {
		for _, l := range strings.Split(r.stdout, "\n") {
			if strings.TrimSpace(l) == "done" {
				return true
			}
		}
		return false
	}
	set()
	r := command(c, work, args, "VRT_LOG="+logf)
	want := snapshot(work)
	b, _ := ioutil.ReadFile(logf)
	os.Remove(logf)
	log := strings.Split(strings.TrimSpace(string(b)), "\n")
	if r.code != 0 || !done(r) {
		c.Report("command reference", fmt.Sprint("status ", r.code, r.stdout, r.stderr), "", in.docs)
		return
	}
	if len(log) < 4 {
		panic("check error: the steps of the command are not seen")
	}
	differs := func(t tree) string {
		a, b := map[string]string{}, map[string]string{}
		for k, v := range want {
			a[k] = v
		}
		for k, v := range t {
			b[k] = v
		}
		return sameOuts(a, b)
	}
	for k, s := range log {
		for _, kind := range rt.Kinds(s) {
			set()
			r := command(c, work, args, fmt.Sprintf("VRT_FAULT=%d:%s", k, kind))
			op := strings.Fields(s)[0]
			what := fmt.Sprintf("xgen %s, %s at step %d of %d, %s", strings.Join(args, " "), kind, k, len(log), s)
			if strings.Contains(r.stderr, "goroutine ") || strings.Contains(r.stderr, "TIMEOUT") || r.code < 0 {
				c.Report("command crash", what+": "+firstLines(r.stderr, 3), "", in.docs)
			}
			c.Count("faults injected", 1)
			ok := r.code == 0 || done(r)
			if ok && (!spare[op] || differs(snapshot(work)) != "") {
				c.Report("command unreported "+op+" "+kind, fmt.Sprintf("%s: status %d, printed %q; differs: %s", what, r.code, r.stdout, differs(snapshot(work))), "", in.docs)
			}
			if !ok && strings.TrimSpace(r.stdout+r.stderr) == "" {
				c.Report("command silent", what+": no message", "", in.docs)
			}
			c.Outcome("command " + op + " " + kind + " reported " + fmt.Sprint(!ok))
			r = command(c, work, args)
			if r.code != 0 || !done(r) {
				c.Report("command after "+op, what+", then without a fault: "+r.stdout+r.stderr, "", in.docs)
			} else if d := differs(snapshot(work)); d != "" {
				c.Report("command after "+op+" output", what+", then without a fault: not the regular output: "+d, "", in.docs)
			}
		}
	}
}

func faultCheck() *eng.Check {
	inputs := faultInputs()
	faults := func(tier string, emit func(eng.Case)) {
		for _, in := range inputs {
			for _, lang := range conv.Langs {
				for _, before := range []string{"", "dir", "old"} {
					in, lang, before := in, lang, before
					emit(eng.Case{State: func() string { return in.name + " " + lang + " into " + before }, Run: func(c *eng.Ctx) { faultCase(c, in, lang, before, thorough(c.Tier)) }})
				}
			}
		}
		// every template on its own
		space.Sequences(1, false, func(it space.Item) {
			emit(eng.Case{State: func() string { return it.Label }, Run: func(c *eng.Ctx) {
				docs := map[string]string{"a.xsd": it.Schema().Text(xsd.Plain)}
				for _, lang := range conv.Langs {
					faultCase(c, faultInput{name: "template", docs: docs}, lang, "", false)
				}
			}})
		})
	}
	shortReads := func(tier string, emit func(eng.Case)) {
		for _, in := range inputs {
			for _, lang := range conv.Langs {
				for _, n := range []int{1, 2, 3, 5, 7, 16, 64, 100, 511, 512, 513, 4095} {
					in, lang, n := in, lang, n
					emit(eng.Case{State: func() string { return fmt.Sprintf("%s %s reads of %d", in.name, lang, n) }, Run: func(c *eng.Ctx) { readCase(c, in, lang, n) }})
				}
			}
		}
	}
	prefixes := func(tier string, emit func(eng.Case)) {
		for _, in := range inputs {
			if in.name == "large" && !thorough(tier) {
				continue
			}
			for _, file := range filesOf(in) {
				plainDoc := in.docs[file]
				for form, full := range []string{plainDoc + "\n<!-- end -->\n<?p i?>\n", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!-- start -->\n" + plainDoc, utf16Doc("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"+plainDoc, true), utf16Doc("<?xml version=\"1.0\" encoding=\"UTF-8\"?>"+plainDoc, false)} {
					for n := 0; n < len(full); n++ {
						in, file, form, n, doc := in, file, form, n, full[:n]
						emit(eng.Case{State: func() string { return fmt.Sprintf("%s form %d, first %d bytes of %s", in.name, form, n, file) }, Run: func(c *eng.Ctx) {
							must := !parseable(doc)
							if form >= 2 {
								must = true // the last character closes the root element
							}
							writeDocs(c, in.docs)
							for _, lang := range conv.Langs {
								brokenCase(c, in, lang, file, doc, fmt.Sprintf("truncated after %d of %d bytes", n, len(full)), must, thorough(c.Tier) || lang == conv.Langs[n%len(conv.Langs)])
							}
						}})
					}
				}
			}
		}
	}
	bytesOf := func(tier string) []string {
		l := []string{"", "<", ">", "&", "\"", "'", "/", " ", "=", "\x00", "\xff", "]]>", "<!--", "x"}
		if thorough(tier) {
			for b := 0; b < 256; b++ {
				l = append(l, string([]byte{byte(b)}))
			}
		}
		return l
	}
	corrupt := func(tier string, emit func(eng.Case)) {
		for _, in := range brokenDocs() {
			for _, file := range filesOf(in) {
				full := in.docs[file]
				for n := 0; n < len(full); n++ {
					for _, by := range bytesOf(tier) {
						for _, cut := range []int{0, 1} {
							doc := full[:n] + by + full[n+cut:]
							if doc == full {
								continue
							}
							in, file, n, by, cut := in, file, n, by, cut
							emit(eng.Case{State: func() string { return fmt.Sprintf("%s %s, %d bytes at %d replaced by %q", in.name, file, cut, n, by) }, Run: func(c *eng.Ctx) {
								must := !parseable(doc)
								if !must {
									c.Outcome("still XML")
									return
								}
								langs := conv.Langs
								if !thorough(c.Tier) {
									langs = []string{conv.Langs[(n+cut+len(by))%len(conv.Langs)]}
								}
								writeDocs(c, in.docs)
								for _, lang := range langs {
									brokenCase(c, in, lang, file, doc, fmt.Sprintf("corrupted: %d bytes at %d replaced by %q", cut, n, by), true, thorough(c.Tier) || by == "<" || by == "")
								}
							}})
						}
					}
				}
			}
		}
	}
	commands := func(tier string, emit func(eng.Case)) {
		for _, in := range inputs {
			for i, lang := range conv.Langs {
				for _, dir := range []bool{false, true} {
					if !thorough(tier) && i > 0 && in.name != "chain" && in.name != "small" {
						continue
					}
					in, lang, dir := in, lang, dir
					emit(eng.Case{State: func() string { return fmt.Sprintf("command on %s %s directory %v", in.name, lang, dir) }, Run: func(c *eng.Ctx) { cliFaults(c, in, lang, dir) }})
				}
			}
		}
	}
	return &eng.Check{Prop: "C12", Level: "fault_enumeration", Assumptions: []string{
		"faults are injected where the instrumented implementation calls os, io/ioutil or path/filepath; every call is a step",
		"a failing stat may be ignored if the outputs are the regular ones; the close of a file that was only read may fail",
		"encoding/xml decides which documents are XML",
	}, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			{Name: "faults", Bound: fmt.Sprintf("%d inputs (up to 3 files) x 5 languages x 3 output directories, and all component templates: every kind of fault at every step, then the conversion without fault (thorough: every pair of faults in two conversions)", len(inputs)), Gen: faults},
			{Name: "short reads", Bound: "the inputs x languages x 12 limits of the length of a read", Gen: shortReads},
			{Name: "prefixes", Bound: "every proper prefix of every file of the inputs in 4 forms (one with an end after the root element, two in UTF-16)", Gen: prefixes},
			{Name: "corruptions", Bound: "every position of every file of the inputs x 14 (thorough: 270) texts in the place of 0 or 1 bytes that leave no XML document", Gen: corrupt},
			{Name: "command", Bound: "the command on a file and on a directory: every kind of fault at every step, then without fault", Gen: commands},
		}
	}}
}
