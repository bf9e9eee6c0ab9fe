// Package conv drives the implementation: one conversion per call.
package conv

import (
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"runtime/debug"
	"strings"

	"github.com/xuri/xgen"
	"verif/mc/read"
)

// Langs are the target languages.
var Langs = []string{"Go", "TypeScript", "C", "Java", "Rust"}

// Options for one conversion, as the command line makes them.
func Options(file, in, out, lang, pkg string) *xgen.Options {
	return &xgen.Options{
		FilePath: file, InputDir: in, OutputDir: out, Lang: lang, Package: pkg,
		IncludeMap:          make(map[string]bool),
		LocalNameNSMap:      make(map[string]string),
		NSSchemaLocationMap: make(map[string]string),
		ParseFileList:       make(map[string]bool),
		ParseFileMap:        make(map[string][]interface{}),
		ProtoTree:           make([]interface{}, 0),
		RemoteSchema:        make(map[string][]byte),
	}
}

// Parse runs a conversion and turns a panic into a report.
func Parse(o *xgen.Options) (err error, panicked string) {
	defer func() {
		if r := recover(); r != nil {
			panicked = fmt.Sprintf("%v at %s", r, site(string(debug.Stack())))
		}
	}()
	err = xgen.NewParser(o).Parse()
	return
}

func site(stack string) string {
	after := false
	for _, l := range strings.Split(stack, "\n") {
		if strings.HasPrefix(l, "panic(") {
			after = true
			continue
		}
		if after && strings.Contains(l, "/repo/") || after && strings.Contains(l, "xgen.") && strings.HasPrefix(l, "github.com") {
			return strings.TrimSpace(l)
		}
	}
	return "?"
}

// Box is a scratch place with one input file.
type Box struct {
	Dir  string
	last string
}

// NewBox makes the directories.
func NewBox(dir string) *Box {
	os.MkdirAll(filepath.Join(dir, "in"), 0755)
	os.MkdirAll(filepath.Join(dir, "out"), 0755)
	return &Box{Dir: dir}
}

// In is the input path.
func (b *Box) In() string { return filepath.Join(b.Dir, "in", "a.xsd") }

// OutPath is the output path for a language.
func (b *Box) OutPath(lang string) string {
	return filepath.Join(b.Dir, "out", "a.xsd"+read.Ext(lang))
}

// Conv converts a document; out is the generated source.
func (b *Box) Conv(doc, lang string) (out string, err error, panicked string) {
	if b.last != doc || b.last == "" {
		if e := ioutil.WriteFile(b.In(), []byte(doc), 0644); e != nil {
			panic(e)
		}
		b.last = doc
	}
	os.Remove(b.OutPath(lang))
	err, panicked = Parse(Options(b.In(), filepath.Join(b.Dir, "in"), filepath.Join(b.Dir, "out"), lang, "schema"))
	if err != nil || panicked != "" {
		return
	}
	s, e := ioutil.ReadFile(b.OutPath(lang))
	if e != nil {
		err = fmt.Errorf("no output written: %v", e)
		return
	}
	return string(s), nil, ""
}

// Tree parses a document and returns its proto tree.
func (b *Box) Tree(doc, lang string, extract bool) (tree []interface{}, err error, panicked string) {
	if b.last != doc || b.last == "" {
		if e := ioutil.WriteFile(b.In(), []byte(doc), 0644); e != nil {
			panic(e)
		}
		b.last = doc
	}
	o := Options(b.In(), filepath.Join(b.Dir, "in"), filepath.Join(b.Dir, "out"), lang, "schema")
	o.Extract = extract
	err, panicked = Parse(o)
	return o.ProtoTree, err, panicked
}
