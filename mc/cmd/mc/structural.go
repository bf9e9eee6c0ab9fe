package main

import (
	"fmt"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

// relevant lists the classes of disagreement each structural property is about.
// A conversion that fails, panics or yields unreadable source breaks them all.
var relevant = map[string]string{
	"C02": "noout decl-missing decl-extra decl-dup kind",
	"C03": "noout member-missing member-extra member-dup xmlname optional decl-missing",
	"C04": "noout plural",
	"C05": "noout type base alias list union",
	"C06": "noout type base alias list union plural",
	"C07": "noout dangling decl-dup member-dup import syntax typecheck reserved",
	"C20": "noout decl-order member-order",
	"C18": "noout list union enum alias kind simple-member",
}

var boxes = map[int]*conv.Box{}

func box(c *eng.Ctx) *conv.Box {
	b, ok := boxes[c.Worker]
	if !ok {
		b = conv.NewBox(c.Dir)
		boxes[c.Worker] = b
	}
	return b
}

// evalSchema converts a schema for every language and returns the
// disagreements with the model.
func evalSchema(c *eng.Ctx, s *xsd.Schema, st xsd.Style, langs []string, check bool) (ds []spec.Diff, doc string, outs map[string]string) {
	return evalDoc(c, s, st, s.Text(st), langs, check)
}

// evalDoc is evalSchema for a document that says what the schema says.
func evalDoc(c *eng.Ctx, s *xsd.Schema, st xsd.Style, text string, langs []string, check bool) (ds []spec.Diff, doc string, outs map[string]string) {
	m := spec.Build(s)
	doc = text
	outs = map[string]string{}
	m.Prefix = st.T
	b := box(c)
	for _, lang := range langs {
		out, err, p := b.Conv(doc, lang)
		c.Transition(1, 1)
		if p != "" {
			ds = append(ds, spec.Diff{Class: "noout", Lang: lang, Exp: "a source file", Got: "panic: " + p})
			continue
		}
		if err != nil {
			ds = append(ds, spec.Diff{Class: "noout", Lang: lang, Exp: "a source file", Got: "error: " + err.Error()})
			continue
		}
		outs[lang] = out
		f, err := read.Read(lang, out)
		if err != nil {
			ds = append(ds, spec.Diff{Class: "syntax", Lang: lang, Exp: "well-formed source", Got: err.Error()})
			continue
		}
		ds = append(ds, m.Compare(f)...)
		ds = append(ds, spec.Formedness(f, nil)...)
		if lang == "Go" && check {
			if e := read.CheckGo(out); e != "" {
				ds = append(ds, spec.Diff{Class: "typecheck", Lang: lang, Exp: "a file that type-checks", Got: e})
			}
		}
		c.Count("declarations compared", int64(len(m.Decls)))
	}
	return
}

// structural makes the check of one structural property.
func structural(prop string, spaces func(tier string) []eng.Space) *eng.Check {
	return &eng.Check{Prop: prop, Level: "model_checking", Spaces: spaces, Assumptions: assume}
}

var assume = []string{
	"the reference model (mc/spec) states what XML Schema and the documented mapping require",
	"the readers (mc/read) accept exactly the fragment of each target language the generator may emit",
}

// schemaSpace turns a schema family into a space of the property.
func schemaSpace(prop, name, bound string, styles []xsd.Style, gen func(tier string, emit func(space.Item))) eng.Space {
	return eng.Space{Name: name, Bound: bound, Gen: func(tier string, emit func(eng.Case)) {
		gen(tier, func(it space.Item) {
			for si := range styles {
				st := styles[si]
				emit(eng.Case{
					State: func() string { return it.Label + styleName(si) },
					Run: func(c *eng.Ctx) {
						s := it.Schema()
						ds, doc, outs := evalSchema(c, s, st, conv.Langs, prop == "C07")
						reportDiffs(c, prop, name, s, ds, doc, outs)
					}})
			}
		})
	}}
}

func styleName(i int) string {
	if i == 0 {
		return ""
	}
	return fmt.Sprintf(" (style %d)", i)
}

func reportDiffs(c *eng.Ctx, prop, space string, s *xsd.Schema, ds []spec.Diff, doc string, outs map[string]string) {
	rel := " " + relevant[prop] + " "
	if prop == "C18" {
		// simple types stand in members, too
		if space == "facets" || space == "varieties" || space == "related unions" {
			rel += "type plural member-missing member-extra decl-missing base "
		}
	}
	for _, d := range ds {
		if !strings.Contains(rel, " "+d.Class+" ") && d.Class != "syntax" {
			continue
		}
		sig := d.Lang + " " + d.Class + " " + d.Comp
		if d.Class == "noout" || d.Class == "syntax" {
			sig = d.Lang + " " + d.Class + " " + d.Got
			if len(sig) > 100 {
				sig = sig[:100]
			}
		}
		fid := spec.Finding(prop, d, s)
		if fid != "" && !c.Known(fid) {
			fid = ""
		}
		files := map[string]string{"a.xsd": doc}
		if o, ok := outs[d.Lang]; ok {
			files["a.xsd"+read.Ext(d.Lang)] = o
		}
		c.Report(sig, d.String(), fid, files)
	}
}
