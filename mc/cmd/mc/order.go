package main

import (
	"fmt"
	"sort"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/rt"
	"verif/mc/space"
	"verif/mc/xsd"
)

var orderAssume = []string{
	"the instrumented build decides the order of every iteration over a map, the clock, the process number and the draws of math/rand; what it makes the implementation do, the language and the system may do",
	"maps of more than 4 elements: rotations, transpositions of neighbours and the reverse order only",
}

// ordered runs one conversion under all choices up to the given number of
// deviations from the default order, and compares the outputs.
func ordered(c *eng.Ctx, deviations int, run func() (outs map[string]string, bad string)) {
	if !rt.Active {
		panic("check error: the implementation is not instrumented")
	}
	defer rt.OrderOff()
	var base map[string]string
	baseBad := ""
	total := 0
	exec := func(o rt.Order, what func() string) []int {
		rt.SetOrder(o)
		outs, bad := run()
		sizes := rt.Sizes()
		total++
		c.Transition(1, 1)
		if base == nil {
			base, baseBad = outs, bad
			if base == nil {
				base = map[string]string{}
			}
			return sizes
		}
		if bad != baseBad && (bad == "" || baseBad == "") {
			c.Report("status", fmt.Sprintf("%s: %q, in the default order: %q", what(), bad, baseBad), "", nil)
			return sizes
		}
		var names []string
		for f := range base {
			names = append(names, f)
		}
		sort.Strings(names)
		for _, f := range names {
			if w := base[f]; outs[f] != w {
				c.Report("output "+f[strings.LastIndex(f, ".")+1:], fmt.Sprintf("%s: %s differs: %s", what(), f, firstDiff(w, outs[f])), "", map[string]string{"default-" + f: w, "observed-" + f: outs[f]})
			}
		}
		if len(outs) != len(base) {
			c.Report("outputs", fmt.Sprintf("%s: %d files, in the default order %d", what(), len(outs), len(base)), "", nil)
		}
		return sizes
	}
	sizes := exec(rt.Order{}, nil)
	if baseBad != "" {
		c.Report("noout", baseBad, "", nil)
		return
	}
	most := 0
	for _, n := range sizes {
		if n > most {
			most = n
		}
	}
	c.Count("iterations over maps in the default order", int64(len(sizes)))
	for k := 1; k < rt.Permutations(most); k++ {
		k := k
		exec(rt.Order{Global: k}, func() string { return fmt.Sprintf("order %d of every map", k) })
	}
	for k := 1; k < rt.Clocks(); k++ {
		k := k
		exec(rt.Order{Clock: k}, func() string { return fmt.Sprintf("clock %d", k) })
	}
	var deeper func(sizes []int, from, left int, single map[int]int)
	deeper = func(sizes []int, from, left int, single map[int]int) {
		for i := from; i < len(sizes); i++ {
			for k := 1; k < rt.Permutations(sizes[i]); k++ {
				m := map[int]int{i: k}
				for a, b := range single {
					m[a] = b
				}
				next := exec(rt.Order{Single: m}, func() string { return fmt.Sprintf("orders of single iterations %v", m) })
				if left > 1 {
					deeper(next, i+1, left-1, m)
				}
			}
		}
	}
	if deviations > 0 {
		deeper(sizes, 0, deviations, nil)
	}
	if total > 1 {
		c.Outcome("equal in several orders")
	}
}

// ordersOf makes a space of the schemas of a family.
func ordersOf(name, bound string, deviations func(tier string) int, styles []xsd.Style, g gen) eng.Space {
	return eng.Space{Name: name, Bound: bound, Gen: func(tier string, emit func(eng.Case)) {
		g(tier, func(it space.Item) {
			for si := range styles {
				st := styles[si]
				emit(eng.Case{State: func() string { return it.Label + styleName(si) }, Run: func(c *eng.Ctx) {
					doc := it.Schema().Text(st)
					b := box(c)
					for _, lang := range conv.Langs {
						lang := lang
						ordered(c, deviations(tier), func() (map[string]string, string) {
							out, err, p := b.Conv(doc, lang)
							if p != "" {
								return nil, "panic: " + p
							}
							if err != nil {
								return nil, err.Error()
							}
							return map[string]string{"a.xsd" + read.Ext(lang): out}, ""
						})
					}
				}})
			}
		})
	}}
}

// manyNames is a style with several prefixes for either namespace.
func manyNames() xsd.Style {
	st := xsd.Plain
	st.Foreign = true
	return st
}

func orderCheck() *eng.Check {
	level := func(q, t int) func(string) int { return func(tier string) int { return pick(tier, q, t) } }
	styles := []xsd.Style{xsd.Plain, manyNames()}
	sets := func(tier string, emit func(eng.Case)) {
		f := setsOf{n: 2, self: true, dirs: []string{"", "", ""}, vias: []string{"element"}, ends: []string{"builtin", "complex", "list"}, maxAlias: 1}
		f.eval = func(c *eng.Ctx, f fileSet, ch chain) {
			ss, ok := f.build(ch)
			if !ok {
				return
			}
			docs := map[string]string{}
			var order []string
			for i, s := range ss {
				docs[f.name(i)] = s.Text(f.style(i))
				order = append(order, f.name(i))
			}
			writeDocs(c, docs)
			for _, lang := range conv.Langs {
				lang := lang
				ordered(c, pick(c.Tier, 1, 2), func() (map[string]string, string) {
					return runSet(c, docs, order, lang)
				})
			}
		}
		f.users = pickUsers("local element", "attribute", "restriction", "complex extension", "member")
		f.gen(tier, emit)
	}
	// one schema with up to 4 others beside it, which declare the type it
	// refers to, some of them differently
	stars := func(tier string, emit func(eng.Case)) {
		const top = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns="urn:t" targetNamespace="urn:t">`
		bases := []string{"", "xs:int", "xs:boolean", "Mid", "xs:date"}
		for n := 2; n <= pick(tier, 3, 4); n++ {
			total := 1
			for i := 0; i < n; i++ {
				total *= len(bases)
			}
			for k := 0; k < total; k++ {
				for _, user := range []string{`<xs:element name="User" type="Code"/>`, `<xs:complexType name="User"><xs:sequence><xs:element name="u" type="Code" maxOccurs="2"/></xs:sequence><xs:attribute name="a" type="Mid"/></xs:complexType>`, `<xs:simpleType name="User"><xs:union memberTypes="Code Mid xs:int"/></xs:simpleType>`, `<xs:complexType name="User"><xs:simpleContent><xs:extension base="Code"/></xs:simpleContent></xs:complexType>`} {
					docs := map[string]string{}
					order := []string{"m.xsd"}
					main, what := top, ""
					x := k
					for i := 0; i < n; i++ {
						f := string(rune('a'+(i*3)%7)) + ".xsd"
						order = append(order, f)
						main += `<xs:include schemaLocation="` + f + `"/>`
						b := bases[x%len(bases)]
						x /= len(bases)
						d := top + `<xs:simpleType name="Mid"><xs:restriction base="xs:short"/></xs:simpleType>`
						if b != "" {
							d += `<xs:simpleType name="Code"><xs:restriction base="` + b + `"/></xs:simpleType>`
						} else if i == 0 {
							d = top + `<xs:include schemaLocation="m.xsd"/>`
						}
						docs[f] = d + `</xs:schema>`
						what += " " + f + "=" + b
					}
					docs["m.xsd"] = main + user + `</xs:schema>`
					emit(eng.Case{State: func() string { return "m.xsd with" + what + ": " + user }, Run: func(c *eng.Ctx) {
						writeDocs(c, docs)
						for _, lang := range conv.Langs {
							lang := lang
							ordered(c, pick(c.Tier, 1, 2), func() (map[string]string, string) { return runSet(c, docs, order[:1], lang) })
						}
					}})
				}
			}
		}
	}
	return &eng.Check{Prop: "C11", Level: "model_checking", Assumptions: orderAssume, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			ordersOf("templates", "all sequences of up to 1 (thorough: 2) component templates x 2 sets of namespace declarations; every single deviation (thorough: every 2) from the default order of an iteration, all orders of all iterations alike, all clocks", level(1, 2), styles, func(t string, emit func(space.Item)) { space.Sequences(pick(t, 1, 1), false, emit) }),
			ordersOf("varieties", "all unions of up to 3 (thorough: 4) members, in every order, and lists, x uses; as above", level(1, 2), plain, func(t string, emit func(space.Item)) { space.Varieties(pick(t, 3, 4), emit) }),
			ordersOf("sequences", "all sequences of up to 2 component templates; all orders of all iterations alike, all clocks (thorough: every single deviation)", level(0, 1), plain, func(t string, emit func(space.Item)) { space.Sequences(2, false, emit) }),
			ordersOf("members", "all lists of up to 2 member kinds in every context; as above", level(0, 1), plain, func(t string, emit func(space.Item)) { space.Members(2, emit) }),
			ordersOf("related unions", "all unions of 2 (thorough: up to 3) types whose names are parts of one another, or differ in case and separators only, x bases x uses; as above", level(1, 1), plain, func(t string, emit func(space.Item)) {
				space.RelatedUnions(pick(t, 2, 3), emit)
				space.CaseUnions(pick(t, 2, 3), emit)
			}),
			ordersOf("parts", "all lists, restrictions and unions of one local simple type or of types given by reference, x 6 positions; as above", level(0, 1), plain, func(t string, emit func(space.Item)) { space.Parts(1, emit) }),
			ordersOf("refs", "all referring positions x targets over up to 1 alias; as above", level(0, 1), plain, func(t string, emit func(space.Item)) { space.References(1, emit) }),
			{Name: "file sets", Bound: "all graphs of two files x chains of references x linkages; every single deviation (thorough: every 2)", Gen: sets},
			{Name: "stars", Bound: "all assignments of 5 declarations of the type referred to to 2..3 (thorough: 4) included files x 4 uses; every single deviation (thorough: every 2)", Gen: stars},
		}
	}}
}
