// Command mc decides the properties of /verif/properties.jsonl.
package main

import (
	"os"
	"strings"

	"verif/mc/eng"
	"verif/mc/space"
	"verif/mc/spec"
	"verif/mc/xsd"
)

var plain = []xsd.Style{xsd.Plain}

// prefixes are the ways of binding the two namespaces.
func prefixes() (l []xsd.Style) {
	for _, p := range [][2]string{{"xs", "t"}, {"", "t"}, {"xs", ""}, {"xsd", "tns"}, {"t", "xs"}, {"a-b.c_1", "xsd"}} {
		st := xsd.Plain
		st.XS, st.T = p[0], p[1]
		l = append(l, st)
	}
	return
}

func thorough(tier string) bool { return tier == "thorough" }

// pick chooses a bound by tier.
func pick(tier string, quick, deep int) int {
	if thorough(tier) {
		return deep
	}
	return quick
}

type gen = func(tier string, emit func(space.Item))

func main() {
	if len(os.Args) > 2 && os.Args[1] == "history" {
		history(os.Args[2:])
		return
	}
	if len(os.Args) > 2 && os.Args[1] == "concurrent" {
		concurrent(os.Args[2:])
		return
	}
	occ := func(tier string) []string {
		if thorough(tier) {
			return space.OccT
		}
		return space.OccQ
	}
	var (
		sequences gen = func(t string, emit func(space.Item)) { space.Sequences(pick(t, 2, 3), false, emit) }
		reversed  gen = func(t string, emit func(space.Item)) { space.Sequences(2, true, emit) }
		particles gen = func(t string, emit func(space.Item)) { space.Particles(occ(t), thorough(t), emit) }
		twoKids   gen = func(t string, emit func(space.Item)) { space.Particles([]string{"", "unbounded"}, true, emit) }
		chains    gen = func(t string, emit func(space.Item)) { space.Chains(occ(t), emit) }
		members   gen = func(t string, emit func(space.Item)) { space.Members(pick(t, 2, 3), emit) }
		nested    gen = func(t string, emit func(space.Item)) { space.Nested(pick(t, 3, 4), emit) }
		refs      gen = func(t string, emit func(space.Item)) { space.References(pick(t, 2, 3), emit) }
		positions gen = func(t string, emit func(space.Item)) { space.Positions(spec.Builtins(), emit) }
		facets    gen = func(t string, emit func(space.Item)) { space.Facets(pick(t, 2, 3), emit) }
		varieties gen = func(t string, emit func(space.Item)) { space.Varieties(pick(t, 3, 4), emit) }
	)
	fam := map[string]struct {
		bound string
		g     gen
	}{
		"sequences": {"all sequences of up to 2 (thorough: 3) of the component templates, helpers before and after", sequences},
		"reversed":  {"all sequences of up to 2 component templates, helper components in reverse order", reversed},
		"particles": {"all content models of one (thorough: two) particles x maxOccurs alphabet x compositors x contexts", particles},
		"two":       {"all content models of two particles x {absent, unbounded} x compositors x contexts", twoKids},
		"chains":    {"all compositor nestings of depth 3 x maxOccurs alphabet x contexts; anonymous types in repeated particles; repeated names in alternatives", chains},
		"members":   {"all lists of up to 2 (thorough: 3) member kinds in every context", members},
		"nested":    {"all trees of up to 3 (thorough: 4) anonymous types x 8 member patterns per node", nested},
		"refs":      {"all referring positions x targets x up to 2 (thorough: 3) intermediate types x all permutations of the components", refs},
		"positions": {"all built-in types x all positions", positions},
		"facets":    {"all facet sequences of up to 2 (thorough: 3) x bases x positions", facets},
		"varieties": {"all unions of up to 3 (thorough: 4) members in every order, lists, x uses", varieties},
	}
	scaled := func(t string, emit func(space.Item)) { space.Scaled(pick(t, 8, 12), emit) }
	fam["scaled"] = struct {
		bound string
		g     gen
	}{"up to 8 (thorough: 12), and up to 33 (thorough: 49) in steps, of one dimension at a time: components of each kind, members of each kind in every context, nested types, compositors, references and extensions, union members, values, facets", scaled}
	enums := func(t string, emit func(space.Item)) { space.Enumerations(pick(t, 2, 3), emit) }
	fam["enumerations"] = struct {
		bound string
		g     gen
	}{"all ordered lists of up to 2 (thorough: 3 of at most 20) distinct values from alphabets of up to 45 values of 10 base types x 4 positions", enums}
	fam["parts"] = struct {
		bound string
		g     gen
	}{"all lists, restrictions (4 sets of facets) and unions (up to 2, thorough: 3 members) of local simple types, and of such of 6 (two levels deep), x 6 positions", func(t string, emit func(space.Item)) { space.Parts(pick(t, 2, 3), emit) }}
	fam["recursive"] = struct {
		bound string
		g     gen
	}{"all graphs of up to 2 (thorough: 3) types that hold one another or themselves, x ways of holding x occurrences x extension", func(t string, emit func(space.Item)) { space.Recursive(pick(t, 2, 3), emit) }}
	fam["repeats"] = struct {
		bound string
		g     gen
	}{"all content models in which the same element, global element or group stands two (thorough: up to three) times, directly or in nested compositors, x occurrence bounds of all of them x contexts", func(t string, emit func(space.Item)) {
		space.Repeats([]string{"", "unbounded"}, false, emit)
		if thorough(t) {
			space.Repeats([]string{"", "2", "unbounded", "1"}, false, emit)
			space.Repeats([]string{"", "unbounded"}, true, emit)
		}
	}}
	fam["attribute lists"] = struct {
		bound string
		g     gen
	}{"all lists of up to 3 (thorough: 4) attributes over types, uses, references and groups of attributes x contexts", func(t string, emit func(space.Item)) { space.AttrLists(pick(t, 3, 4), emit) }}
	fam["element lists"] = struct {
		bound string
		g     gen
	}{"all lists of up to 3 (thorough: 4) members over types, bounds, references and groups x compositors x contexts", func(t string, emit func(space.Item)) { space.ElemLists(pick(t, 3, 4), emit) }}
	fam["related unions"] = struct {
		bound string
		g     gen
	}{"all unions, in every order, of 2 and 3 (thorough: up to 4) of 10 types whose names are parts of one another x bases x uses", func(t string, emit func(space.Item)) { space.RelatedUnions(pick(t, 3, 4), emit) }}
	fam["namesakes"] = struct {
		bound string
		g     gen
	}{"all elements that have the name of their type, 8 kinds of it, x up to 2 (thorough: 3) of 11 users x all orders of the components", func(t string, emit func(space.Item)) { space.Namesakes(pick(t, 2, 3), emit) }}
	fam["substitutions"] = struct {
		bound string
		g     gen
	}{"all chains of up to 2 (thorough: 3) elements of substitution groups, each with its head's type or one of three of its own x 8 types of the first head x 4 uses x all orders of the components", func(t string, emit func(space.Item)) { space.Substitutions(pick(t, 2, 3), emit) }}
	fam["anonymous"] = struct {
		bound string
		g     gen
	}{"all pairs (thorough: triples) of 13 places with local elements of one name that have types of their own x 8 global components of that name or none x all orders of the components", func(t string, emit func(space.Item)) {
		space.Anonymous("item", pick(t, 2, 3), emit)
		space.Anonymous("Item", 2, emit)
	}}
	checks := map[string]*eng.Check{}
	add := func(p string, names ...string) {
		checks[p] = structural(p, func(tier string) (l []eng.Space) {
			for _, n := range names {
				st := plain
				if n == "refs" {
					st = prefixes()
				}
				l = append(l, schemaSpace(p, n, fam[n].bound, st, fam[n].g))
			}
			return
		})
	}
	add("C02", "sequences", "reversed", "members", "nested", "scaled", "recursive", "namesakes", "substitutions", "anonymous")
	add("C03", "members", "nested", "particles", "sequences", "scaled", "recursive", "repeats", "attribute lists", "element lists", "namesakes", "anonymous")
	members2 := checks["C02"].Spaces
	checks["C02"].Spaces = func(tier string) []eng.Space { return append(members2(tier), similarNames()) }
	members3 := checks["C03"].Spaces
	checks["C03"].Spaces = func(tier string) []eng.Space { return append(members3(tier), nearNames(true), memberNames("C03")) }
	add("C04", "particles", "two", "chains", "repeats", "positions", "scaled", "recursive")
	add("C05", "refs", "sequences", "reversed", "scaled", "parts", "varieties", "recursive", "namesakes", "substitutions", "anonymous")
	structured := checks["C05"].Spaces
	checks["C05"].Spaces = func(tier string) []eng.Space { return append(structured(tier), builtinNames(), nearNames(false)) }
	add("C06", "positions")
	add("C20", "sequences", "reversed", "members", "nested", "particles", "two", "varieties", "refs", "scaled", "parts", "recursive", "repeats", "attribute lists", "element lists", "namesakes", "substitutions", "anonymous")
	add("C07", "sequences", "members", "nested", "particles", "refs", "varieties", "positions", "scaled", "enumerations", "parts", "recursive", "repeats", "attribute lists", "namesakes", "substitutions", "anonymous")
	formed := checks["C07"].Spaces
	checks["C07"].Spaces = func(tier string) []eng.Space {
		return append(append(formed(tier), memberNames("C07")), formedSets(tier)...)
	}
	add("C18", "facets", "varieties", "sequences", "scaled", "enumerations", "parts", "related unions")
	inertGens := []struct {
		name, bound string
		g           gen
	}{
		{"sequences", "all component templates", func(t string, emit func(space.Item)) { space.Sequences(1, false, emit) }},
		{"members", "all lists of 1 (thorough: up to 2) member kinds in every context", func(t string, emit func(space.Item)) { space.Members(pick(t, 1, 2), emit) }},
		{"refs", "all referring positions x targets", func(t string, emit func(space.Item)) { space.References(0, emit) }},
		{"facets", "all facets x bases x positions", func(t string, emit func(space.Item)) { space.Facets(1, emit) }},
		{"varieties", "all unions of up to 2 members, lists, x uses", func(t string, emit func(space.Item)) { space.Varieties(pick(t, 1, 2), emit) }},
		{"particles", "all content models of one particle x maxOccurs in {absent, 2} x compositors x contexts", func(t string, emit func(space.Item)) { space.Particles([]string{"", "2"}, false, emit) }},
	}
	for p, names := range map[string]string{"C02": "sequences", "C03": "sequences members", "C04": "particles", "C05": "refs", "C18": "facets varieties", "C07": "sequences"} {
		more := checks[p].Spaces
		p, names := p, names
		checks[p].Spaces = func(tier string) []eng.Space {
			l := more(tier)
			for _, g := range inertGens {
				if strings.Contains(" "+names+" ", " "+g.name+" ") {
					l = append(l, inertSpace(p, g.name, g.bound, g.g))
				}
			}
			return l
		}
	}
	checks["C21"] = treeCheck(func(tier string) (l []eng.Space) {
		for _, n := range []string{"sequences", "reversed", "members", "nested", "particles", "chains", "varieties", "refs", "facets", "scaled", "parts", "recursive", "enumerations", "namesakes", "substitutions", "anonymous"} {
			l = append(l, treeSpace(n, fam[n].bound, fam[n].g))
		}
		for _, n := range []string{"sequences", "members", "nested", "particles", "refs", "parts"} {
			g := fam[n].g
			l = append(l, eng.Space{Name: "documented " + n, Bound: fam[n].bound + ", with documentation in every node", Gen: func(t string, emit func(eng.Case)) {
				g(t, func(it space.Item) {
					emit(eng.Case{State: func() string { return it.Label }, Run: func(c *eng.Ctx) { runTreeDocs(c, it.Schema()) }})
				})
			}})
		}
		flat := []string{"", "", ""}
		l = append(l,
			eng.Space{Name: "two files", Bound: "extraction of each file: all graphs of include, import, chameleon include or import without namespace over two files x all referring positions x all targets over up to 1 alias x all placements", Gen: setsOf{n: 2, self: true, dirs: flat, users: space.RefUsers(), vias: allVias, ends: allEnds, maxAlias: 1, eval: extractSet}.gen},
			eng.Space{Name: "three files", Bound: "extraction of each file: all graphs over three files x referring positions x targets x all placements", Gen: setsOf{n: 3, dirs: flat, users: pickUsers("local element", "restriction"), ends: []string{"builtin", "complex", "list"}, maxAlias: pick(tier, 0, 1), onlyUser: true, eval: extractSet}.gen})
		return
	})
	checks["C17"] = namesCheck()
	checks["C14"] = docCheck()
	checks["C15"] = styleCheck()
	checks["C01"] = totalCheck()
	checks["C08"] = roundTripCheck(map[string]gen{
		"single":  func(t string, emit func(space.Item)) { space.Sequences(1, false, emit) },
		"members": func(t string, emit func(space.Item)) { space.Members(pick(t, 2, 3), emit) },
		"particles": func(t string, emit func(space.Item)) {
			if thorough(t) {
				space.Particles([]string{"", "0", "1", "01", "2", "02", "10", "unbounded"}, false, emit)
				space.Particles([]string{"", "unbounded"}, true, emit)
				return
			}
			space.Particles([]string{"", "2", "unbounded"}, false, emit)
		},
		"nested":        func(t string, emit func(space.Item)) { space.Nested(pick(t, 2, 3), emit) },
		"repeats":       func(t string, emit func(space.Item)) { space.Repeats([]string{"", "unbounded"}, false, emit) },
		"namesakes":     func(t string, emit func(space.Item)) { space.Namesakes(pick(t, 1, 2), emit) },
		"substitutions": func(t string, emit func(space.Item)) { space.Substitutions(pick(t, 1, 2), emit) },
		"anonymous": func(t string, emit func(space.Item)) {
			space.Anonymous("item", 2, emit)
			space.Anonymous("Item", pick(t, 1, 3), emit)
		},
		"positions": func(t string, emit func(space.Item)) { space.Positions(spec.Builtins(), emit) },
	})
	checks["C09"] = filesCheck()
	checks["C10"] = outputsCheck()
	checks["C16"] = flagsCheck()
	checks["C11"] = orderCheck()
	checks["C12"] = faultCheck()
	checks["C13"] = concurrencyCheck()
	checks["C19"] = historyCheck()
	eng.Main(checks)
}
