package main

import (
	"fmt"
	"strings"

	"verif/mc/eng"
	"verif/mc/space"
	"verif/mc/xsd"
)

// link is a way a schema names another one.
type link struct {
	name string
	file string // "" if there is nothing to read
	ns   string // the namespace of the other schema, "" if none
	inc  bool   // by include
	loc  string // the location, "-" if none is given
	back bool   // the other schema names the first one
}

var linkKinds = []link{
	{name: "include", file: "i.xsd", ns: "urn:t", inc: true, loc: "i.xsd"},
	{name: "include of one that includes it", file: "j.xsd", ns: "urn:t", inc: true, loc: "j.xsd", back: true},
	{name: "chameleon include", file: "h.xsd", inc: true, loc: "h.xsd"},
	{name: "import", file: "b.xsd", ns: "urn:b", loc: "b.xsd"},
	{name: "import of a second file", file: "b2.xsd", ns: "urn:b", loc: "./b2.xsd"},
	{name: "import of one that imports it", file: "c.xsd", ns: "urn:c", loc: "c.xsd", back: true},
	{name: "import without namespace", file: "n.xsd", loc: "n.xsd"},
	{name: "import of a second file without namespace", file: "a0.xsd", loc: "a0.xsd"},
	{name: "import without location", ns: "urn:d", loc: "-"},
	{name: "import of a missing file", ns: "urn:e", loc: "missing.xsd"},
	{name: "import of a remote file", ns: "urn:f", loc: "http://localhost:1/x.xsd"},
}

// reference to a component of the other schema.
func (l link) ref(name string) xsd.Ref {
	switch {
	case l.ns == "urn:t" || l.inc && l.ns == "":
		// an included schema without namespace is of this namespace
		return xsd.T(name)
	case l.ns == "":
		return xsd.Ref{NS: "-", Name: name}
	}
	return xsd.Ref{NS: "p" + l.ns[4:], Name: name}
}

// links enumerates the lists of links of a schema m.xsd, which refers to types
// of each of the schemas it names.
func links(max int) func(tier string, emit func(eng.Case)) {
	users := pickUsers("local element", "restriction", "attribute", "member", "item", "complex extension")
	run := func(c *eng.Ctx, ls []link, rev bool, user int) {
		m := &xsd.Schema{}
		ss := []*xsd.Schema{m}
		order := []string{"m.xsd"}
		styles := []xsd.Style{xsd.Plain}
		var refs []xsd.Ref
		declared, once := map[string]bool{}, true
		for _, l := range ls {
			// of two files of one namespace, the second one need not be read
			once = once && !strings.Contains(l.name, "second")
		}
		for _, l := range ls {
			if l.ns != "" && l.ns != "urn:t" && !declared[l.ns] {
				declared[l.ns] = true
				m.NSs = append(m.NSs, [2]string{"p" + l.ns[4:], l.ns})
			}
			m.Links = append(m.Links, xsd.Link{Include: l.inc, NS: l.ns, Loc: l.loc})
			if l.file == "" {
				continue
			}
			n := strings.ToUpper(l.file[:strings.Index(l.file, ".")])
			s := &xsd.Schema{NoTNS: l.ns == "", TNS: l.ns}
			st := xsd.Plain
			if l.ns == "" {
				st.T = ""
			}
			if l.back {
				if l.inc {
					s.Links = append(s.Links, xsd.Link{Include: true, Loc: "m.xsd"})
				} else {
					s.Links = append(s.Links, xsd.Link{NS: "urn:t", Loc: "m.xsd"})
				}
			}
			own := xsd.T
			if l.ns == "" {
				own = func(n string) xsd.Ref { return xsd.Ref{NS: "-", Name: n} }
			}
			s.Comps = []xsd.Comp{{S: space.Re("En"+n, xsd.XS("unsignedShort"))}, {S: space.Re("Al"+n, own("En"+n))},
				{C: &xsd.Complex{Name: "Co" + n, Content: space.Seq(space.El("ec", own("Al"+n), ""))}}}
			ss = append(ss, s)
			order = append(order, l.file)
			styles = append(styles, st)
			to := "Al" + n
			if users[user].Name == "complex extension" {
				to = "Co" + n
			}
			refs = append(refs, l.ref(to))
		}
		for i, r := range refs {
			if rev {
				r = refs[len(refs)-1-i]
			}
			for _, cp := range []xsd.Comp{users[user].Make(r)} {
				rename(&cp, fmt.Sprintf("User%d", i))
				m.Comps = append(m.Comps, cp)
			}
		}
		docs := map[string]string{}
		for i, s := range ss {
			docs[order[i]] = s.Text(styles[i])
		}
		compareDocs(c, order, docs, ss, "links", users[user].Name, once)
	}
	return func(tier string, emit func(eng.Case)) {
		var rec func(cur []link)
		rec = func(cur []link) {
			if len(cur) > 0 {
				c := append([]link{}, cur...)
				for rev := 0; rev < 2; rev++ {
					for u := range users {
						rev, u := rev == 1, u
						emit(eng.Case{State: func() string {
							var l []string
							for _, k := range c {
								l = append(l, k.name)
							}
							return fmt.Sprintf("%s; references by %s, reversed %v", strings.Join(l, ", "), users[u].Name, rev)
						}, Run: func(x *eng.Ctx) { run(x, c, rev, u) }})
					}
				}
			}
			if len(cur) == max {
				return
			}
			for _, k := range linkKinds {
				again := false
				for _, o := range cur {
					again = again || o.name == k.name
				}
				if !again {
					rec(append(cur, k))
				}
			}
		}
		rec(nil)
	}
}

// rename renames a component.
func rename(c *xsd.Comp, name string) {
	switch {
	case c.S != nil:
		c.S.Name = name
	case c.C != nil:
		c.C.Name = name
	case c.E != nil:
		c.E.Name = name
	case c.A != nil:
		c.A.Name = name
	case c.G != nil:
		c.G.Name = name
	case c.AG != nil:
		c.AG.Name = name
	}
}
