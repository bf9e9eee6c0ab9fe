package main

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
)

// The command is run as a user who can write nothing but the scratch
// directory, so that what it writes at a wrong place does no harm.
const nobody = 65534

// cmdRun is what a run of the command did.
type cmdRun struct {
	code   int
	stdout string
	stderr string
}

// tree is the state of a directory: path to kind and content.
type tree map[string]string

func snapshot(dir string) tree {
	t := tree{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		r, _ := filepath.Rel(dir, p)
		switch {
		case fi.Mode()&os.ModeSymlink != 0:
			l, _ := os.Readlink(p)
			t[r] = "link " + l
		case fi.IsDir():
			t[r] = "dir"
		default:
			b, _ := ioutil.ReadFile(p)
			t[r] = fmt.Sprintf("file %o\n%s", fi.Mode().Perm(), b)
		}
		return nil
	})
	return t
}

// place is the scratch place of a run: top/work is the working directory.
func place(c *eng.Ctx) (top, work string) {
	top = filepath.Join(c.Dir, "cli")
	work = filepath.Join(top, "work")
	if fi, err := os.Stat(work); err == nil && fi.IsDir() {
		wipe(work)
		es, _ := ioutil.ReadDir(top)
		for _, e := range es {
			if e.Name() != "work" {
				os.RemoveAll(filepath.Join(top, e.Name()))
			}
		}
		return
	}
	if err := os.MkdirAll(work, 0755); err != nil {
		panic(err)
	}
	// every directory above must be searchable
	for d := c.Dir; d != "/" && d != "/tmp" && d != "/dev/shm"; d = filepath.Dir(d) {
		os.Chmod(d, 0755)
	}
	os.Chown(top, nobody, nobody)
	os.Chown(work, nobody, nobody)
	return
}

func put(work, name, text string) {
	p := filepath.Join(work, name)
	for d := filepath.Dir(p); ; d = filepath.Dir(d) {
		if _, err := os.Stat(d); err == nil {
			break
		}
		defer os.Chown(d, nobody, nobody)
	}
	os.MkdirAll(filepath.Dir(p), 0755)
	if err := ioutil.WriteFile(p, []byte(text), 0644); err != nil {
		panic(err)
	}
	os.Chown(p, nobody, nobody)
}

func mkdir(work, name string) {
	put(work, filepath.Join(name, "x"), "")
	os.Remove(filepath.Join(work, name, "x"))
}

func command(c *eng.Ctx, dir string, args []string, env ...string) (r cmdRun) {
	bin := os.Getenv("XGEN_BIN")
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, args...)
	cmd.Dir = dir
	cmd.Env = append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir, "TMPDIR=" + dir, "GOMAXPROCS=2"}, env...)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if os.Getuid() == 0 {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}
	err := cmd.Run()
	if _, ok := err.(*exec.ExitError); err != nil && !ok {
		panic(fmt.Sprint("check error: cannot run ", bin, ": ", err))
	}
	c.Transition(1, 1)
	r.stdout, r.stderr = o.String(), e.String()
	r.code = cmd.ProcessState.ExitCode()
	if ctx.Err() != nil {
		r.stderr += "\nTIMEOUT"
	}
	return
}

// reference is what the library generates for the files below a directory,
// each converted on its own: file to source.
func reference(c *eng.Ctx, in string, files []string, lang, pkg string) (map[string]string, error) {
	out := filepath.Join(c.Dir, "ref")
	os.MkdirAll(out, 0755)
	wipe(out)
	m := map[string]string{}
	for _, f := range files {
		err, p := conv.Parse(conv.Options(filepath.Join(in, f), in, out, lang, pkg))
		if p != "" {
			err = fmt.Errorf("panic: %s", p)
		}
		if err != nil {
			return m, err
		}
		b, err := ioutil.ReadFile(filepath.Join(out, f+read.Ext(lang)))
		if err != nil {
			return m, err
		}
		m[f] = string(b)
	}
	return m, nil
}

// declares tells whether the source is in the requested package.
func declares(src, lang, pkg string) bool {
	switch lang {
	case "Go":
		return strings.Contains(src, "\npackage "+pkg+"\n")
	case "Java":
		return strings.Contains(src, "\npackage "+pkg+";\n")
	}
	return true
}

func doc(i int) string {
	return fmt.Sprintf(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:complexType name="K%d"><xs:sequence><xs:element name="m%d" type="xs:short"/></xs:sequence></xs:complexType></xs:schema>`, i, i)
}

const badDoc = `<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema"><xs:complexType name="K">`

func isXSD(name string) bool { return strings.EqualFold(filepath.Ext(name), ".xsd") }

// expect compares the trees before and after a run with the outputs expected;
// optional outputs may be there.
func expect(before, after tree, want, optional map[string]string, report func(class, msg string)) {
	for p, k := range before {
		if _, ok := want[p]; ok {
			continue
		}
		if _, ok := optional[p]; ok {
			continue
		}
		if a, ok := after[p]; !ok {
			report("removed", p+" was removed")
		} else if a != k {
			report("altered", p+" was altered")
		}
	}
	for p, src := range want {
		a, ok := after[p]
		switch {
		case !ok:
			report("output missing", "no output "+p)
		case !strings.HasPrefix(a, "file"):
			report("output missing", p+" is no file")
		case a[strings.Index(a, "\n")+1:] != src:
			report("output content", p+" is not what was asked for")
		}
	}
	var ps []string
	for p := range after {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if _, ok := before[p]; ok {
			continue
		}
		if _, ok := want[p]; ok {
			continue
		}
		if src, ok := optional[p]; ok {
			if a := after[p]; a[strings.Index(a, "\n")+1:] != src {
				report("output content", p+" is not what was asked for")
			}
			continue
		}
		if after[p] == "dir" {
			needed := false
			for _, m := range []map[string]string{want, optional} {
				for q := range m {
					needed = needed || strings.HasPrefix(q, p+"/")
				}
			}
			if needed {
				continue
			}
		}
		report("stray", "wrote "+p)
	}
}

// entry of an input tree.
type entry struct {
	path string
	dir  bool
	link string
}

var entries = []entry{
	{path: "a.xsd"}, {path: "b.xsd"}, {path: "a.go.xsd"}, {path: "A.XSD"}, {path: "n.txt"}, {path: ".h.xsd"}, {path: "s p.xsd"},
	{path: "xsd"}, {path: "a.xsd.bak"}, {path: "d/a.xsd"}, {path: "d/b.xsd"}, {path: "d.xsd/c.xsd"}, {path: "in/a.xsd"}, {path: "d/e/a.xsd"},
	{path: "d/in/b.xsd"}, {path: "e", dir: true}, {path: "l.xsd", link: "../other.xsd"}, {path: "\u00e4.xsd"},
}

// inForms and outForms are ways of naming the directories: argument, working
// directory and the real place, relative to the working place.
var inForms = []struct{ arg, cwd string }{
	{"in", "."}, {"in/", "."}, {"./in", "."}, {"in/../in", "."}, {"ABS/in", "."}, {".", "in"}, {"../in", "in"},
}
var outForms = []struct {
	arg  string // "" is absent
	real string // relative to the working directory, ABS to the top
}{
	{"", "xgen_out"}, {"out", "out"}, {"new/deep/out/", "new/deep/out"}, {"ABS/abs", "ABS/abs"}, {"../out", "../out"}, {"in", "in"}, {"in/out", "in/out"}, {"have", "have"}, {".", "."},
}

func outputsCheck() *eng.Check {
	// runTree converts an input directory with some entries.
	runTree := func(c *eng.Ctx, es []entry, inf, outf int, lang, pkg string) {
		top, work := place(c)
		mkdir(work, "in")
		put(work, "other.xsd", doc(99))
		put(work, "have/kept.go", "kept")
		put(work, "have/a.xsd.go", strings.Repeat("an earlier and longer output\n", 100))
		var files []string
		for i, e := range es {
			switch {
			case e.dir:
				mkdir(work, "in/"+e.path)
			case e.link != "":
				os.Symlink(e.link, filepath.Join(work, "in", e.path))
				files = append(files, e.path)
			case isXSD(e.path):
				put(work, "in/"+e.path, doc(i))
				files = append(files, e.path)
			default:
				put(work, "in/"+e.path, "no schema <")
			}
		}
		in, out := inForms[inf], outForms[outf]
		cwd := filepath.Join(work, in.cwd)
		abs := func(s string) string { return strings.Replace(s, "ABS", work, 1) }
		args := []string{"-i", abs(in.arg), "-l", lang}
		if out.arg != "" {
			args = append(args, "-o", abs(out.arg))
		}
		if pkg != "schema" {
			args = append(args, "-p", pkg)
		}
		before := snapshot(top)
		ref, err := reference(c, filepath.Join(work, "in"), files, lang, pkg)
		if err != nil {
			c.Report("reference", "the schemas cannot be converted one by one: "+err.Error(), "", nil)
			return
		}
		r := command(c, cwd, args)
		real := abs(out.real)
		if !filepath.IsAbs(real) {
			real = filepath.Join(cwd, real)
		}
		base, _ := filepath.Rel(top, real)
		want := map[string]string{}
		for f, src := range ref {
			want[filepath.Join(base, f+read.Ext(lang))] = src
			if !declares(src, lang, pkg) {
				c.Report(lang+" package", "no package "+pkg+" in the output for "+f, "", nil)
			}
		}
		report := func(class, msg string) {
			c.Report(fmt.Sprintf("%s %s in %s", lang, class, in.arg), fmt.Sprintf("xgen %s in %s: %s (exit status %d) %s", strings.Join(args, " "), in.cwd, msg, r.code, r.stdout), "", nil)
		}
		if r.code != 0 {
			report("status", "exit status "+fmt.Sprint(r.code))
		}
		expect(before, snapshot(top), want, nil, report)
		c.Count("files compared", int64(len(want)))
	}
	subsets := func(max int, emit func(es []entry)) {
		var rec func(from int, cur []entry)
		rec = func(from int, cur []entry) {
			emit(append([]entry{}, cur...))
			if len(cur) == max {
				return
			}
			for i := from; i < len(entries); i++ {
				rec(i+1, append(cur, entries[i]))
			}
		}
		rec(0, nil)
	}
	label := func(es []entry) string {
		var l []string
		for _, e := range es {
			l = append(l, e.path)
		}
		return strings.Join(l, " ")
	}
	trees := func(max int, langs []string, all bool) func(tier string, emit func(eng.Case)) {
		return func(tier string, emit func(eng.Case)) {
			n := 0
			subsets(max, func(es []entry) {
				for inf := range inForms {
					for outf := range outForms {
						if !all && inf > 0 && outf > 1 {
							continue
						}
						for _, lang := range langs {
							es, inf, outf, lang := es, inf, outf, lang
							pkg := []string{"schema", "pkg1"}[n%2]
							n++
							emit(eng.Case{State: func() string {
								return fmt.Sprintf("{%s} -i %s -o %s -l %s -p %s", label(es), inForms[inf].arg, outForms[outf].arg, lang, pkg)
							}, Run: func(c *eng.Ctx) { runTree(c, es, inf, outf, lang, pkg) }})
						}
					}
				}
			})
		}
	}
	return &eng.Check{Prop: "C10", Level: "model_checking", Assumptions: cliAssume, Spaces: func(tier string) []eng.Space {
		three := []string{"Go"}
		if thorough(tier) {
			three = conv.Langs
		}
		return []eng.Space{
			{Name: "trees", Bound: fmt.Sprintf("all input directories of up to 2 of %d entries x %d ways of naming the input x %d outputs x 5 languages, run with the command", len(entries), len(inForms), len(outForms)), Gen: trees(2, conv.Langs, true)},
			{Name: "larger trees", Bound: "all input directories of 3 entries x the ways of naming input and output, Go (thorough: all languages, all combinations)", Gen: trees(3, three, thorough(tier))},
			{Name: "single files", Bound: "single schema files x places x outputs x languages x packages", Gen: singleFiles},
			{Name: "links", Bound: "all graphs of import and include over two files in all pairs of 6 directories, one of them outside of the input, as directory and as single file, x languages", Gen: linkedFiles},
		}
	}}
}

var cliAssume = []string{
	"the command is run as an unprivileged user in a scratch directory, which is compared as a whole before and after",
	"the text of an output is compared with a conversion of the same file alone by the library; its meaning is the subject of C02 to C07",
}

// singleFiles converts single files.
func singleFiles(tier string, emit func(eng.Case)) {
	ins := []struct{ path, arg, cwd string }{
		{"a.xsd", "a.xsd", "."}, {"a.xsd", "./a.xsd", "."}, {"a.xsd", "ABS/a.xsd", "."}, {"d/a.xsd", "d/a.xsd", "."}, {"d/a.xsd", "a.xsd", "d"}, {"a.xsd", "../a.xsd", "d"},
		{"a", "a", "."}, {"a.xml", "a.xml", "."}, {"s p.xsd", "s p.xsd", "."}, {"d.xsd/a.xsd", "d.xsd/a.xsd", "."}, {".a.xsd", ".a.xsd", "."}, {"d//a.xsd", "d//a.xsd", "."},
		{"a.xsd", "d/../a.xsd", "."},
	}
	outs := []string{"", "out", "out.EXT", "new/deep/out", "ABS/out", "../out", "out.txt", "have", "have.EXT", "d/out", "./out", "a.xsd", "out.EXT.x"}
	for _, in := range ins {
		for _, out := range outs {
			for _, lang := range conv.Langs {
				for _, pkg := range []string{"schema", "p_2"} {
					in, out, lang, pkg := in, out, lang, pkg
					emit(eng.Case{State: func() string { return fmt.Sprintf("-i %s -o %s -l %s -p %s in %s", in.arg, out, lang, pkg, in.cwd) }, Run: func(c *eng.Ctx) {
						top, work := place(c)
						mkdir(work, "d")
						put(work, in.path, doc(1))
						put(work, "b.xsd", doc(2))
						put(work, "d/b.xsd", doc(2))
						mkdir(work, "have")
						put(work, "have"+read.Ext(lang), strings.Repeat("an earlier and longer output\n", 100))
						cwd := filepath.Join(work, in.cwd)
						out := strings.Replace(strings.Replace(out, "ABS", work, 1), ".EXT", read.Ext(lang), 1)
						args := []string{"-i", strings.Replace(in.arg, "ABS", work, 1), "-l", lang}
						real := "xgen_out"
						if out != "" {
							args = append(args, "-o", out)
							real = out
						}
						if pkg != "schema" {
							args = append(args, "-p", pkg)
						}
						if !filepath.IsAbs(real) {
							real = filepath.Join(cwd, real)
						}
						if !strings.HasSuffix(real, read.Ext(lang)) {
							real += read.Ext(lang)
						}
						base, _ := filepath.Rel(top, real)
						before := snapshot(top)
						ref, err := reference(c, work, []string{in.path}, lang, pkg)
						if err != nil {
							c.Report("reference", err.Error(), "", nil)
							return
						}
						r := command(c, cwd, args)
						report := func(class, msg string) {
							c.Report(lang+" single "+class, fmt.Sprintf("xgen %s in %s: %s (exit status %d) %s", strings.Join(args, " "), in.cwd, msg, r.code, r.stdout), "", nil)
						}
						if r.code != 0 {
							report("status", "failed")
						}
						if !declares(ref[in.path], lang, pkg) {
							report("package", "no package "+pkg)
						}
						expect(before, snapshot(top), map[string]string{base: ref[in.path]}, nil, report)
					}})
				}
			}
		}
	}
}

// linkedFiles converts files that import or include each other.
func linkedFiles(tier string, emit func(eng.Case)) {
	dirs := []string{"in", "in/d", "in/d/e", "in/f", "in/in", "outside"}
	for _, da := range dirs {
		for _, db := range dirs {
			if da == "outside" {
				continue
			}
			for g := 0; g < 16; g++ { // for each direction nothing, import, include, remote import
				for _, lang := range conv.Langs {
					for mode := 0; mode < 7; mode++ { // directory, single, absolute single, default output, single with extension, default output for a single file, single in a new directory
						da, db, g, lang, mode := da, db, g, lang, mode
						emit(eng.Case{State: func() string {
							return fmt.Sprintf("%s/a.xsd -%d- %s/b.xsd, %s, mode %d", da, g, db, lang, mode)
						}, Run: func(c *eng.Ctx) {
							top, work := place(c)
							pa, pb := filepath.Join(da, "a.xsd"), filepath.Join(db, "b.xsd")
							put(work, pa, linkDoc("a", "b", g&3, da, pb))
							put(work, pb, linkDoc("b", "a", g>>2, db, pa))
							pkg := "linked"
							in, files := "in", []string{}
							for _, p := range []string{pa, pb} {
								if r, _ := filepath.Rel("in", p); !strings.HasPrefix(r, "..") {
									files = append(files, r)
								}
							}
							args := []string{"-i", "in", "-l", lang, "-p", pkg, "-o", "out"}
							switch mode {
							case 1:
								args[1] = pa
							case 2:
								args[1] = filepath.Join(work, pa)
							case 3:
								args = args[:6]
							case 4:
								args[1], args[7] = pa, "out"+read.Ext(lang)
							case 5:
								args[1], args = pa, args[:6]
							case 6:
								args[1], args[7] = "./"+pa, "new/out"
							}
							ref, err := reference(c, filepath.Join(work, in), files, lang, pkg)
							if err != nil {
								c.Report("reference", err.Error(), "", nil)
								return
							}
							before := snapshot(top)
							r := command(c, work, args)
							want, optional := map[string]string{}, map[string]string{}
							out := "work/out"
							switch mode {
							case 3, 5:
								out = "work/xgen_out"
							case 6:
								out = "work/new/out"
							}
							for f, src := range ref {
								if !declares(src, lang, pkg) {
									c.Report(lang+" package", "no package "+pkg+" for "+f, "", nil)
								}
								switch {
								case mode == 0 || mode == 3:
									want[filepath.Join(out, f+read.Ext(lang))] = src
								case filepath.Join(in, f) == pa:
									want[out+read.Ext(lang)] = src
								default:
									// mirrored relative to the directory of the file
									if rel, err := filepath.Rel(da, filepath.Join(in, f)); err == nil && !strings.HasPrefix(rel, "..") {
										optional[filepath.Join(out, rel+read.Ext(lang))] = src
									}
								}
							}
							report := func(class, msg string) {
								c.Report(fmt.Sprintf("%s linked %s %d", lang, class, mode), fmt.Sprintf("xgen %s: %s (exit status %d) %s", strings.Join(args, " "), msg, r.code, r.stdout), "", nil)
							}
							if r.code != 0 {
								report("status", "failed")
							}
							expect(before, snapshot(top), want, optional, report)
						}})
					}
				}
			}
		}
	}
}

// linkDoc is a schema that refers to another in one of four ways.
func linkDoc(self, other string, how int, dir, loc string) string {
	rel, _ := filepath.Rel(dir, loc)
	ns := "urn:" + self
	link, ref := "", "xs:int"
	switch how {
	case 1:
		link = fmt.Sprintf(`<xs:import namespace="urn:%s" schemaLocation="%s"/>`, other, rel)
		ref = "o:" + strings.ToUpper(other)
	case 2:
		link = fmt.Sprintf(`<xs:include schemaLocation="%s"/>`, rel)
		ref = "t:" + strings.ToUpper(other)
	case 3:
		link = fmt.Sprintf(`<xs:import namespace="urn:%s" schemaLocation="http://localhost:1/%s.xsd"/>`, other, other)
		ref = "o:" + strings.ToUpper(other)
	}
	u := strings.ToUpper(self)
	return fmt.Sprintf(`<xs:schema xmlns:xs="http://www.w3.org/2001/XMLSchema" xmlns:t="%s" xmlns:o="urn:%s" targetNamespace="%s">%s<xs:complexType name="%s"><xs:sequence><xs:element name="e" type="%s"/></xs:sequence></xs:complexType></xs:schema>`, ns, other, ns, link, u, ref)
}
