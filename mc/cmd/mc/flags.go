package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
)

// asked is what a command line asks for.
type asked struct {
	bad     bool // the flags cannot be parsed
	info    bool // help or version
	i, o, p string
	l       string
}

// parseArgs is the model of the command line.
func parseArgs(args []string) (a asked) {
	a.o, a.p = "xgen_out", "schema"
	for len(args) > 0 {
		s := args[0]
		if len(s) < 2 || s[0] != '-' || s == "--" {
			break
		}
		args = args[1:]
		s = strings.TrimPrefix(strings.TrimPrefix(s, "-"), "-")
		val, has := "", false
		if k := strings.Index(s, "="); k >= 0 {
			s, val, has = s[:k], s[k+1:], true
		}
		switch s {
		case "v", "h":
			if !has || val == "true" {
				a.info = true
			} else if val != "false" {
				a.bad = true
				return
			}
			continue
		case "i", "o", "p", "l":
		default:
			a.bad = true
			return
		}
		if !has {
			if len(args) == 0 {
				a.bad = true
				return
			}
			val, args = args[0], args[1:]
		}
		switch s {
		case "i":
			a.i = val
		case "l":
			a.l = val
		case "o":
			if a.o = val; val == "" {
				a.o = "xgen_out"
			}
		case "p":
			if a.p = val; val == "" {
				a.p = "schema"
			}
		}
	}
	return
}

// source is a kind of input.
type source struct {
	name  string
	files map[string]int // schema below the input: number of its document
	bad   []string       // files that are no schema, or cannot be read
	gone  bool           // there is no such input
	file  bool           // a single file
}

var sources = []source{
	{name: "good.xsd", files: map[string]int{"": 1}, file: true},
	{name: "dir", files: map[string]int{"a.xsd": 1, "d/b.XSD": 2}},
	{name: "empty"},
	{name: "none"}, // no schema
	{name: "missing.xsd", gone: true},
	{name: "bad.xsd", bad: []string{""}, file: true},
	{name: "zero.xsd", bad: []string{""}, file: true},
	{name: "text.xsd", bad: []string{""}, file: true},
	{name: "lastbad", files: map[string]int{"a.xsd": 1}, bad: []string{"b.xsd"}},
	{name: "firstbad", files: map[string]int{"b.xsd": 2}, bad: []string{"a.xsd"}},
	{name: "midbad", files: map[string]int{"a/x.xsd": 2, "z.xsd": 3}, bad: []string{"m/m.xsd"}},
	{name: "refbad", files: map[string]int{}, bad: []string{"u.xsd", "w.xsd"}}, // u imports a truncated schema
	{name: "secret.xsd", bad: []string{""}, file: true},
	{name: "secretdir", files: map[string]int{"a.xsd": 1}, bad: []string{"d"}},
}

func layInputs(work string) {
	put(work, "good.xsd", doc(1))
	put(work, "dir/a.xsd", doc(1))
	put(work, "dir/d/b.XSD", doc(2))
	put(work, "dir/d/readme.txt", "no schema <")
	mkdir(work, "empty")
	put(work, "none/readme.txt", "no schema <")
	put(work, "bad.xsd", badDoc)
	put(work, "zero.xsd", "")
	put(work, "text.xsd", "no schema at all")
	put(work, "lastbad/a.xsd", doc(1))
	put(work, "lastbad/b.xsd", badDoc)
	put(work, "firstbad/b.xsd", doc(2))
	put(work, "firstbad/a.xsd", badDoc)
	put(work, "midbad/a/x.xsd", doc(2))
	put(work, "midbad/m/m.xsd", badDoc)
	put(work, "midbad/z.xsd", doc(3))
	put(work, "refbad/u.xsd", linkDoc("u", "w", 1, "refbad", "refbad/w.xsd"))
	put(work, "refbad/w.xsd", badDoc)
	put(work, "secret.xsd", doc(1))
	os.Chmod(filepath.Join(work, "secret.xsd"), 0)
	put(work, "secretdir/a.xsd", doc(1))
	put(work, "secretdir/d/b.xsd", doc(2))
	os.Chmod(filepath.Join(work, "secretdir/d"), 0)
	put(work, "plain", "a regular file")
	mkdir(work, "ro")
	os.Chmod(filepath.Join(work, "ro"), 0555)
	os.Symlink("/dev/full", filepath.Join(work, "full.go"))
	os.Symlink("/dev/full", filepath.Join(work, "full.ts"))
}

// target is a kind of output.
type target struct {
	arg   string
	fail  bool   // cannot be written for a directory
	one   bool   // cannot be written for a single file
	langs string // only for these languages
}

var targets = []target{
	{arg: "-"}, {arg: ""}, {arg: "out"}, {arg: "new/out"},
	{arg: "plain", fail: true},
	{arg: "plain/out", fail: true, one: true},
	{arg: "ro/out", fail: true, one: true},
	{arg: "full", one: true, langs: "Go TypeScript"},
}

// runFlags runs the command with arguments and compares with the model.
func runFlags(c *eng.Ctx, args []string) {
	top, work := place(c)
	layInputs(work)
	a := parseArgs(args)
	before := snapshot(top)
	want, optional := map[string]string{}, map[string]string{}
	anything := map[string]bool{}
	ok := false
	nothing := a.bad || a.info || a.i == "" || !validLang(a.l)
	var src *source
	for k := range sources {
		if sources[k].name == filepath.Clean(a.i) {
			src = &sources[k]
		}
	}
	if !nothing && src == nil {
		panic("check error: input not in the model: " + a.i)
	}
	if !nothing && !src.gone {
		var tg target
		for _, t := range targets {
			if t.arg == a.o {
				tg = t
			}
		}
		fails := tg.fail && !src.file || tg.one && src.file
		if tg.langs != "" && !strings.Contains(" "+tg.langs+" ", " "+a.l+" ") {
			fails = false
		}
		ok = len(src.bad) == 0 && !(fails && len(src.files) > 0)
		out, _ := filepath.Rel(top, filepath.Join(work, a.o))
		var fs []string
		for f := range src.files {
			fs = append(fs, f)
		}
		sort.Strings(fs)
		for _, f := range fs {
			to := filepath.Join(out, f)
			if !strings.HasSuffix(to, read.Ext(a.l)) {
				to += read.Ext(a.l)
			}
			ref, err := reference(c, filepath.Join(work, a.i, filepath.Dir(f)), []string{filepath.Base(f)}, a.l, a.p)
			if src.file {
				ref, err = reference(c, work, []string{a.i}, a.l, a.p)
			}
			if err != nil {
				c.Report("reference", err.Error(), "", nil)
				return
			}
			for _, s := range ref {
				if ok {
					want[to] = s
				} else {
					optional[to] = s
				}
				if !declares(s, a.l, a.p) {
					c.Report(a.l+" package", "no package "+a.p, "", nil)
				}
			}
			if fails {
				anything[to] = true
			}
		}
		for _, f := range src.bad {
			anything[filepath.Join(out, f)+read.Ext(a.l)] = true
		}
	}
	r := command(c, work, args)
	report := func(class, msg string) {
		in := a.i
		if nothing {
			in = "-"
		}
		c.Report(fmt.Sprintf("%s -i %s -o %s", class, in, a.o), fmt.Sprintf("xgen %s: %s (exit status %d) %s%s", strings.Join(args, " "), msg, r.code, r.stdout, r.stderr), "", nil)
	}
	done := false
	for _, l := range strings.Split(r.stdout, "\n") {
		done = done || strings.TrimSpace(l) == "done"
	}
	if strings.Contains(r.stderr, "TIMEOUT") || strings.Contains(r.stderr, "goroutine ") || r.code < 0 {
		report("crash", "crashed or hung")
	}
	switch {
	case a.bad && a.info:
		// either, but nothing is converted
	case a.info:
		if r.code != 0 || !strings.Contains(r.stdout, "version") || done {
			report("info", "no version or help")
		}
	case ok:
		if r.code != 0 || !done {
			report("success", "converted, but not done with status 0")
		}
	default:
		if r.code == 0 || done {
			report("failure", "done, or status 0")
		}
		if strings.TrimSpace(r.stdout+r.stderr) == "" {
			report("silent", "no message")
		}
	}
	os.Chmod(filepath.Join(work, "secretdir/d"), 0755)
	after := snapshot(top)
	os.Chmod(filepath.Join(work, "secretdir/d"), 0)
	if os.Getuid() != 0 {
		delete(after, "work/secretdir/d/b.xsd")
	}
	for p := range anything {
		delete(after, p)
		delete(optional, p)
		delete(before, p)
		optional[p] = ""
	}
	expect(before, after, want, optional, report)
	c.Outcome(fmt.Sprintf("status %d, done %v, %d outputs", r.code, done, len(want)))
}

func validLang(l string) bool {
	for _, k := range conv.Langs {
		if k == l {
			return true
		}
	}
	return false
}

func flagsCheck() *eng.Check {
	absent := "-"
	langs := append([]string{absent, "", "go", "Python", "GO", "C++", "Go "}, conv.Langs...)
	vector := func(i, l, o, p, info string, form int) (args []string) {
		add := func(f, v string) {
			if v == absent {
				return
			}
			switch form {
			case 0:
				args = append(args, "-"+f, v)
			case 1:
				args = append(args, "-"+f+"="+v)
			default:
				args = append(args, "--"+f, v)
			}
		}
		if form == 1 && info != "" {
			args = append(args, info)
		}
		add("i", i)
		add("l", l)
		add("o", o)
		add("p", p)
		if form != 1 && info != "" {
			args = append(args, info)
		}
		return
	}
	vectors := func(tier string, emit func(eng.Case)) {
		var ins []string
		for _, s := range sources {
			ins = append(ins, s.name)
		}
		ins = append(ins, absent, "")
		for _, i := range ins {
			for _, l := range langs {
				for _, t := range targets {
					for _, p := range []string{absent, "", "pkg1", "out", "schema", "xgen_out"} {
						for _, info := range []string{"", "-v", "-h", "-v=false", "-h=x", "-z"} {
							for form := 0; form < 3; form++ {
								if !thorough(tier) && (form > 0 || info != "") && (p == "" || !validLang(l) && l != "go" && l != absent || t.arg == "new/out") {
									continue
								}
								if !thorough(tier) && info != "" && form == 2 {
									continue
								}
								if !thorough(tier) && (form > 0 || info != "") && len(p) > 1 && p != "pkg1" {
									continue
								}
								args := vector(i, l, t.arg, p, info, form)
								emit(eng.Case{State: func() string { return strings.Join(args, " ") }, Run: func(c *eng.Ctx) { runFlags(c, args) }})
							}
						}
					}
				}
			}
		}
	}
	orders := func(tier string, emit func(eng.Case)) {
		words := [][]string{{"-i", "good.xsd"}, {"-i", "dir"}, {"-l", "Go"}, {"-l=Rust"}, {"-o", "out"}, {"-p", "pkg1"}, {"-p", "out"}, {"-v"}, {"-h"}, {"-z"}, {"extra"}, {"--"}, {"-i"}}
		var rec func(cur []string, used, n int)
		rec = func(cur []string, used, n int) {
			args := append([]string{}, cur...)
			// what follows a flag without value is its value
			known := true
			if a := parseArgs(args); !a.bad && !a.info && a.i != "" && a.i != "good.xsd" && a.i != "dir" && validLang(a.l) {
				known = false
			}
			if known {
				emit(eng.Case{State: func() string { return strings.Join(args, " ") }, Run: func(c *eng.Ctx) { runFlags(c, args) }})
			}
			if n == 0 {
				return
			}
			for k, w := range words {
				if used&(1<<uint(k)) == 0 {
					rec(append(cur[:len(cur):len(cur)], w...), used|1<<uint(k), n-1)
				}
			}
		}
		rec(nil, 0, pick(tier, 4, 5))
	}
	return &eng.Check{Prop: "C16", Level: "model_checking", Assumptions: cliAssume, Spaces: func(tier string) []eng.Space {
		return []eng.Space{
			{Name: "vectors", Bound: fmt.Sprintf("%d kinds of input x %d languages x %d outputs x packages x informational or unknown flags x 3 ways of writing flags (quick: a subset of the ways)", len(sources)+2, len(langs), len(targets)), Gen: vectors},
			{Name: "orders", Bound: "all sequences of up to 4 (thorough: 5) of 13 arguments, with repeated flags, unknown flags, missing values and positional arguments", Gen: orders},
		}
	}}
}
