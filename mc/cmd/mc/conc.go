package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"verif/mc/conv"
	"verif/mc/eng"
	"verif/mc/read"
	"verif/mc/rt"
)

// laid writes the inputs of the histories once per scratch directory.
func laid(dir string) {
	if _, err := os.Stat(filepath.Join(dir, "taken")); err == nil {
		return
	}
	for n, fs := range historyInputs {
		for f, text := range fs {
			os.MkdirAll(filepath.Join(dir, "in", n), 0755)
			if err := ioutil.WriteFile(filepath.Join(dir, "in", n, f), []byte(text), 0644); err != nil {
				panic(err)
			}
		}
	}
	for _, l := range conv.Langs {
		os.MkdirAll(filepath.Join(dir, "taken", "a.xsd"+read.Ext(l)), 0755)
	}
}

// outcome is what a parser did.
type outcome struct {
	Failed bool
	Msg    string
	Ended  bool
	Files  map[string]string
}

// together is what parsers did that ran concurrently under a schedule.
type together struct {
	Outs  []outcome
	Sched *rt.Schedule
}

// concurrently runs the conversions, each by a parser of its own with its own
// output directory in dir/c, or one after the other.
func concurrently(dir string, ks []conversion, devs []rt.Dev, alone bool) together {
	top := filepath.Join(dir, "c")
	os.MkdirAll(top, 0755)
	wipe(top)
	outs := make([]outcome, len(ks))
	var threads []func()
	for i, k := range ks {
		i := i
		in := filepath.Join(dir, "in", k.in)
		out := filepath.Join(top, strconv.Itoa(i))
		if k.in == "badOutput" {
			out = filepath.Join(dir, "taken")
		}
		opt := conv.Options(filepath.Join(in, "a.xsd"), in, out, k.lang, "schema")
		threads = append(threads, func() {
			err, p := conv.Parse(opt)
			outs[i].Ended = true
			switch {
			case p != "":
				outs[i].Failed, outs[i].Msg = true, "panic: "+p
			case err != nil:
				outs[i].Failed, outs[i].Msg = true, err.Error()
			}
		})
	}
	var r together
	if alone {
		for _, t := range threads {
			t()
		}
	} else {
		r.Sched = rt.Execute(devs, threads)
	}
	for i := range ks {
		outs[i].Files = outsBelow(filepath.Join(top, strconv.Itoa(i)))
	}
	r.Outs = outs
	return r
}

// concurrent runs one execution in this process: directory, deviations as
// JSON, whether one after the other, conversions.
func concurrent(args []string) {
	var devs []rt.Dev
	if err := json.Unmarshal([]byte(args[1]), &devs); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var ks []conversion
	for _, a := range args[3:] {
		f := strings.Split(a, ":")
		ks = append(ks, conversion{in: f[0], lang: f[1]})
	}
	json.NewEncoder(os.Stdout).Encode(concurrently(args[0], ks, devs, args[2] == "alone"))
}

// inFreshProcess runs an execution in a process of its own.
func inFreshProcess(c *eng.Ctx, dir string, ks []conversion, devs []rt.Dev, alone bool) (r together, bad string) {
	j, _ := json.Marshal(devs)
	args := []string{"concurrent", dir, string(j), "together"}
	if alone {
		args[3] = "alone"
	}
	for _, k := range ks {
		args = append(args, k.String())
	}
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1")
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	if err == nil {
		err = json.Unmarshal(o.Bytes(), &r)
	}
	if err != nil {
		return r, fmt.Sprintf("%v\n%s", err, firstLines(e.String(), 40))
	}
	c.Transition(len(ks), 1)
	return
}

var soloOuts = map[string]outcome{}

// solo is what a conversion does alone, in a fresh process.
func solo(c *eng.Ctx, dir string, k conversion) outcome {
	o, ok := soloOuts[k.String()]
	if !ok {
		r, bad := inFreshProcess(c, dir, []conversion{k}, nil, true)
		if bad != "" {
			panic("check error: a conversion alone: " + bad)
		}
		o = r.Outs[0]
		soloOuts[k.String()] = o
	}
	return o
}

// judge compares a concurrent execution with the conversions alone.
func judge(c *eng.Ctx, dir string, ks []conversion, devs []rt.Dev, r together) (fine bool) {
	what := fmt.Sprintf("preemptions %v", devs)
	report := func(sig, msg string, files map[string]string) {
		fine = false
		c.Report(sig, what+": "+msg, "", files)
	}
	fine = true
	if r.Sched.Deadlock {
		report("deadlock", "no parser can go on", nil)
		return
	}
	if r.Sched.Overrun {
		report("endless", "no end after many steps", nil)
		return
	}
	for i, k := range ks {
		want, got := solo(c, dir, k), r.Outs[i]
		switch {
		case !got.Ended:
			report("no end", fmt.Sprintf("parser %d (%s) did not end", i, k), nil)
		case want.Failed != got.Failed:
			report("status "+k.lang, fmt.Sprintf("parser %d (%s): failed %v (%s), alone: failed %v (%s)", i, k, got.Failed, got.Msg, want.Failed, want.Msg), nil)
		case want.Failed:
		default:
			if d := sameOuts(want.Files, got.Files); d != "" {
				f := map[string]string{}
				for n := range want.Files {
					f["alone-"+n], f["concurrent-"+n] = want.Files[n], got.Files[n]
				}
				report("output "+k.lang, fmt.Sprintf("parser %d (%s): outputs differ from those made alone: %s", i, k, d), f)
			}
		}
	}
	return
}

// explore runs the conversions under every schedule with up to the given
// number of preemptions.
func explore(c *eng.Ctx, ks []conversion, preemptions int) {
	runtime.GOMAXPROCS(1) // one thread runs at a time
	dir := filepath.Join(c.Dir, "conc")
	laid(dir)
	for _, k := range ks {
		solo(c, dir, k)
	}
	runs := 0
	most := 0
	var rec func(devs []rt.Dev, from, left int) bool
	rec = func(devs []rt.Dev, from, left int) bool {
		r := concurrently(dir, ks, devs, false)
		runs++
		c.Transition(r.Sched.Steps, 1)
		if r.Sched.Steps > most {
			most = r.Sched.Steps
		}
		if !judge(c, dir, ks, devs, r) && !c.Trace {
			return false
		}
		for s := from; s < r.Sched.Steps; s++ {
			cost := 1
			if r.Sched.Forced[s] {
				cost = 0
			}
			if cost > left || len(devs) > 2 {
				continue
			}
			for t := 0; t < len(ks); t++ {
				if r.Sched.Enabled[s]&(1<<uint(t)) == 0 || int(r.Sched.Chosen[s]) == t {
					continue
				}
				if !rec(append(devs[:len(devs):len(devs)], rt.Dev{Step: s, To: t}), s+1, left-cost) {
					return false
				}
			}
		}
		return true
	}
	rec(nil, 0, preemptions)
	c.AddStates(runs - 1)
	c.Count("schedules", int64(runs))
	c.Outcome(fmt.Sprintf("up to %d steps", (most+49)/50*50))
}

func concurrencyCheck() *eng.Check {
	good, _ := historyNames()
	label := func(ks []conversion) string {
		var l []string
		for _, k := range ks {
			l = append(l, k.String())
		}
		return strings.Join(l, " || ")
	}
	// the first use of everything: each execution in a process of its own
	fresh := func(tier string, emit func(eng.Case)) {
		var ins = append(append([]string{}, good...), "badElement", "badInclude", "badOutput")
		for i, a := range ins {
			for j, b := range ins {
				for x, la := range conv.Langs {
					for y, lb := range conv.Langs {
						if !thorough(tier) && !(a == b && (x == y || x == (i+1)%5) || a == "names" && (x+y+j)%5 == 0 || i < j && (x*5+y) == (i*7+j)%25) {
							continue
						}
						ks := []conversion{{in: a, lang: la}, {in: b, lang: lb}}
						emit(eng.Case{State: func() string { return label(ks) }, Run: func(c *eng.Ctx) {
							dir := filepath.Join(c.Dir, "conc")
							laid(dir)
							steps := 1
							stride := pick(c.Tier, 2, 1)
							for at := -1; at < steps; at++ {
								var devs []rt.Dev
								if at >= 0 {
									if at%stride != 0 {
										continue
									}
									devs = []rt.Dev{{Step: at, To: 1}}
								}
								r, bad := inFreshProcess(c, dir, ks, devs, false)
								if bad != "" {
									c.Report("died "+firstMatch(bad, "DATA RACE", "panic", "fatal"), fmt.Sprintf("preemptions %v: the process died: %s", devs, bad), "", nil)
									return
								}
								c.Count("schedules in fresh processes", 1)
								if !judge(c, dir, ks, devs, r) {
									return
								}
								steps = r.Sched.Steps
							}
						}})
					}
				}
			}
		}
	}
	pairs := func(preempt func(tier string) int, ins func(tier string) []string) func(tier string, emit func(eng.Case)) {
		return func(tier string, emit func(eng.Case)) {
			l := ins(tier)
			for _, a := range l {
				for _, b := range l {
					for _, la := range conv.Langs {
						for _, lb := range conv.Langs {
							ks := []conversion{{in: a, lang: la}, {in: b, lang: lb}}
							emit(eng.Case{State: func() string { return label(ks) }, Run: func(c *eng.Ctx) { explore(c, ks, preempt(tier)) }})
						}
					}
				}
			}
		}
	}
	triples := func(tier string, emit func(eng.Case)) {
		for _, la := range conv.Langs {
			for _, lb := range conv.Langs {
				for _, lc := range conv.Langs {
					ks := []conversion{{in: "small", lang: la}, {in: "other", lang: lb}, {in: "small", lang: lc}}
					emit(eng.Case{State: func() string { return label(ks) }, Run: func(c *eng.Ctx) { explore(c, ks, 1) }})
				}
			}
		}
	}
	level := func(q, t int) func(string) int { return func(tier string) int { return pick(tier, q, t) } }
	return &eng.Check{Prop: "C13", Level: "model_checking", Assumptions: []string{
		"a parser can lose the processor where it touches a package variable that changes, at locks and at file operations; races elsewhere are left to the race detector, which sees no order but that of the implementation's own locks",
		"memory is sequentially consistent; a data race is a violation of its own",
	}, Spaces: func(tier string) []eng.Space {
		if !rt.Active {
			panic("check error: the implementation is not instrumented")
		}
		return []eng.Space{
			{Name: "fresh", Bound: "pairs of conversions as the first ones of a process, under the race detector: without preemption and with one at every 2nd (thorough: every) step", Gen: fresh},
			{Name: "one", Bound: "pairs of 4 (thorough: all) inputs x 5 x 5 languages: all schedules with 1 preemption (thorough: 2)", Gen: pairs(level(1, 2), func(tier string) []string {
				if thorough(tier) {
					return append(append([]string{}, good...), "badElement", "badInclude", "badOutput")
				}
				return []string{"names", "nested", "include", "badOutput"}
			})},
			{Name: "two", Bound: "pairs of small inputs x 5 x 5 languages: all schedules with up to 2 (thorough: 3) preemptions", Gen: pairs(level(2, 3), func(string) []string { return []string{"small"} })},
			{Name: "three", Bound: "three parsers, 5 x 5 x 5 languages: all schedules with 1 preemption", Gen: triples},
		}
	}}
}

func firstMatch(s string, words ...string) string {
	for _, w := range words {
		if strings.Contains(s, w) {
			return w
		}
	}
	return ""
}
