// Package eng runs explicit-state explorations of bounded spaces in worker
// processes, confirms violations in fresh processes, matches them with the
// known findings and writes the evidence.
package eng

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Viol is a violation observed in one state.
type Viol struct {
	Space   string            `json:"space"`
	Index   int64             `json:"index"`
	State   string            `json:"state"`             // the abstract state
	Sig     string            `json:"sig"`               // groups violations of one cause
	Msg     string            `json:"msg"`               // what was expected and observed
	Files   map[string]string `json:"files,omitempty"`   // inputs and outputs
	Finding string            `json:"finding,omitempty"` // id of the known finding it is an instance of
}

// Ctx is given to every state.
type Ctx struct {
	Tier   string
	Dir    string // private scratch directory
	Worker int
	Trace  bool // replaying one state

	space string
	index int64
	state func() string
	res   *Result
	known map[string]bool
}

// Result of one worker.
type Result struct {
	States      int64            `json:"states"`
	Transitions int64            `json:"transitions"`
	Traces      int64            `json:"traces"`
	Counts      map[string]int64 `json:"counts"`
	Viols       []Viol           `json:"viols"`
	PerSig      map[string]int64 `json:"per_sig"`
	Samples     []string         `json:"samples"`
	Truncated   bool             `json:"truncated"`
	Outcomes    map[string]int64 `json:"outcomes"`
	Spaces      map[string]int64 `json:"spaces"`
}

// Transition counts n model transitions, replayed traces on the implementation.
func (c *Ctx) Transition(n, traces int) {
	c.res.Transitions += int64(n)
	c.res.Traces += int64(traces)
}

// Count adds to a named counter of the evidence.
func (c *Ctx) Count(name string, n int64) { c.res.Counts[name] += n }

// AddStates counts states found inside a Run (searches with their own frontier).
func (c *Ctx) AddStates(n int) { c.res.States += int64(n) }

// Truncate marks the exploration as incomplete.
func (c *Ctx) Truncate() { c.res.Truncated = true }

// Known tells whether a finding is listed.
func (c *Ctx) Known(id string) bool { return c.known[id] }

// Outcome records a distinct observed outcome class.
func (c *Ctx) Outcome(s string) {
	if len(c.res.Outcomes) < 200 || c.res.Outcomes[s] > 0 {
		c.res.Outcomes[s]++
	}
}

// Report a violation; finding is "" or the id of the listed finding.
func (c *Ctx) Report(sig, msg, finding string, files map[string]string) {
	k := sig
	if finding != "" {
		k = "finding " + finding
	}
	c.res.PerSig[k]++
	if c.res.PerSig[k] > 2 && !c.Trace {
		return
	}
	if len(c.res.Viols) > 300 {
		return
	}
	c.res.Viols = append(c.res.Viols, Viol{Space: c.space, Index: c.index, State: c.state(), Sig: sig, Msg: msg, Files: files, Finding: finding})
}

// Case is a state of a space: a label and what to do in it.
type Case struct {
	State func() string
	Run   func(c *Ctx)
}

// Space is a bounded space; Gen enumerates it deterministically.
type Space struct {
	Name  string
	Bound string // what is enumerated, for the evidence
	Gen   func(tier string, emit func(Case))
}

// Check decides one property.
type Check struct {
	Prop        string
	Level       string
	Workers     int
	CaseTimeout time.Duration
	Spaces      func(tier string) []Space
	Assumptions []string
	// Findings lists the ids of known findings of this check with their text.
	Extra func(run *Run) // further work done by the parent
}

// Run is the state of the parent.
type Run struct {
	Check *Check
	Tier  string
	Res   Result
	Viols []Viol
	Dir   string
}

// Finding of the committed file.
type Finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	What     string `json:"what"`
	Match    string `json:"match"`
	Input    string `json:"input"`
}

// VerifDir is where the framework lives.
func VerifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func loadKnown(prop string) (l []Finding) {
	b, err := ioutil.ReadFile(filepath.Join(VerifDir(), "known_findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []Finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	for _, x := range f.Findings {
		if x.Property == prop {
			l = append(l, x)
		}
	}
	return
}

// ScratchRoot makes a scratch directory on a memory file system if there is one.
func ScratchRoot() string {
	for _, d := range []string{"/dev/shm", os.TempDir()} {
		if p, err := ioutil.TempDir(d, "xgenmc."); err == nil {
			return p
		}
	}
	fmt.Fprintln(os.Stderr, "no scratch directory")
	os.Exit(2)
	return ""
}

func newResult() *Result {
	return &Result{Counts: map[string]int64{}, PerSig: map[string]int64{}, Outcomes: map[string]int64{}, Spaces: map[string]int64{}}
}

// Main runs the check: parent without -worker.
func Main(checks map[string]*Check) {
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	worker := flag.Int("worker", -1, "worker number")
	of := flag.Int("of", 1, "number of workers")
	start := flag.Int64("start", 0, "first case of the worker")
	only := flag.String("only", "", "space:index of the single state to replay")
	dir := flag.String("dir", "", "scratch directory")
	deadline := flag.Int64("deadline", 0, "unix time to stop at")
	replay := flag.String("replay", "", "replay artefact")
	flag.Parse()
	c, ok := checks[*prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no such property", *prop)
		os.Exit(2)
	}
	if *replay != "" {
		b, err := ioutil.ReadFile(*replay)
		var v Viol
		if err == nil {
			err = json.Unmarshal(b, &v)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		root := ScratchRoot()
		r := &Run{Check: c, Tier: *tier, Dir: root}
		vs, _ := r.single(v, 0)
		os.RemoveAll(root)
		for _, w := range vs {
			fmt.Println(w.Sig + ": " + w.Msg)
		}
		if len(vs) > 0 {
			os.Exit(1)
		}
		return
	}
	if *worker >= 0 {
		work(c, *tier, *worker, *of, *start, *only, *dir, *deadline)
		return
	}
	os.Exit(parent(c, *tier))
}

func work(c *Check, tier string, w, of int, start int64, only, dir string, deadline int64) {
	debug.SetMaxStack(256 << 20)
	lim := syscall.Rlimit{Cur: 512, Max: 512}
	syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim)
	t0 := time.Now()
	runtime.GOMAXPROCS(2)
	debug.SetGCPercent(400)
	res := newResult()
	known := map[string]bool{}
	for _, f := range loadKnown(c.Prop) {
		known[f.ID] = true
	}
	prog, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("progress.%d", w)), os.O_CREATE|os.O_RDWR, 0644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	scratch := filepath.Join(dir, fmt.Sprintf("w%d", w))
	os.MkdirAll(scratch, 0755)
	os.Chdir(scratch)
	onlySpace, onlyIdx := "", int64(-1)
	if only != "" {
		i := strings.LastIndex(only, ":")
		onlySpace = only[:i]
		onlyIdx, _ = strconv.ParseInt(only[i+1:], 10, 64)
	}
	timeout := c.CaseTimeout
	if timeout == 0 {
		timeout = 30 * time.Second
	}
	var mu sync.Mutex
	began := time.Now()
	cur := ""
	go func() { // watchdog: a hanging state ends the worker
		for range time.Tick(time.Second / 4) {
			mu.Lock()
			if cur != "" && resident() > 3<<30 {
				fmt.Fprintln(os.Stderr, "TIMEOUT: memory exhausted in a state of", cur)
				os.Exit(41)
			}
			late := time.Since(began) > timeout && cur != ""
			s := cur
			mu.Unlock()
			if late {
				fmt.Fprintln(os.Stderr, "TIMEOUT in state", s)
				buf := make([]byte, 1<<16)
				os.Stderr.Write(buf[:runtime.Stack(buf, true)])
				os.Exit(41)
			}
		}
	}()
	ctx := &Ctx{Tier: tier, Dir: scratch, Worker: w, res: res, known: known, Trace: only != ""}
	first := os.Getenv("MC_FIRST") != "" // development only
	var global int64
	var buf [8]byte
	type stop struct{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stop); !ok {
					panic(r)
				}
			}
		}()
		for _, sp := range c.Spaces(tier) {
			var idx int64
			if onlySpace != "" && onlySpace != sp.Name {
				continue
			}
			if e := os.Getenv("MC_SPACE"); e != "" && !strings.Contains(","+e+",", ","+sp.Name+",") {
				continue // development only
			}
			sp.Gen(tier, func(k Case) {
				i := idx
				g := global
				idx++
				global++
				if onlyIdx >= 0 {
					if i != onlyIdx {
						return
					}
				} else if g%int64(of) != int64(w) || g < start {
					return
				}
				if deadline > 0 && res.States%64 == 0 && time.Now().Unix() > deadline {
					res.Truncated = true
					panic(stop{})
				}
				if first && len(res.Viols) > 0 && onlyIdx < 0 && res.violated(1) {
					res.Truncated = true
					panic(stop{})
				}
				if len(res.Viols) >= 20 && onlyIdx < 0 && time.Since(t0) > 60*time.Second && res.violated(20) {
					res.Truncated = true // enough is known
					panic(stop{})
				}
				binary.LittleEndian.PutUint64(buf[:], uint64(g)+1)
				prog.WriteAt(buf[:], 0)
				mu.Lock()
				began = time.Now()
				cur = sp.Name
				mu.Unlock()
				ctx.space, ctx.index, ctx.state = sp.Name, i, k.State
				res.States++
				res.Spaces[sp.Name]++
				k.Run(ctx)
				if n := res.States; n == 1 || n == 100 || n == 3000 {
					res.Samples = append(res.Samples, sp.Name+" #"+strconv.FormatInt(i, 10)+": "+k.State())
				}
				if onlyIdx >= 0 {
					panic(stop{})
				}
			})
		}
	}()
	mu.Lock()
	cur = ""
	mu.Unlock()
	b, err := json.Marshal(res)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if err := ioutil.WriteFile(filepath.Join(dir, fmt.Sprintf("result.%d.%d", w, start)), b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// violated tells whether there are n violations that are no known findings.
func (r *Result) violated(least int) bool {
	n := 0
	for _, v := range r.Viols {
		if v.Finding == "" {
			n++
		}
	}
	return n >= least
}

// resident is the memory the process holds.
func resident() int64 {
	b, _ := ioutil.ReadFile("/proc/self/statm")
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * int64(os.Getpagesize())
}

// locate finds the space and index of a global case number.
func locate(c *Check, tier string, n int64) (space string, index int64, state string) {
	type stop struct{}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stop); !ok {
				panic(r)
			}
		}
	}()
	var g int64
	for _, sp := range c.Spaces(tier) {
		var i int64
		sp.Gen(tier, func(k Case) {
			if g == n {
				space, index, state = sp.Name, i, k.State()
				panic(stop{})
			}
			g++
			i++
		})
	}
	return
}

func merge(a *Result, b *Result) {
	a.States += b.States
	a.Transitions += b.Transitions
	a.Traces += b.Traces
	a.Truncated = a.Truncated || b.Truncated
	for k, v := range b.Counts {
		a.Counts[k] += v
	}
	for k, v := range b.PerSig {
		a.PerSig[k] += v
	}
	for k, v := range b.Outcomes {
		a.Outcomes[k] += v
	}
	for k, v := range b.Spaces {
		a.Spaces[k] += v
	}
	a.Viols = append(a.Viols, b.Viols...)
	a.Samples = append(a.Samples, b.Samples...)
}

func (r *Run) child(args []string, env []string, limit time.Duration) (out string, code int) {
	cmd := exec.Command(os.Args[0], args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	f, err := ioutil.TempFile(r.Dir, "log")
	if err != nil {
		return err.Error(), 2
	}
	defer os.Remove(f.Name())
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	runtime.LockOSThread() // Pdeathsig follows the thread
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		return err.Error(), 2
	}
	t := time.AfterFunc(limit, func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) })
	err = cmd.Wait()
	t.Stop()
	b, _ := ioutil.ReadFile(f.Name())
	if len(b) > 20000 {
		b = append(b[:4000], b[len(b)-4000:]...)
	}
	code = 0
	if err != nil {
		code = 2
		if e, ok := err.(*exec.ExitError); ok {
			code = e.ExitCode()
		}
	}
	return string(b), code
}

// single replays one state in a fresh process.
func (r *Run) single(v Viol, n int) (vs []Viol, crash string) {
	d := filepath.Join(r.Dir, fmt.Sprintf("single.%d.%d", time.Now().UnixNano(), n))
	os.MkdirAll(d, 0755)
	defer os.RemoveAll(d)
	out, code := r.child([]string{"-prop", r.Check.Prop, "-tier", r.Tier, "-worker", "0", "-of", "1", "-dir", d, "-only", fmt.Sprintf("%s:%d", v.Space, v.Index)}, nil, 5*time.Minute)
	if code != 0 {
		return nil, crashMsg(out, code)
	}
	b, err := ioutil.ReadFile(filepath.Join(d, "result.0.0"))
	var res Result
	if err == nil {
		err = json.Unmarshal(b, &res)
	}
	if err != nil {
		return nil, err.Error()
	}
	return res.Viols, ""
}

func crashMsg(out string, code int) string {
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "TIMEOUT") || strings.HasPrefix(l, "WARNING: DATA RACE") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return l
		}
	}
	return fmt.Sprintf("process ended with status %d: %s", code, tail(out, 300))
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func parent(c *Check, tier string) int {
	t0 := time.Now()
	os.Stdout.Sync()
	r := &Run{Check: c, Tier: tier, Dir: ScratchRoot(), Res: *newResult()}
	defer os.RemoveAll(r.Dir)
	n := c.Workers
	if n == 0 {
		n = runtime.NumCPU()
		if n > 16 {
			n = 16
		}
	}
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("MC_LIMIT_S"); s != "" {
		if v, err := strconv.Atoi(s); err == nil {
			limit = time.Duration(v) * time.Second
		}
	}
	deadline := t0.Add(limit)
	var mu sync.Mutex
	var wg sync.WaitGroup
	broken := ""
	for w := 0; w < n; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var start int64
			for tries := 0; ; tries++ {
				out, code := r.child([]string{"-prop", c.Prop, "-tier", tier, "-worker", strconv.Itoa(w), "-of", strconv.Itoa(n),
					"-dir", r.Dir, "-start", strconv.FormatInt(start, 10), "-deadline", strconv.FormatInt(deadline.Unix(), 10)}, nil, limit+5*time.Minute)
				if code == 0 {
					b, err := ioutil.ReadFile(filepath.Join(r.Dir, fmt.Sprintf("result.%d.%d", w, start)))
					var res Result
					if err == nil {
						err = json.Unmarshal(b, &res)
					}
					mu.Lock()
					if err != nil {
						broken = err.Error()
					} else {
						merge(&r.Res, &res)
					}
					mu.Unlock()
					return
				}
				b, _ := ioutil.ReadFile(filepath.Join(r.Dir, fmt.Sprintf("progress.%d", w)))
				if len(b) < 8 || binary.LittleEndian.Uint64(b) == 0 {
					mu.Lock()
					broken = "worker failed before its first state: " + tail(out, 2000)
					mu.Unlock()
					return
				}
				at := int64(binary.LittleEndian.Uint64(b)) - 1
				msg := crashMsg(out, code)
				sp, idx, st := locate(c, tier, at)
				mu.Lock()
				r.Res.Viols = append(r.Res.Viols, Viol{Space: sp, Index: idx, State: st, Sig: "crash " + firstWords(msg), Msg: "the process died or hung: " + msg, Files: map[string]string{"log.txt": out}})
				r.Res.PerSig["crash "+firstWords(msg)]++
				r.Res.Truncated = true // results of the states before it are lost
				mu.Unlock()
				start = at + 1
				if tries >= 3 || time.Now().After(deadline) {
					return
				}
			}
		}(w)
	}
	wg.Wait()
	if broken != "" {
		fmt.Println("check error:", broken)
		return 2
	}
	if c.Extra != nil {
		c.Extra(r)
	}
	// one representative per signature, simplest first; confirmed in fresh processes
	sort.SliceStable(r.Res.Viols, func(i, j int) bool {
		a, b := r.Res.Viols[i], r.Res.Viols[j]
		if len(a.State) != len(b.State) {
			return len(a.State) < len(b.State)
		}
		return a.Index < b.Index
	})
	known := map[string]Finding{}
	for _, f := range loadKnown(c.Prop) {
		known[f.ID] = f
	}
	seen := map[string]bool{}
	violations := 0
	var confirmed []Viol
	found := map[string]Viol{}
	unconfirmed := 0
	tc := time.Now()
	for _, v := range r.Res.Viols {
		if v.Finding != "" {
			if _, ok := found[v.Finding]; !ok {
				found[v.Finding] = v
			}
			continue
		}
		if seen[v.Sig] {
			continue
		}
		if len(seen) > 15 {
			break
		}
		if v.Index >= 0 {
			ok := true
			reps := 5
			if len(confirmed) > 0 {
				reps = 1
			} else if strings.HasPrefix(v.Sig, "crash TIMEOUT") {
				reps = 2
			}
			if len(confirmed) > 0 && time.Since(tc) > 100*time.Second {
				break
			}
			for k := 0; k < reps && ok; k++ {
				ok = r.confirm(v, k)
			}
			if !ok {
				unconfirmed++
				if unconfirmed <= 10 {
					fmt.Printf("not confirmed in a fresh process (history or timing dependent, not counted): %s #%d %s\n", v.Space, v.Index, v.Sig)
				}
				if time.Since(tc) > 100*time.Second {
					break
				}
				continue
			}
		}
		seen[v.Sig] = true
		confirmed = append(confirmed, v)
		violations++
	}
	edir := filepath.Join(VerifDir(), "evidence")
	os.MkdirAll(edir, 0755)
	rdir := filepath.Join(edir, "replay-"+c.Prop)
	os.RemoveAll(rdir)
	var ids []string
	for id := range found {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s [%s] %s (%d states; e.g. %s #%d: %s)\n", c.Prop, id, known[id].What, r.Res.PerSig["finding "+id], found[id].Space, found[id].Index, oneLine(found[id].Msg))
	}
	for i, v := range confirmed {
		os.MkdirAll(rdir, 0755)
		p := filepath.Join(rdir, fmt.Sprintf("%d.json", i))
		b, _ := json.MarshalIndent(v, "", " ")
		ioutil.WriteFile(p, b, 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, p)
		fmt.Printf("  %s #%d [%s] (%d states)\n  state: %s\n  %s\n", v.Space, v.Index, v.Sig, r.Res.PerSig[v.Sig], v.State, strings.ReplaceAll(v.Msg, "\n", "\n  "))
	}
	bounds := map[string]string{}
	for _, sp := range c.Spaces(tier) {
		bounds[sp.Name] = sp.Bound
	}
	samples := r.Res.Samples
	if len(samples) > 12 {
		samples = samples[:12]
	}
	cov := map[string]interface{}{
		"states": r.Res.States, "transitions": r.Res.Transitions, "traces_validated_against_impl": r.Res.Traces,
		"samples": samples, "exhaustive": !r.Res.Truncated, "spaces": r.Res.Spaces, "bounds": bounds,
		"counters": r.Res.Counts, "outcomes": r.Res.Outcomes, "known_findings_seen": ids, "workers": n,
	}
	if c.Level == "fault_enumeration" || c.Level == "exploration" {
		cov["evaluations"] = r.Res.Traces
		cov["distinct_nontrivial"] = r.Res.States
		cov["rule"] = "every state of the bounded spaces is enumerated once; each is distinct by construction"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{"property": c.Prop, "tier": tier, "seed": seed, "level": c.Level, "coverage": cov,
		"assumptions": c.Assumptions, "wall_s": time.Since(t0).Seconds(), "violations": violations}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := ioutil.WriteFile(filepath.Join(edir, c.Prop+".json"), b, 0644); err != nil {
		fmt.Println("check error:", err)
		return 2
	}
	fmt.Printf("%s %s: %d states, %d transitions, %d traces on the implementation, exhaustive=%v, %d violations, %d known findings, %.1fs\n", c.Prop, tier,
		r.Res.States, r.Res.Transitions, r.Res.Traces, !r.Res.Truncated, violations, len(ids), time.Since(t0).Seconds())
	if violations > 0 {
		return 1
	}
	return 0
}

// confirm replays a violation in a fresh process.
func (r *Run) confirm(v Viol, k int) bool {
	vs, crash := r.single(v, k)
	if crash != "" {
		return strings.HasPrefix(v.Sig, "crash ")
	}
	for _, w := range vs {
		if w.Sig == v.Sig {
			return true
		}
	}
	return false
}

func firstWords(s string) string {
	f := strings.Fields(s)
	if len(f) > 6 {
		f = f[:6]
	}
	return strings.Join(f, " ")
}

func oneLine(s string) string {
	s = strings.Join(strings.Fields(s), " ")
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}
