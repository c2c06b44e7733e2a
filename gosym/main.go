// Command gosym decides properties of a Go program by executing it symbolically.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type options struct {
	repo, verif, prop, only string
	thorough                bool
	workers                 int
	budget                  time.Duration
	verbose                 bool
	noNative                bool
	seed                    int
	replay                  string
}

func main() {
	var o options

	flag.StringVar(&o.repo, "repo", "/repo", "the repository")
	flag.StringVar(&o.verif, "verif", "/verif", "this framework")
	flag.StringVar(&o.prop, "prop", "", "the property to check")
	flag.StringVar(&o.only, "only", "", "run only the harnesses whose name has this in it")
	flag.BoolVar(&o.thorough, "thorough", os.Getenv("VERIF_TIER") == "thorough", "explore the larger bounds")
	flag.IntVar(&o.workers, "workers", 8, "workers")
	flag.DurationVar(&o.budget, "budget", 0, "time for the exploration")
	flag.BoolVar(&o.verbose, "v", false, "verbose")
	flag.StringVar(&o.replay, "replay", "", "replay the inputs in this file against the real code")
	flag.BoolVar(&o.noNative, "nonative", false, "do not replay")
	flag.Parse()
	cxxDir = filepath.Join(o.verif, "gosym", "cxx")

	verbose = o.verbose

	fmt.Sscan(os.Getenv("VERIF_SEED"), &o.seed)

	if o.budget == 0 {
		o.budget = 240 * time.Second
		if o.thorough {
			o.budget = 780 * time.Second
		}
	}

	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	debug.SetMaxStack(8 << 30)
	runtime.GOMAXPROCS(o.workers)

	os.Exit(check(&o))
}

const zz = "internal/zzverif/"

// harnessOverlay maps the places that the harness files take in the module to the files.
func harnessOverlay(o *options) (map[string]string, []string, error) {
	m := map[string]string{}

	var dirs []string

	add := func(src, dst string) error {
		return filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") {
				return err
			}

			rel, _ := filepath.Rel(src, p)
			m[filepath.Join(o.repo, zz, dst, rel)] = p

			return nil
		})
	}

	if err := add(filepath.Join(o.verif, "harness", "lib"), ""); err != nil {
		return nil, nil, err
	}

	root := filepath.Join(o.verif, "harness", o.prop)

	es, err := os.ReadDir(root)
	if err != nil {
		return nil, nil, err
	}

	for _, e := range es {
		if !e.IsDir() {
			continue
		}

		if err := add(filepath.Join(root, e.Name()), strings.ToLower(o.prop)+"/"+e.Name()); err != nil {
			return nil, nil, err
		}

		dirs = append(dirs, strings.ToLower(o.prop)+"/"+e.Name())
	}

	return m, dirs, nil
}

type harnessReport struct {
	Name     string         `json:"harness"`
	Paths    int            `json:"paths"`
	Aborted  int            `json:"infeasible_or_assumed_away"`
	Forks    int            `json:"branch_points_with_both_sides_feasible"`
	Forced   int            `json:"branch_points_with_one_feasible_side"`
	Asserts  int            `json:"assertions_decided"`
	Folded   int            `json:"of_which_constant_on_their_path"`
	Queries  int            `json:"solver_queries"`
	Unsat    int            `json:"solver_unsat"`
	Solver   float64        `json:"solver_seconds"`
	Instrs   int64          `json:"ssa_instructions"`
	Wall     float64        `json:"wall_seconds"`
	Complete bool           `json:"bounded_space_exhausted"`
	Incon    map[string]int `json:"inconclusive_paths,omitempty"`
	Labels   map[string]int `json:"assertion_labels"`
	Reached  map[string]int `json:"reachability_witnesses"`
	Bounds   []string       `json:"bounds"`
	Slowest  int64          `json:"longest_path_instructions"`
}

func check(o *options) int {
	start := time.Now()

	files, dirs, err := harnessOverlay(o)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}

	overlay := map[string][]byte{}

	for dst, src := range files {
		b, err := os.ReadFile(src)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)

			return 2
		}

		overlay[dst] = b
	}

	patterns := []string{"./cmd/...", "./" + zz + "vos"}
	for _, d := range dirs {
		patterns = append(patterns, "./"+zz+d)
	}

	p, bad, err := loadProgram(o.repo, overlay, patterns)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)

		return 2
	}

	for k, v := range bad {
		fmt.Fprintf(os.Stderr, "cannot analyse %s: %s\n", k, v)
	}

	var hs []*Harness

	for _, d := range dirs {
		hs = append(hs, findHarnesses(p, p.repoMod+"/"+zz+d, o.thorough)...)
	}

	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness can be analysed")

		return 2
	}

	loaded := time.Since(start)

	// The native build and the workers' initialisation go on side by side.
	nat := &native{o: o, p: p, hs: hs, files: files}
	defer nat.close()

	var wg sync.WaitGroup

	if o.replay != "" {
		return nat.replayFile()
	}

	if !o.noNative {
		wg.Add(1)

		go func() {
			defer wg.Done()
			nat.build()
		}()
	}

	ws := make([]*W, o.workers)
	werrs := make([]error, o.workers)

	var wwg sync.WaitGroup
	for i := range ws {
		wwg.Add(1)

		go func() {
			defer wwg.Done()
			ws[i], werrs[i] = newWorker(p, i, hs)
		}()
	}

	wwg.Wait()

	defer func() {
		for _, w := range ws {
			if w != nil && w.solver != nil {
				w.solver.close()
			}
		}
	}()

	if werrs[0] != nil {
		fmt.Fprintln(os.Stderr, werrs[0])

		return 2
	}

	wg.Wait()

	if !o.noNative && nat.err != nil {
		fmt.Fprintln(os.Stderr, "native build:", nat.err)

		return 2
	}

	if o.verbose {
		fmt.Fprintf(os.Stderr, "loaded in %v, initialised in %v\n", loaded, time.Since(start))
	}

	known := readKnown(o)
	res := &result{o: o, known: known, nat: nat}
	left := o.budget

	var todo []*Run

	for _, h := range hs {
		if o.only == "" || strings.Contains(h.id(), o.only) {
			r := &Run{p: p, h: h, maxwit: 400, thorough: o.thorough, debug: o.verbose}
			r.onViol = res.onViolation
			todo = append(todo, r)
		}
	}

	all := todo

	// Each harness may use a little at first, so that those that are explored fast are not kept from it by others.
	for round := 0; round < 2 && res.confirmed == nil; round++ {
		var again []*Run

		for i, r := range todo {
			start := time.Now()
			share := o.budget / time.Duration(3*len(todo))

			if round > 0 {
				// What is left, less a little for each that follows.
				share = left - time.Duration(len(todo)-i-1)*left/time.Duration(2*len(todo))
			}

			for _, w := range ws {
				w.stepLimit = 60_000_000
			}

			r.deadline = start.Add(share)
			r.explore(ws)

			used := time.Since(start)
			left -= used
			r.wall += used

			if r.timedOut {
				again = append(again, r)
			}

			if o.verbose && (!r.timedOut || round > 0) {
				b, _ := json.Marshal(r.report())
				fmt.Fprintf(os.Stderr, "%s\n", b)
			}

			if res.confirmed != nil {
				break
			}
		}

		todo = again
	}

	for _, r := range all {
		if r.queues == nil {
			continue
		}

		res.reports = append(res.reports, r.report())
		res.witness = append(res.witness, r.witness...)

		for _, l := range r.h.reach {
			if r.reached[l] == 0 {
				res.unreached = append(res.unreached, r.h.id()+":"+l)
			}
		}
	}

	if res.confirmed == nil && !o.noNative {
		res.validate()
	}

	return res.finish(start)
}

func (r *Run) report() harnessReport {
	return harnessReport{
		Name: r.h.id(), Paths: r.st.Paths, Aborted: r.st.Aborted, Forks: r.st.Forks, Forced: r.st.Forced, Asserts: r.st.Asserts,
		Folded: r.st.Folded, Queries: r.st.Queries, Unsat: r.st.Replayed, Solver: r.st.SolverSec, Instrs: r.st.Instrs,
		Wall: r.wall.Seconds(), Complete: !r.timedOut && r.st.Inconclusive == 0, Incon: r.incon, Labels: r.labels,
		Reached: r.reached, Bounds: sortedKeys(r.bounds), Slowest: r.slowest,
	}
}

type result struct {
	o         *options
	nat       *native
	known     []knownFinding
	mu        sync.Mutex
	reports   []harnessReport
	witness   []*Witness
	unreached []string
	confirmed *Violation
	replay    string
	knownHit  map[string]bool
	unrepro   []string
	tried     map[string]int

	validated, mismatched int
	contradictions        int
	mismatches            []string
}

// onViolation replays a candidate against the real code; it reports whether to stop.
func (r *result) onViolation(v *Violation) bool {
	r.mu.Lock()
	defer r.mu.Unlock()

	if r.confirmed != nil {
		return true
	}

	if r.tried == nil {
		r.tried, r.knownHit = map[string]int{}, map[string]bool{}
	}

	key := v.Harness + "|" + v.Label

	if r.o.noNative {
		b, _ := json.Marshal(v)
		fmt.Fprintf(os.Stderr, "candidate: %s\n", b)

		return false
	}

	// A listed finding needs confirming once.
	for _, k := range r.known {
		if k.matches(r.o.prop, v) && r.knownHit[k.Label] {
			return false
		}
	}

	if r.tried[key] >= 8 {
		return false
	}

	r.tried[key]++

	ok, out := r.nat.confirm(v)
	if !ok {
		b, _ := json.Marshal(v)
		r.unrepro = append(r.unrepro, string(b))
		fmt.Fprintf(os.Stderr, "not reproduced: %s\n%.1500s\n", b, out)

		return false
	}

	for _, k := range r.known {
		if k.matches(r.o.prop, v) {
			r.knownHit[k.Label] = true

			return false
		}
	}

	r.confirmed = v
	r.replay = r.nat.saveReplay(v, out)

	return true
}

// validate pushes witnesses through the real code and compares what is observed.
func (r *result) validate() {
	if len(r.witness) == 0 {
		return
	}

	outs, err := r.nat.batch(r.witness)
	if err != nil {
		fmt.Fprintln(os.Stderr, "validation:", err)

		return
	}

	for i, w := range r.witness {
		got := outs[i]
		bad := ""

		switch {
		case got == nil:
			bad = "no result"
		case len(got.Fail) > 0 && !r.isKnownFail(w, got.Fail):
			bad = "assertion fails natively: " + strings.Join(got.Fail, ", ")
		case got.Panic != "":
			bad = "panics natively: " + got.Panic
		case !w.order && strings.Join(got.Obs, "\n") != strings.Join(w.Obs, "\n"):
			bad = fmt.Sprintf("observations differ: engine %q, real %q", w.Obs, got.Obs)
		}

		if bad == "" {
			r.validated++

			continue
		}

		r.mismatched++

		if len(got.failures()) > 0 && !r.isKnownFail(w, got.Fail) && r.contradicted(w, got) {
			return
		}

		if len(r.mismatches) < 10 {
			b, _ := json.Marshal(w.Inputs)
			r.mismatches = append(r.mismatches, fmt.Sprintf("%s %s: %s", w.Harness, b, bad))
		}
	}

	for _, m := range r.mismatches {
		fmt.Fprintln(os.Stderr, "MISMATCH", m)
	}
}

func (o *outcome) failures() []string {
	if o == nil {
		return nil
	}

	return o.Fail
}

// contradicted is whether the real code fails time and again on the solver's input for a path on which the assertions were
// decided to hold: the encoding is inexact there, and the failure a violation all the same.
func (r *result) contradicted(w *Witness, got *outcome) bool {
	if r.contradictions++; r.contradictions > 3 {
		return false
	}

	label := got.Fail[0]

	for _, l := range got.Fail {
		if !r.isKnownFail(w, []string{l}) {
			label = l

			break
		}
	}

	jobs := make([]job, 5)
	for i := range jobs {
		jobs[i] = job{w.Harness, w.Inputs}
	}

	outs, _, err := r.nat.exec(jobs, 60*time.Second)
	if err != nil {
		return false
	}

	n := 0

	for _, o := range outs {
		for _, l := range o.failures() {
			if l == label {
				n++

				break
			}
		}
	}

	if n < len(jobs)-1 {
		return false
	}

	r.confirmed = &Violation{Harness: w.Harness, Label: label, Inputs: w.Inputs, Why: "the real code fails on the input of a path that was decided to hold"}
	r.replay = r.nat.saveReplay(r.confirmed, fmt.Sprintf("%+v", *got))

	return true
}

func (r *result) isKnownFail(w *Witness, fails []string) bool {
	for _, f := range fails {
		ok := false

		for _, k := range r.known {
			if k.matches(r.o.prop, &Violation{Harness: w.Harness, Label: f}) {
				ok = true
			}
		}

		if !ok {
			return false
		}
	}

	return true
}

func (r *result) finish(start time.Time) int {
	o := r.o
	tier := "quick"

	if o.thorough {
		tier = "thorough"
	}

	sum := Stats{}
	complete := true
	incon := 0
	solver := 0.0
	unsat := 0

	var bounds []string

	var samples []any

	for _, h := range r.reports {
		sum.Paths += h.Paths
		sum.Forks += h.Forks
		sum.Forced += h.Forced
		sum.Asserts += h.Asserts
		sum.Folded += h.Folded
		sum.Queries += h.Queries
		sum.Aborted += h.Aborted
		sum.Instrs += h.Instrs
		solver += h.Solver
		unsat += h.Unsat
		complete = complete && h.Complete
		bounds = append(bounds, h.Bounds...)

		for _, n := range h.Incon {
			incon += n
		}
	}

	for i, w := range r.witness {
		if i%(len(r.witness)/8+1) == 0 {
			samples = append(samples, map[string]any{"harness": w.Harness, "inputs": w.Inputs, "observed": w.Obs})
		}
	}

	if samples == nil {
		samples = []any{}
	}

	var fns []string

	r.nat.p.fnsRun.Range(func(k, _ any) bool {
		fns = append(fns, strings.ReplaceAll(k.(*CFn).fn.String(), r.nat.p.repoMod+"/", ""))

		return true
	})
	sort.Strings(fns)

	fns = append(fns, cppFunctions()...)
	assumptions := assumptions

	if cppStat.programs > 0 {
		assumptions = append(append([]string{}, assumptions...), cppAssumptions...)
	}

	viol := 0
	if r.confirmed != nil {
		viol = 1
	}

	ev := map[string]any{
		"property": o.prop, "tier": tier, "seed": o.seed, "level": "model_checking",
		"coverage": map[string]any{
			"states": sum.Forks + sum.Paths, "transitions": 2*sum.Forks + sum.Forced, "traces_validated_against_impl": r.validated,
			"samples": samples, "exhaustive": complete,
			"symbolic_paths_completed": sum.Paths, "paths_ended_by_an_assumption": sum.Aborted, "assertions_decided": sum.Asserts,
			"assertions_constant_on_their_path": sum.Folded, "solver_queries": sum.Queries, "solver_unsat": unsat,
			"solver_seconds": solver, "ssa_instructions_executed": sum.Instrs, "functions_encoded": fns, "bounds": bounds,
			"harnesses": r.reports, "inconclusive_paths": incon, "replay_mismatches": r.mismatched, "mismatches": r.mismatches,
			"candidates_not_reproduced": r.unrepro, "unreached_witnesses": r.unreached,
			"explanation": "Symbolic execution of the repository's Go SSA and of the standard library it calls: states are branch points with several feasible sides plus completed paths; transitions are branch edges taken. Every assertion is decided by z3 for all values of the symbolic inputs on its path.",
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  viol,
	}

	_ = os.MkdirAll(filepath.Join(o.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")

	if o.only == "" {
		if err := os.WriteFile(filepath.Join(o.verif, "evidence", o.prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)

			return 2
		}
	}

	for _, k := range r.known {
		if k.Prop == o.prop && k.Fixed == "" && r.knownHit[k.Label] {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k.What)
		}
	}

	fmt.Printf("%s %s: %d paths, %d assertions decided, %d solver queries (%.1fs in the solver), %d traces validated, %d mismatches, exhausted=%v, %.1fs\n",
		o.prop, tier, sum.Paths, sum.Asserts, sum.Queries, solver, r.validated, r.mismatched, complete, time.Since(start).Seconds())

	if r.confirmed != nil {
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, r.replay)
		fmt.Printf("  %s: %s (%s)\n", r.confirmed.Harness, r.confirmed.Label, r.confirmed.Why)

		return 1
	}

	for _, h := range r.reports {
		if !h.Complete {
			fmt.Printf("REDUCED BOUND: %s was not exhausted (%v)\n", h.Name, h.Incon)
		}
	}

	if len(r.unreached) > 0 {
		fmt.Printf("UNREACHED: %v\n", r.unreached)

		if complete {
			return 2
		}
	}

	if sum.Asserts == 0 {
		fmt.Println("nothing was decided")

		return 2
	}

	return 0
}

var assumptions = []string{
	"go/ssa's translation of the Go source, and this engine's execution of it, are faithful: sampled paths are replayed against the compiled code on every run and their observations compared",
	"encoding/json is analysed as its version 1 implementation (GOEXPERIMENT=nojsonv2); replays use the default build",
	"the operating system is a stand-in (an in-memory file system, standard streams, exit status); files, directories and failing devices behave as in the stand-in",
	"reflect, sync, sync/atomic, runtime, bytealg and errors.Is/As are modelled by their contracts; strconv's formatting of a symbolic integer is modelled by its contract",
	"z3 4.8.12 is right when it answers unsat",
}

var cppAssumptions = []string{
	"clang 18 -O0's translation of C++11 to LLVM's intermediate representation, and this engine's execution of it, are faithful: sampled paths are replayed against what g++ makes of the same files",
	"the C++ standard library is a stand-in (gosym/cxx) for the parts that generated programs use; memory that was not initialised reads as zero; the digits of symbolic numbers are not compared",
	"what of ROS the generated programs use is a stand-in of the harness",
}

// --- known findings

type knownFinding struct {
	Prop, Label, What, Fixed string
}

func (k *knownFinding) matches(prop string, v *Violation) bool {
	return k.Fixed == "" && k.Prop == prop && k.Label == v.Label
}

// readKnown reads lines "property=<id> label=<assertion> <what fails>".
func readKnown(o *options) []knownFinding {
	b, err := os.ReadFile(filepath.Join(o.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}

	var out []knownFinding

	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}

		f := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(f) == 3 {
			out = append(out, knownFinding{
				Prop: strings.TrimPrefix(f[0], "property="), Label: strings.TrimPrefix(f[1], "label="), What: f[2],
			})
		}
	}

	return out
}

// --- the real code

type native struct {
	o     *options
	p     *Prog
	hs    []*Harness
	files map[string]string
	dir   string
	bin   string
	err   error
	once  sync.Once

	clock  bool     // with a clock that differs whenever it is read
	flags  []string // for building
	report string   // of the race detector
}

func (n *native) close() {
	if n.dir != "" {
		_ = os.RemoveAll(n.dir)
	}
}

func goCmd(repo string, args ...string) *exec.Cmd {
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = append(os.Environ(), "GOFLAGS=-mod=mod -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")

	return c
}

func (n *native) build() {
	if n.dir, n.err = os.MkdirTemp("", "gosym-"); n.err != nil {
		return
	}

	rep := map[string]string{}
	for k, v := range n.files {
		rep[k] = v
	}

	var sb strings.Builder

	sb.WriteString("package main\n\nimport (\n")

	pkgs := map[string]string{}
	for _, h := range n.hs {
		if _, ok := pkgs[h.pkg]; !ok {
			pkgs[h.pkg] = fmt.Sprintf("p%d", len(pkgs))
			fmt.Fprintf(&sb, "\t%s %q\n", pkgs[h.pkg], h.pkg)
		}
	}

	fmt.Fprintf(&sb, "\t%q\n)\n\nfunc main() {\n\tsym.Main(map[string]func(){\n", n.p.repoMod+"/"+zz+"sym")

	for _, h := range n.hs {
		fmt.Fprintf(&sb, "\t\t%q: %s.%s,\n", h.id(), pkgs[h.pkg], h.fn)
	}

	sb.WriteString("\t})\n}\n")

	mainGo := filepath.Join(n.dir, "main.go")
	if n.err = os.WriteFile(mainGo, []byte(sb.String()), 0o644); n.err != nil {
		return
	}

	rep[filepath.Join(n.o.repo, zz, "zmain", "main.go")] = mainGo

	if n.clock {
		if n.err = n.addClock(rep); n.err != nil {
			return
		}
	}

	b, _ := json.Marshal(map[string]any{"Replace": rep})
	ov := filepath.Join(n.dir, "overlay.json")

	if n.err = os.WriteFile(ov, b, 0o644); n.err != nil {
		return
	}

	n.bin = filepath.Join(n.dir, "harness")
	if n.clock {
		n.flags = append(n.flags, "-overlay", ov)
	}

	if out, err := goCmd(n.o.repo, append(append([]string{"build"}, n.flags...), "-overlay", ov, "-o", n.bin, "./"+zz+"zmain")...).CombinedOutput(); err != nil {
		n.err = fmt.Errorf("%w: %s", err, out)

		return
	}

	if out, err := goCmd(n.o.repo, append(append([]string{"build"}, n.flags...), "-o", filepath.Join(n.dir, "bin")+"/", "./cmd/...")...).CombinedOutput(); err != nil {
		n.err = fmt.Errorf("%w: %s", err, out)
	}
}

// addClock has the time be one that differs whenever it is read, in each process, as it does where the program is analysed.
func (n *native) addClock(rep map[string]string) error {
	root, err := goCmd(n.o.repo, "env", "GOROOT").Output()
	if err != nil {
		return err
	}

	file := filepath.Join(strings.TrimSpace(string(root)), "src", "time", "time.go")

	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}

	const now = "\nfunc Now() Time {\n"

	i := bytes.Index(b, []byte(now))
	if i < 0 {
		return errors.New("time.Now is not as expected")
	}

	src := string(b[:i]) + "\nvar verifReads = verifStart()\n\nfunc verifStart() int64 {\n\ts, n, _ := now()\n\n\treturn (s*1000 + int64(n)/1000000) % 9000\n}\n\nfunc Now() Time {\n\tverifReads++\n\n\treturn Unix(1700000000+verifReads*" +
		strconv.Itoa(clockStep) + ", verifReads*1000007%1000000000)\n}\n\nfunc verifNow() Time {\n" + string(b[i+len(now):])
	repl := filepath.Join(n.dir, "time.go")
	rep[file] = repl

	return os.WriteFile(repl, []byte(src), 0o644)
}

type job struct {
	Harness string         `json:"harness"`
	Inputs  map[string]any `json:"inputs"`
}

type outcome struct {
	Obs   []string `json:"obs"`
	Fail  []string `json:"fail"`
	Panic string   `json:"panic"`
	Skip  string   `json:"skip"`
	Done  bool     `json:"done"`
}

const nobody = 65534

// exec runs jobs in one process of the harness binary.
func (n *native) exec(jobs []job, timeout time.Duration) ([]*outcome, string, error) {
	var in bytes.Buffer

	enc := json.NewEncoder(&in)
	for _, j := range jobs {
		if err := enc.Encode(j); err != nil {
			return nil, "", err
		}
	}

	scratch, err := os.MkdirTemp(n.dir, "run-")
	if err != nil {
		return nil, "", err
	}

	defer os.RemoveAll(scratch)

	c := exec.Command(n.bin)

	// As nobody, the code under test can reach nothing but its scratch directory.
	if os.Getuid() == 0 {
		if err := os.Chmod(n.dir, 0o711); err != nil {
			return nil, "", err
		}

		if err := os.Chown(scratch, nobody, nobody); err != nil {
			return nil, "", err
		}

		c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody}}
	}

	c.Dir = scratch
	cpp := filepath.Join(n.dir, "cpp")
	if err := os.MkdirAll(cpp, 0o777); err != nil {
		return nil, "", err
	}

	if err := os.Chmod(cpp, 0o777); err != nil {
		return nil, "", err
	}

	c.Env = append(os.Environ(), "SYM_BIN="+filepath.Join(n.dir, "bin"), "SYM_SCRATCH="+scratch, "SYM_CPP="+cpp)
	if n.o.thorough {
		c.Env = append(c.Env, "SYM_THOROUGH=1")
	}
	if len(n.flags) > 0 {
		c.Env = append(c.Env, "GORACE=exitcode=0 log_path="+filepath.Join(scratch, "race"))
	}

	c.Stdin = &in

	var out, errb bytes.Buffer

	c.Stdout, c.Stderr = &out, &errb

	if err := c.Start(); err != nil {
		return nil, "", err
	}

	t := time.AfterFunc(timeout, func() { _ = c.Process.Kill() })
	werr := c.Wait()
	t.Stop()

	if fs, _ := filepath.Glob(filepath.Join(scratch, "race.*")); len(fs) > 0 {
		b, _ := os.ReadFile(fs[0])
		n.report = fmt.Sprintf("%.1500s", b)
	}

	var res []*outcome

	sc := bufio.NewScanner(&out)
	sc.Buffer(nil, 1<<26)

	for sc.Scan() {
		o := &outcome{}
		if json.Unmarshal(sc.Bytes(), o) == nil {
			res = append(res, o)
		}
	}

	msg := errb.String()
	if len(msg) > 2000 {
		msg = msg[:2000]
	}

	if werr != nil {
		msg = werr.Error() + ": " + msg
	}

	return res, msg, nil
}

// confirm runs a candidate's inputs through the real code.
func (n *native) confirm(v *Violation) (bool, string) {
	times := 1
	if strings.Contains(v.Label, "order") {
		times = 300
	} else if v.Sched || v.Rand {
		times = 60
	} else if v.Clock {
		times = 3
	}

	jobs := make([]job, times)
	for i := range jobs {
		jobs[i] = job{v.Harness, v.Inputs}
	}

	if v.Clock && !n.clock {
		r := &native{o: n.o, p: n.p, hs: n.hs, files: n.files, clock: true}
		defer r.close()

		if r.build(); r.err != nil {
			return false, "clock: " + r.err.Error()
		}

		return r.confirm(v)
	}

	outs, msg, err := n.exec(jobs, 60*time.Second)
	if err != nil {
		return false, err.Error()
	}

	for _, o := range outs {
		if len(o.Fail) > 0 || o.Panic != "" {
			return true, fmt.Sprintf("%+v", *o)
		}
	}

	if len(outs) < len(jobs) && (v.Hang || v.Label == "panic") {
		return true, "the process ended: " + msg
	}

	if v.Sched {
		if race := n.race(jobs[:10]); race != "" {
			return true, "the race detector reports: " + race
		}
	}

	b, _ := json.Marshal(outs)

	return false, string(b) + msg
}

// race runs jobs in programs built with the race detector, and gives its first report.
func (n *native) race(jobs []job) string {
	r := &native{o: n.o, p: n.p, hs: n.hs, files: n.files, flags: []string{"-race"}}
	defer r.close()

	if r.build(); r.err != nil {
		fmt.Fprintln(os.Stderr, "race:", r.err)

		return ""
	}

	_, _, _ = r.exec(jobs, 60*time.Second)

	return r.report
}

func (n *native) batch(ws []*Witness) ([]*outcome, error) {
	const k = 8

	res := make([]*outcome, len(ws))

	var wg sync.WaitGroup

	for s := 0; s < k; s++ {
		wg.Add(1)

		go func() {
			defer wg.Done()

			var jobs []job

			var idx []int

			for i := s; i < len(ws); i += k {
				jobs = append(jobs, job{ws[i].Harness, ws[i].Inputs})
				idx = append(idx, i)
			}

			if len(jobs) == 0 {
				return
			}

			outs, _, err := n.exec(jobs, 120*time.Second)
			if err != nil {
				return
			}

			for j, o := range outs {
				res[idx[j]] = o
			}
		}()
	}

	wg.Wait()

	return res, nil
}

func (n *native) saveReplay(v *Violation, out string) string {
	dir := filepath.Join(n.o.verif, "evidence", "replay")
	_ = os.MkdirAll(dir, 0o755)

	p := filepath.Join(dir, n.o.prop+".json")
	b, _ := json.MarshalIndent(map[string]any{
		"property": n.o.prop, "harness": v.Harness, "label": v.Label, "why": v.Why, "inputs": v.Inputs, "native_result": out,
		"sched": v.Sched, "clock": v.Clock, "rand": v.Rand, "hang": v.Hang,
		"reproduce": fmt.Sprintf("/verif/run.sh replay %s %s", n.o.prop, p),
	}, "", " ")
	_ = os.WriteFile(p, append(b, '\n'), 0o644)

	return p
}

// replayFile runs what saveReplay saved.
func (n *native) replayFile() int {
	var v Violation

	b, err := os.ReadFile(n.o.replay)
	if err == nil {
		err = json.Unmarshal(b, &v)
	}

	if err == nil {
		n.build()
		err = n.err
	}

	if err != nil {
		fmt.Fprintln(os.Stderr, err)

		return 2
	}

	ok, out := n.confirm(&v)
	fmt.Println(out)

	if ok {
		fmt.Printf("VIOLATION property=%s replay=%s\n", n.o.prop, n.o.replay)

		return 1
	}

	return 0
}
