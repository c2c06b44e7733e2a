package main

import (
	"fmt"
	"go/constant"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is an entry point.
type Harness struct {
	pkg, fn string // package path and function name
	f       *ssa.Function
	reach   []string // labels that some path must reach
}

func (h *Harness) id() string { return h.pkg[strings.LastIndexByte(h.pkg, '/')+1:] + "." + h.fn }

// Violation is a candidate violation: its inputs make the assertion fail, says the solver.
type Violation struct {
	Harness string
	Label   string
	Why     string
	Inputs  map[string]any
	Hang    bool
	Sched   bool // found where goroutines run
	Clock   bool // found where the time was read
	Rand    bool // found where random numbers were drawn
}

// Witness is a completed path with concrete inputs and the observations expected of the real code.
type Witness struct {
	Harness string
	Inputs  map[string]any
	Obs     []string
	order   bool
}

// Run explores one harness.
type Run struct {
	p        *Prog
	h        *Harness
	thorough bool
	nworkers int
	deadline time.Time
	wall     time.Duration

	mu      sync.Mutex
	cond    *sync.Cond
	queues  [][]*Item
	idle    int
	stopped bool

	labels   map[string]int
	reached  map[string]int
	viols    map[string][]*Violation
	witness  []*Witness
	nwit     int
	maxwit   int
	incon    map[string]int
	timedOut bool
	st       Stats
	errs     []string
	bounds   map[string]bool
	onViol   func(v *Violation) bool // true: stop
	debug    bool
	slowest  int64
}

func (r *Run) push(w int, it *Item) {
	r.mu.Lock()
	r.queues[w] = append(r.queues[w], it)

	if r.idle > 0 {
		r.cond.Signal()
	}

	r.mu.Unlock()
}

// next takes an item: its own latest, or another worker's oldest.
func (r *Run) next(w int) *Item {
	r.mu.Lock()
	defer r.mu.Unlock()

	for {
		if r.stopped {
			return nil
		}

		if q := r.queues[w]; len(q) > 0 {
			it := q[len(q)-1]
			r.queues[w] = q[:len(q)-1]

			return it
		}

		best := -1

		for i, q := range r.queues {
			if len(q) > 0 && (best < 0 || len(q) > len(r.queues[best])) {
				best = i
			}
		}

		if best >= 0 {
			it := r.queues[best][0]
			r.queues[best] = r.queues[best][1:]

			return it
		}

		r.idle++
		if r.idle == r.nworkers {
			r.stopped = true
			r.cond.Broadcast()

			return nil
		}

		r.cond.Wait()

		r.idle--
	}
}

func (r *Run) stop() {
	r.mu.Lock()
	r.stopped = true
	r.cond.Broadcast()
	r.mu.Unlock()
}

func (r *Run) sawAssert(label string) {
	r.mu.Lock()
	r.labels[label]++
	r.mu.Unlock()
}

func (w *W) violation(label, why string) {
	v := &Violation{Harness: w.h.id(), Label: label, Why: why, Inputs: w.assignment(), Sched: w.ran, Clock: w.clock > 0}
	for k := range v.Inputs {
		if strings.HasPrefix(k, "$rand") {
			v.Rand = true
		}
	}


	if verbose {
		for _, o := range w.obs {
			fmt.Fprintf(os.Stderr, "    observed %s=%s\n", o.Label, w.render(o))
		}
	}

	w.report(v)
}

func (w *W) report(v *Violation) {
	r := w.run_
	r.mu.Lock()
	vs := r.viols[v.Label]
	n := len(vs)

	if n < 8 {
		r.viols[v.Label] = append(vs, v)
	}
	r.mu.Unlock()

	if n < 8 && r.onViol != nil && r.onViol(v) {
		r.stop()
	}
}

var verbose bool

// newWorker makes a worker and runs the packages' initialisation.
func newWorker(p *Prog, id int, hs []*Harness) (w *W, err error) {
	w = &W{
		p: p, id: id, ts: newTerms(), mapSaves: map[*MapObj]*MapObj{}, rtypes: map[int]*Obj{}, sizes: map[*TInfo]int{},
		syncMaps: map[syncKey]*MapObj{}, stepLimit: 1 << 40,
		locks: map[syncKey]*lock{}, wgs: map[syncKey]*int{}, notifies: map[syncKey]*notifyList{},
		chanSaves: map[*ChanObj]*ChanObj{},
	}
	w.slab = make([]V, slabSize)

	if w.solver, err = newSolver(30000); err != nil {
		return nil, err
	}

	w.inInit = true

	defer func() {
		w.inInit = false

		if r := recover(); r != nil {
			err = fmt.Errorf("initialisation: %v", describe(r, w))
			if _, ok := r.(engineErr); !ok {
				err = fmt.Errorf("%w\n%s%s", err, w.stack(12), debug.Stack())
			} else {
				err = fmt.Errorf("%w\n%s", err, w.stack(12))
			}
		}
	}()

	done := map[string]bool{}

	for _, n := range []string{p.repoMod + vosPkg} {
		if sp := p.byPath[n]; sp != nil {
			w.call(p.fn(sp.Func("init")), nil, nil)
		}
	}

	for _, n := range sortedKeys(p.byPath) {
		if strings.HasPrefix(n, p.repoMod+"/cmd/") {
			w.call(p.fn(p.byPath[n].Func("init")), nil, nil)
		}
	}

	for _, h := range hs {
		if done[h.pkg] {
			continue
		}

		done[h.pkg] = true
		w.call(p.fn(p.byPath[h.pkg].Func("init")), nil, nil)

		if f := p.byPath[h.pkg].Func("Warm"); f != nil {
			w.call(p.fn(f), nil, nil)
		}
	}

	w.sp = 0

	return w, nil
}

func describe(r any, w *W) string {
	switch r := r.(type) {
	case engineErr:
		return "unsupported: " + r.msg
	case *goPanic:
		return "panic: " + w.panicText(r)
	case pathEnd:
		return "path end: " + r.why
	case hang:
		return "step limit"
	case exitPanic:
		return fmt.Sprintf("exit %d", r.code)
	}

	return fmt.Sprintf("internal: %v", r)
}

func (w *W) panicText(g *goPanic) string {
	i, _ := g.v.r.(*Iface)
	if i == nil {
		return "nil " + g.where
	}

	if s, ok := i.v.r.(string); ok {
		return i.t.String() + ": " + s + " " + g.where
	}

	return i.t.String() + " " + g.where
}

// runItem executes one path.
func (w *W) runItem(it *Item) {
	r := w.run_
	w.startPath(it)

	completed := false

	func() {
		defer func() {
			e := uncrash(recover())
			w.killSince(0)
			w.sch = nil

			if e == nil {
				return
			}

			switch x := e.(type) {
			case pathEnd:
				w.st.Aborted++

				if x.why == "solver gave up" || strings.HasPrefix(x.why, "too many") {
					w.st.Inconclusive++
					r.mu.Lock()
					r.incon[x.why]++
					r.mu.Unlock()
				}

				if x.why == "stop" {
					completed = true
				}
			case *goPanic:
				w.st.Panics++

				if !w.replaying() {
					w.violation("panic", "panic: "+w.panicText(x))

					if verbose {
						fmt.Fprintf(os.Stderr, "    panic: %s\n%s", w.panicText(x), x.stack)
					}
				}
			case hang:
				w.st.Hangs++

				if !w.replaying() {
					w.report(&Violation{Harness: w.h.id(), Label: "hang", Why: "step limit", Inputs: w.assignment(), Hang: true})
				}
			case engineErr:
				w.st.Inconclusive++
				r.mu.Lock()
				if r.incon[x.msg] == 0 && verbose {
					fmt.Fprintf(os.Stderr, "%s\n%s", x.msg, w.stack(12))
				}
				r.incon[x.msg]++
				r.mu.Unlock()
			case exitPanic:
				w.st.Panics++

				w.violation("exit", fmt.Sprintf("exit %d outside a command", x.code))
			default:
				w.st.Inconclusive++
				r.mu.Lock()
				msg := fmt.Sprintf("internal error: %v", e)
				if r.incon[msg] == 0 {
					fmt.Fprintf(os.Stderr, "%s\n%s%s\n", msg, w.stack(12), debug.Stack())
				}
				r.incon[msg]++
				r.mu.Unlock()
			}
		}()

		w.call(w.p.fn(w.h.f), nil, nil)

		completed = true
	}()

	if completed {
		func() {
			defer func() {
				if e := recover(); e != nil {
					if _, ok := e.(pathEnd); !ok {
						panic(e)
					}
				}
			}()

			w.finish()
		}()
	}

	w.instrs += w.steps
	w.endPath()
}

// finish handles a path that ran to its end: its path condition must be satisfiable, and some become witnesses.
func (w *W) finish() {
	r := w.run_
	w.st.Paths++

	take := false

	r.mu.Lock()
	for _, l := range w.reached {
		if r.reached[l] == 0 {
			take = true
		}

		r.reached[l]++
	}

	n := w.st.Paths
	if take || n&(n-1) == 0 || n%97 == 0 {
		if r.nwit < r.maxwit {
			r.nwit++
			take = true
		}
	} else {
		take = false
	}

	if w.steps > r.slowest {
		r.slowest = w.steps
	}
	r.mu.Unlock()

	if !take {
		return
	}

	// The solver itself confirms that the path is feasible, and gives its inputs.
	ok, m := w.query(nil)
	if !ok {
		panic("an explored path is infeasible")
	}

	w.model = m

	wit := &Witness{Harness: w.h.id(), Inputs: w.assignment(), order: w.mapOrd != 0 || w.ran}
	for _, o := range w.obs {
		wit.Obs = append(wit.Obs, o.Label+"="+w.render(o))
	}

	r.mu.Lock()
	r.witness = append(r.witness, wit)
	r.mu.Unlock()
}

func (w *W) render(o Obs) string {
	ev := func(v V) uint64 {
		if t, ok := v.r.(*Term); ok {
			return w.ts.Eval(t, w.model)
		}

		return v.n
	}

	switch o.kind {
	case "int":
		return fmt.Sprint(int64(ev(o.v)))
	case "bool":
		return fmt.Sprint(ev(o.v) != 0)
	}

	b := make([]byte, 0, strLen(o.v))
	for _, c := range strCells(o.v) {
		b = append(b, byte(ev(c)))
	}

	return fmt.Sprintf("%q", b)
}

// explore runs a harness to exhaustion of its bounded space, or to its deadline; it goes on from there if it is called again.
func (r *Run) explore(ws []*W) {
	if r.queues == nil {
		r.cond = sync.NewCond(&r.mu)
		r.nworkers = len(ws)
		r.queues = make([][]*Item, len(ws))
		r.labels, r.reached = map[string]int{}, map[string]int{}
		r.viols, r.incon = map[string][]*Violation{}, map[string]int{}
		r.bounds = map[string]bool{}
		r.queues[0] = []*Item{{}}
	}

	r.idle, r.stopped = 0, false

	var wg sync.WaitGroup

	var expired atomic.Bool

	timer := time.AfterFunc(time.Until(r.deadline), func() {
		expired.Store(true)
		r.stop()
	})
	defer timer.Stop()

	for _, w := range ws {
		w.run_, w.h = r, r.h
		w.st = Stats{}
		w.instrs = 0
		w.solver.elapsed = 0
		q0, u0 := w.solver.queries, w.solver.unsat
		wg.Add(1)

		go func(w *W) {
			defer wg.Done()

			for {
				it := r.next(w.id)
				if it == nil {
					break
				}

				w.runItem(it)
			}

			r.mu.Lock()
			w.st.Instrs = w.instrs
			w.st.SolverSec = w.solver.elapsed.Seconds()
			w.st.Queries = w.solver.queries - q0
			r.st.add(&w.st, w.solver.unsat-u0)
			r.mu.Unlock()
		}(w)
	}

	wg.Wait()

	r.timedOut = expired.Load() && r.pending() > 0
}

func (r *Run) pending() int {
	n := 0
	for _, q := range r.queues {
		n += len(q)
	}

	return n
}

func (s *Stats) add(o *Stats, unsat int) {
	s.Paths += o.Paths
	s.Aborted += o.Aborted
	s.Inconclusive += o.Inconclusive
	s.Hangs += o.Hangs
	s.Panics += o.Panics
	s.Forks += o.Forks
	s.Forced += o.Forced
	s.Asserts += o.Asserts
	s.Folded += o.Folded
	s.Queries += o.Queries
	s.Replayed += unsat
	s.Instrs += o.Instrs
	s.SolverSec += o.SolverSec
	s.Unknown += o.Unknown
}

// findHarnesses lists the harness functions of the package at path.
func findHarnesses(p *Prog, path string, thorough bool) []*Harness {
	sp := p.byPath[path]
	if sp == nil {
		return nil
	}

	var out []*Harness

	for _, n := range sortedKeys(sp.Members) {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok || f.Signature.Params().Len() > 0 {
			continue
		}

		if strings.HasPrefix(n, "Check") || thorough && strings.HasPrefix(n, "Deep") {
			h := &Harness{pkg: path, fn: n, f: f}
			h.reach = reachLabels(f)
			out = append(out, h)
		}
	}

	return out
}

// reachLabels finds the labels of the sym.Reach calls in f and in the functions of its package that it calls.
func reachLabels(f *ssa.Function) []string {
	seen := map[*ssa.Function]bool{}
	labels := map[string]bool{}

	var visit func(g *ssa.Function)

	visit = func(g *ssa.Function) {
		if seen[g] {
			return
		}

		seen[g] = true

		for _, a := range g.AnonFuncs {
			visit(a)
		}

		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}

				callee := c.Common().StaticCallee()
				if callee == nil || callee.Pkg == nil {
					continue
				}

				if callee.Name() == "Reach" && strings.HasSuffix(callee.Pkg.Pkg.Path(), "zzverif/sym") {
					if k, ok := c.Common().Args[0].(*ssa.Const); ok {
						labels[constant.StringVal(k.Value)] = true
					}
				}

				if callee.Pkg == f.Pkg {
					visit(callee)
				}
			}
		}
	}

	visit(f)

	out := make([]string, 0, len(labels))
	for l := range labels {
		out = append(out, l)
	}

	sort.Strings(out)

	return out
}
