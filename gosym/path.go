package main

import (
	"fmt"
	"sort"
)

// W is a worker: it has its own heap, terms and solver, and executes one path at a time.
type W struct {
	p      *Prog
	run_   *Run
	id     int
	ts     *Terms
	solver *Solver

	globals  []*Obj // by Prog.globalIdx
	inInit   bool
	nobj     int64
	trail    []trailEnt
	mapSaves map[*MapObj]*MapObj

	slab []V
	sp   int

	steps, stepLimit int64
	depth            int
	instrs           int64

	// The path being executed.
	prefix  []int32
	log     []int32
	pc      []*Term
	model   Model
	domGen  uint32
	inputs  []Input
	nameCnt map[string]int
	freshN  int
	clock   int // how often the time was read
	obs     []Obs
	reached []string
	mapOrd  int
	mapDev  int
	h       *Harness
	phase   string
	intStrs []intStr
	frames  []*Frame
	sizes   map[*TInfo]int
	syncMaps map[syncKey]*MapObj
	lastPanic *goPanic

	sch       *sched
	ran       bool // a goroutine was started on this path
	locks     map[syncKey]*lock
	wgs       map[syncKey]*int
	notifies  map[syncKey]*notifyList
	chanSaves map[*ChanObj]*ChanObj

	rtypes   map[int]*Obj

	st Stats
}

// Stats counts what was done.
type Stats struct {
	Paths, Aborted, Inconclusive, Hangs, Panics       int
	Forks, Forced, Asserts, Folded, Queries, Replayed int
	Instrs                                            int64
	SolverSec                                         float64
	Unknown                                           int
}

type trailEnt struct {
	o   *Obj
	off int
	old V
}

// Input is a named input of a path.
type Input struct {
	Name string
	Kind string // "u8", "i64", "bool", "choice"
	t    *Term
	n    int
}

// Obs is an observation.
type Obs struct {
	Label string
	v     V
	kind  string // "str", "int", "bool"
}

// Item is a path prefix waiting to be explored.
type Item struct {
	prefix []int32
	model  map[string]uint64
}

type pathEnd struct{ why string }

// abort ends the current path.
func (w *W) abort(why string) { panic(pathEnd{why}) }

// startPath resets the path state.
func (w *W) startPath(it *Item) {
	w.prefix = it.prefix
	w.log = w.log[:0]
	w.pc = w.pc[:0]
	w.inputs = w.inputs[:0]
	w.nameCnt = map[string]int{}
	w.freshN = 0
	w.clock = 0
	w.obs = w.obs[:0]
	w.reached = w.reached[:0]
	w.steps = 0
	w.depth = 0
	w.domGen++
	w.mapOrd = 0
	w.phase = ""
	w.ran = false
	w.intStrs = w.intStrs[:0]
	w.model = Model{}

	for name, v := range it.model {
		w.model[w.ts.varByName(name)] = v
	}
}

// endPath undoes what the path did to objects made during initialisation.
func (w *W) endPath() {
	for i := len(w.trail) - 1; i >= 0; i-- {
		e := w.trail[i]
		e.o.cells[e.off] = e.old
	}

	w.trail = w.trail[:0]

	for m, c := range w.mapSaves {
		m.ents, m.idx, m.nsym, m.live = c.ents, c.idx, c.nsym, c.live
	}

	clear(w.mapSaves)

	for c, s := range w.chanSaves {
		c.buf, c.closed, c.recvq, c.sendq = s.buf, s.closed, nil, nil
	}

	clear(w.chanSaves)
	clear(w.locks)
	clear(w.wgs)
	clear(w.notifies)
	w.sp = 0
	w.frames = w.frames[:min(len(w.frames), 256)]
}

func (w *W) replaying() bool { return len(w.log) < len(w.prefix) }

// domOf gives the current domain of a byte variable.
func (w *W) domOf(v *Term) *byteSet {
	if v.domGen != w.domGen {
		v.domGen = w.domGen
		v.dom = fullSet
		v.ent = false
	}

	return &v.dom
}

// addPC adds a fact to the path condition.
func (w *W) addPC(t *Term) {
	if t == w.ts.True {
		return
	}

	if t.op == OpAnd {
		w.addPC(t.a)
		w.addPC(t.b)

		return
	}

	w.pc = append(w.pc, t)

	if t.op == OpSet {
		d := w.domOf(t.a)
		*d = d.and(*t.set)

		return
	}

	for _, v := range t.varList() {
		w.domOf(v)
		v.ent = true
	}
}

func (w *W) decideV(v V) bool {
	if v.r == nil {
		return v.n != 0
	}

	return w.decide(v.r.(*Term))
}

const (
	dFalse       = 0
	dTrue        = 1
	dForcedFalse = 2
	dForcedTrue  = 3
)

// decide picks a side of a Boolean: it explores both if both are feasible.
func (w *W) decide(t *Term) bool {
	if t.isConst() {
		return t.val != 0
	}

	if w.inInit {
		panic(engineErr{"symbolic decision during initialisation"})
	}

	if w.replaying() {
		d := w.prefix[len(w.log)]
		w.log = append(w.log, d)

		switch d {
		case dTrue:
			w.addPC(t)

			return true
		case dFalse:
			w.addPC(w.ts.Not(t))

			return false
		}

		return d == dForcedTrue
	}

	side := w.ts.Eval(t, w.model) != 0

	lit := t
	if !side {
		lit = w.ts.Not(t)
	}

	other := w.ts.Not(lit)

	ok, m := w.feasible(other)
	if !ok {
		w.st.Forced++

		d := int32(dForcedFalse)
		if side {
			d = dForcedTrue
		}

		w.log = append(w.log, d)

		return side
	}

	w.st.Forks++

	d := int32(dFalse)
	if side {
		d = dTrue
	}

	w.push(d^1, m)
	w.log = append(w.log, d)
	w.addPC(lit)

	return side
}

func (w *W) push(last int32, m Model) {
	pre := make([]int32, len(w.log)+1)
	copy(pre, w.log)
	pre[len(w.log)] = last
	mm := make(map[string]uint64, len(m))

	for v, x := range m {
		if x != 0 {
			mm[v.name] = x
		}
	}

	w.run_.push(w.id, &Item{pre, mm})
}

// feasible decides whether the path condition and t can hold together.
func (w *W) feasible(t *Term) (bool, Model) {
	if t.op == OpSet {
		d := *w.domOf(t.a)
		s := d.and(*t.set)

		if s.empty() {
			return false, nil
		}

		if !t.a.ent {
			m := make(Model, len(w.model)+1)
			for k, v := range w.model {
				m[k] = v
			}

			m[t.a] = uint64(pick(s))

			return true, m
		}
	}

	return w.query(t)
}

// pick prefers a readable member.
func pick(s byteSet) int {
	for _, r := range [][2]int{{'a', 'z'}, {'A', 'Z'}, {'0', '9'}, {33, 126}, {0, 255}} {
		for i := r[0]; i <= r[1]; i++ {
			if s.has(i) {
				return i
			}
		}
	}

	return -1
}

// query asks the solver whether the path condition and t can hold together.
func (w *W) query(t *Term) (bool, Model) {
	vars := w.allVars(t)
	w.st.Queries++

	res, m := w.solver.check(w.pc, t, vars)
	switch res {
	case resUnsat:
		return false, nil
	case resSat:
		return true, m
	}

	w.st.Unknown++
	w.abort("solver gave up")

	return false, nil
}

// allVars gives the variables of the path condition, of the inputs and of t.
func (w *W) allVars(t *Term) []*Term {
	seen := map[*Term]bool{}
	out := []*Term{}
	add := func(v *Term) {
		if !seen[v] {
			seen[v] = true

			out = append(out, v)
		}
	}

	for _, in := range w.inputs {
		if in.t != nil {
			add(in.t)
		}
	}

	for _, c := range w.pc {
		for _, v := range c.varList() {
			add(v)
		}
	}

	if t != nil {
		for _, v := range t.varList() {
			add(v)
		}
	}

	return out
}

// choose forks n ways.
func (w *W) choose(n int) int {
	if n <= 1 {
		return 0
	}

	if w.inInit {
		panic(engineErr{"choice during initialisation"})
	}

	if w.replaying() {
		d := w.prefix[len(w.log)]
		w.log = append(w.log, d)

		return int(d)
	}

	for i := n - 1; i >= 1; i-- {
		w.push(int32(i), w.model)
		w.st.Forks++
	}

	w.log = append(w.log, 0)

	return 0
}

// assume restricts the path to t.
func (w *W) assume(v V) {
	if v.r == nil {
		if v.n == 0 {
			w.abort("assumption")
		}

		return
	}

	t := v.r.(*Term)

	if w.replaying() {
		w.addPC(t)

		return
	}

	if w.ts.Eval(t, w.model) == 0 {
		ok, m := w.feasible(t)
		if !ok {
			w.abort("assumption")
		}

		w.model = m
	}

	w.addPC(t)
}

// assert checks that v holds; label names the assertion.
func (w *W) assert(v V, label string) {
	if w.replaying() {
		d := w.prefix[len(w.log)]
		w.log = append(w.log, d)

		if d == 1 {
			w.assume(v)
		}

		return
	}

	w.st.Asserts++
	w.run_.sawAssert(label)

	t := w.bterm(v)
	if t == w.ts.True {
		w.st.Folded++
		w.log = append(w.log, 0)

		return
	}

	bad, m := w.query(w.ts.Not(t))
	if !bad {
		w.log = append(w.log, 0)

		return
	}

	old := w.model
	w.model = m
	w.violation(label, "assertion failed")
	w.model = old

	if t == w.ts.False {
		w.abort("violation")
	}

	w.log = append(w.log, 1)

	if w.ts.Eval(t, w.model) == 0 {
		ok, m := w.query(t)
		if !ok {
			w.abort("violation")
		}

		w.model = m
	}

	w.addPC(t)
}

// concretize forces a symbolic integer to a value, forking over its feasible values.
func (w *W) concretize(v V, t *TInfo) uint64 {
	x, ok := v.r.(*Term)
	if !ok {
		return v.n
	}

	for i := 0; ; i++ {
		if i > 4096 {
			w.abort("too many values to concretise")
		}

		// The value to try must be the same when the path is replayed, so it cannot come from the model then:
		// it is kept in the log.
		var c uint64

		if w.replaying() {
			c = uint64(uint32(w.prefix[len(w.log)])) | uint64(uint32(w.prefix[len(w.log)+1]))<<32
		} else {
			c = w.ts.Eval(x, w.model)
		}

		w.log = append(w.log, int32(uint32(c)), int32(uint32(c>>32)))

		if w.decide(w.ts.Eq(x, w.ts.Const(c, x.w))) {
			return c
		}
	}
}

// assignment gives the concrete inputs that the model stands for.
func (w *W) assignment() map[string]any {
	out := map[string]any{}

	for _, in := range w.inputs {
		switch in.Kind {
		case "choice":
			out[in.Name] = int64(in.n)
		case "i64":
			out[in.Name] = int64(w.model[in.t])
		default:
			out[in.Name] = int64(w.model[in.t])
		}
	}

	return out
}

func (w *W) name(n string) string {
	c := w.nameCnt[n]
	w.nameCnt[n] = c + 1

	if c == 0 {
		return n
	}

	return fmt.Sprintf("%s#%d", n, c)
}

func (w *W) fresh(width uint8, tag string) *Term {
	w.freshN++

	return w.ts.Var(fmt.Sprintf("$%s%d:%d", tag, w.freshN, width), width)
}

func sortedKeys[T any](m map[string]T) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}
