package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Goroutines of the interpreted program are coroutines: one runs at a time, and hands over where it blocks, where it
// ends and, depending on the schedule, elsewhere. The schedule of a path is a choice, made at its first go statement.

const (
	schedEager   = iota // New goroutines run at once, until they block.
	schedLazy           // Goroutines run once what started them blocks, the oldest first.
	schedNewest         // Goroutines run once what started them blocks, the latest first.
	schedPreempt        // Goroutines take turns, at every synchronisation, system call and call of a function of the repository.
	schedStores  // Goroutines run once what started them blocks, and take turns before each write to memory they may share.
	numScheds
)

// gor is a goroutine of the interpreted program.
type gor struct {
	id        int
	base      int64 // objects with larger numbers were made after the goroutine started
	slab      []V
	sp, depth int
	frames    []*Frame
	wake      chan bool // false: the path is over
	wait      func() bool
}

type sched struct {
	mode      int
	cur, main *gor
	live      []*gor // in order of creation
	nid       int
	raise     any // what main is to panic with
	writing   map[*MapObj]*gor
	ended     chan bool
}

// crash is a panic that ends the whole program, and cannot be recovered from.
type crash struct{ gp *goPanic }

// killed unwinds a goroutine that is not needed any more.
type killed struct{}

func uncrash(r any) any {
	if c, ok := r.(crash); ok {
		return c.gp
	}

	return r
}

func (w *W) sched() *sched {
	if w.sch == nil {
		m := &gor{wake: make(chan bool)}
		w.sch = &sched{mode: -1, cur: m, main: m, live: []*gor{m}, ended: make(chan bool)}
	}

	return w.sch
}

// goStmt starts a goroutine.
func (w *W) goStmt(run func(w *W)) {
	if w.inInit {
		run(w)

		return
	}

	s := w.sched()
	if s.mode < 0 {
		s.mode = w.choose(numScheds)
		w.ran = true
		s.main.base = w.nobj
	}

	s.nid++
	g := &gor{id: s.nid, base: w.nobj, slab: make([]V, 4096), wake: make(chan bool)}
	s.live = append(s.live, g)

	go func() {
		if !<-g.wake {
			s.ended <- true

			return
		}

		defer func() {
			r := recover()
			if _, ok := r.(killed); ok {
				s.ended <- true

				return
			}

			s.drop(g)

			next := s.main

			switch r := r.(type) {
			case nil:
				if next = s.pick(g); next == nil {
					next, s.raise = s.main, w.deadlock()
				}
			case *goPanic:
				s.raise = crash{r}
			default:
				s.raise = r
			}

			w.resume(next)
			next.wake <- true
		}()

		run(w)
	}()

	if s.mode == schedEager {
		w.switchTo(g)
	}
}

func (w *W) deadlock() crash {
	t := w.p.typeByName("runtime", "errorString")

	return crash{w.newPanic(V{r: &Iface{t, sv("all goroutines are asleep - deadlock!")}}, "")}
}

func (s *sched) drop(g *gor) {
	for i, x := range s.live {
		if x == g {
			s.live = append(s.live[:i:i], s.live[i+1:]...)

			return
		}
	}
}

// pick gives the goroutine to run when c cannot go on, if any.
func (s *sched) pick(c *gor) *gor {
	ready := func(g *gor) bool { return g != c && (g.wait == nil || g.wait()) }

	if s.mode == schedNewest {
		for i := len(s.live) - 1; i >= 0; i-- {
			if ready(s.live[i]) {
				return s.live[i]
			}
		}

		return nil
	}

	// The next one in turn.
	for _, later := range []bool{true, false} {
		for _, g := range s.live {
			if g.id > c.id == later && ready(g) {
				return g
			}
		}
	}

	return nil
}

// resume makes g the goroutine that runs.
func (w *W) resume(g *gor) {
	w.slab, w.sp, w.depth, w.frames = g.slab, g.sp, g.depth, g.frames
	g.wait = nil
	w.sch.cur = g
}

// switchTo hands over to g, and returns once it is the current goroutine's turn again.
func (w *W) switchTo(g *gor) {
	s := w.sch
	c := s.cur
	c.slab, c.sp, c.depth, c.frames = w.slab, w.sp, w.depth, w.frames
	w.resume(g)
	g.wake <- true

	if !<-c.wake {
		panic(killed{})
	}

	if c == s.main && s.raise != nil {
		r := s.raise
		s.raise = nil

		panic(r)
	}
}

// block waits until ready holds.
func (w *W) block(ready func() bool) {
	for !ready() {
		s := w.sched()
		c := s.cur

		next := s.pick(c)
		if next == nil {
			d := w.deadlock()

			if c == s.main || w.inInit {
				panic(d)
			}

			s.raise = d
			next = s.main
		}

		c.wait = ready
		w.switchTo(next)
		c.wait = nil
	}
}

// yield lets another goroutine run, if there is one that can.
func (w *W) yield() {
	s := w.sch
	if s == nil || len(s.live) == 1 {
		return
	}

	c := s.cur

	// In turn, whatever the schedule, so that nobody starves.
	for _, later := range []bool{true, false} {
		for _, g := range s.live {
			if g.id > c.id == later && g != c && (g.wait == nil || g.wait()) {
				w.switchTo(g)

				return
			}
		}
	}
}

// preempt lets another goroutine run, if that is the schedule.
func (w *W) preempt() {
	if w.sch != nil && w.sch.mode == schedPreempt {
		w.yield()
	}
}

// shared is called before a write to o.
func (w *W) shared(o *Obj) {
	if w.sch.mode == schedStores && o.id <= w.sch.cur.base {
		w.yield()
	}
}

// mapWrite changes m with f, in several steps: nobody else may use m meanwhile.
func (w *W) mapWrite(m *MapObj, f func()) {
	s := w.sch
	if s == nil || s.mode != schedStores || len(s.live) == 1 {
		f()

		return
	}

	w.mapUse(m, "concurrent map writes")

	if s.writing == nil {
		s.writing = map[*MapObj]*gor{}
	}

	s.writing[m] = s.cur

	w.yield()
	delete(s.writing, m)
	f()
}

// mapUse ends the program if someone is writing m.
func (w *W) mapUse(m *MapObj, msg string) {
	if s := w.sch; s != nil && s.writing[m] != nil {
		w.fatal(msg)
	}
}

// mark gives a mark for killSince.
func (w *W) mark() int {
	if w.sch == nil {
		return 0
	}

	return w.sch.nid
}

// killSince ends all goroutines that were started since mark; it must be called by the goroutine that made the mark.
func (w *W) killSince(mark int) {
	s := w.sch
	if s == nil {
		return
	}

	slab, sp, depth, frames, cur := w.slab, w.sp, w.depth, w.frames, s.cur

	for _, g := range append([]*gor(nil), s.live...) {
		if g.id > mark && g != s.main {
			g.wake <- false
			<-s.ended
			s.drop(g)
		}
	}

	w.slab, w.sp, w.depth, w.frames, s.cur = slab, sp, depth, frames, cur
	s.raise, s.writing = nil, nil
}

// --- Locks

type lock struct {
	writer  bool
	readers int
}

func (w *W) lockOf(v V) *lock {
	o, _ := v.r.(*Obj)
	if o == nil {
		w.panicNil()
	}

	k := syncKey{o, v.n}

	l := w.locks[k]
	if l == nil {
		l = &lock{}
		w.locks[k] = l
	}

	return l
}

func (w *W) fatal(msg string) {
	t := w.p.typeByName("runtime", "errorString")

	panic(crash{w.newPanic(V{r: &Iface{t, sv(msg)}}, msg)})
}

func (w *W) lock(v V) V {
	l := w.lockOf(v)

	w.preempt()

	if l.writer || l.readers > 0 {
		w.block(func() bool { return !l.writer && l.readers == 0 })
	}

	l.writer = true

	return V{}
}

func (w *W) tryLock(v V) V {
	l := w.lockOf(v)
	if l.writer || l.readers > 0 {
		return V{}
	}

	l.writer = true

	return V{n: 1}
}

func (w *W) unlock(v V) V {
	l := w.lockOf(v)
	if !l.writer {
		w.fatal("sync: unlock of unlocked mutex")
	}

	l.writer = false

	w.preempt()

	return V{}
}

func (w *W) rlock(v V) V {
	l := w.lockOf(v)

	w.preempt()

	if l.writer {
		w.block(func() bool { return !l.writer })
	}

	l.readers++

	return V{}
}

func (w *W) tryRLock(v V) V {
	l := w.lockOf(v)
	if l.writer {
		return V{}
	}

	l.readers++

	return V{n: 1}
}

func (w *W) runlock(v V) V {
	l := w.lockOf(v)
	if l.readers == 0 {
		w.fatal("sync: RUnlock of unlocked RWMutex")
	}

	l.readers--

	w.preempt()

	return V{}
}

// --- Wait groups

func (w *W) wgOf(v V) *int {
	o, _ := v.r.(*Obj)
	if o == nil {
		w.panicNil()
	}

	k := syncKey{o, v.n}

	n := w.wgs[k]
	if n == nil {
		n = new(int)
		w.wgs[k] = n
	}

	return n
}

func (w *W) wgAdd(v V, d int) V {
	n := w.wgOf(v)

	if *n += d; *n < 0 {
		panic(w.newPanic(V{r: &Iface{w.p.t.str, sv("sync: negative WaitGroup counter")}}, ""))
	}

	if d < 0 {
		w.preempt()
	}

	return V{}
}

func (w *W) wgWait(v V) V {
	n := w.wgOf(v)

	w.preempt()
	w.block(func() bool { return *n == 0 })

	return V{}
}

func (w *W) wgGo(v, f V) V {
	w.wgAdd(v, 1)
	w.goStmt(func(w *W) {
		w.callFn(f, nil)
		w.wgAdd(v, -1)
	})

	return V{}
}

// --- Condition variables

type notifyList struct{ next, notified int }

func (w *W) notifyOf(v V) *notifyList {
	k := syncKey{v.r.(*Obj), v.n}

	l := w.notifies[k]
	if l == nil {
		l = &notifyList{}
		w.notifies[k] = l
	}

	return l
}

// --- Channels

type waiter struct {
	tok *wtoken
	idx int
	v   V
}

// wtoken says what became of something that waits, be it on one channel or on several.
type wtoken struct {
	fired  bool
	idx    int
	v      V
	ok     bool
	closed bool // a channel that it sends on was closed
}

// ChanObj is a channel.
type ChanObj struct {
	id           int64
	buf          []V
	cap          int
	closed       bool
	recvq, sendq []*waiter
	init         bool // made during initialisation
}

func (w *W) makeChan(n int) V {
	w.nobj++

	return V{r: &ChanObj{id: w.nobj, cap: n, init: w.inInit}}
}

// mut is called before c changes.
func (w *W) chanMut(c *ChanObj) {
	if !c.init || w.inInit || w.chanSaves[c] != nil {
		return
	}

	w.chanSaves[c] = &ChanObj{buf: append([]V(nil), c.buf...), closed: c.closed}
}

// waiting gives the first of q that still waits.
func waiting(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		if !x.tok.fired {
			return x
		}

		*q = (*q)[1:]
	}

	return nil
}

func (c *ChanObj) canSend() bool {
	return c.closed || len(c.buf) < c.cap || waiting(&c.recvq) != nil
}

func (c *ChanObj) canRecv() bool { return len(c.buf) > 0 || c.closed || waiting(&c.sendq) != nil }

// send sends on a channel that can be sent on.
func (w *W) chanSend(c *ChanObj, v V) {
	w.chanMut(c)

	if c.closed {
		w.plainError("send on closed channel")
	}

	if x := waiting(&c.recvq); x != nil {
		c.recvq = c.recvq[1:]
		*x.tok = wtoken{fired: true, idx: x.idx, v: v, ok: true}

		return
	}

	c.buf = append(c.buf, v)
}

// recv receives from a channel that can be received from.
func (w *W) chanRecv(c *ChanObj, et *TInfo) (V, bool) {
	w.chanMut(c)

	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]

		if x := waiting(&c.sendq); x != nil {
			c.sendq = c.sendq[1:]
			c.buf = append(c.buf, x.v)
			*x.tok = wtoken{fired: true, idx: x.idx}
		}

		return v, true
	}

	if x := waiting(&c.sendq); x != nil {
		c.sendq = c.sendq[1:]
		*x.tok = wtoken{fired: true, idx: x.idx}

		return x.v, true
	}

	return zero(et), false
}

func (w *W) plainError(msg string) {
	w.panicRT(msg)
}

func (w *W) chanClose(v V) V {
	c, _ := v.r.(*ChanObj)
	if c == nil {
		w.plainError("close of nil channel")
	}

	w.chanMut(c)

	if c.closed {
		w.plainError("close of closed channel")
	}

	c.closed = true

	for x := waiting(&c.recvq); x != nil; x = waiting(&c.recvq) {
		*x.tok = wtoken{fired: true, idx: x.idx}
	}

	for x := waiting(&c.sendq); x != nil; x = waiting(&c.sendq) {
		*x.tok = wtoken{fired: true, idx: x.idx, closed: true}
	}

	w.preempt()

	return V{}
}

func never() bool { return false }

func (w *W) opSend(cv, v V) {
	w.preempt()

	c, _ := cv.r.(*ChanObj)
	if c == nil {
		w.block(never)
	}

	if c.canSend() {
		w.chanSend(c, v)

		return
	}

	tok := &wtoken{}
	c.sendq = append(c.sendq, &waiter{tok: tok, v: v})
	w.block(func() bool { return tok.fired })

	if tok.closed {
		w.plainError("send on closed channel")
	}
}

func (w *W) opRecv(cv V, et *TInfo) (V, bool) {
	w.preempt()

	c, _ := cv.r.(*ChanObj)
	if c == nil {
		w.block(never)
	}

	if c.canRecv() {
		return w.chanRecv(c, et)
	}

	tok := &wtoken{}
	c.recvq = append(c.recvq, &waiter{tok: tok})
	w.block(func() bool { return tok.fired })

	if !tok.ok {
		return zero(et), false
	}

	return tok.v, true
}

type selCase struct {
	send bool
	c, x *opd
	et   *TInfo
}

func (c *comp) selectStmt(in *ssa.Select) instr {
	d := c.reg(in)
	tt := c.ty(in.Type())
	cases := make([]selCase, len(in.States))

	for i, st := range in.States {
		cases[i] = selCase{send: st.Dir == types.SendOnly, c: c.opd(st.Chan), et: c.ty(st.Chan.Type()).elem}
		if st.Send != nil {
			cases[i].x = c.opd(st.Send)
		}
	}

	blocking := in.Blocking

	return func(w *W, fr *Frame) {
		w.preempt()

		chans := make([]*ChanObj, len(cases))
		sends := make([]V, len(cases))

		var ready []int

		for i, cs := range cases {
			chans[i], _ = cs.c.get(w, fr).r.(*ChanObj)

			if cs.send {
				sends[i] = cs.x.get(w, fr)
			}

			if chans[i] != nil && (cs.send && chans[i].canSend() || !cs.send && chans[i].canRecv()) {
				ready = append(ready, i)
			}
		}

		idx, ok := -1, false

		var v V

		switch {
		case len(ready) > 0:
			idx = ready[w.choose(len(ready))]

			if cases[idx].send {
				w.chanSend(chans[idx], sends[idx])
			} else {
				v, ok = w.chanRecv(chans[idx], cases[idx].et)
			}
		case blocking:
			tok := &wtoken{}

			for i, cs := range cases {
				if chans[i] == nil {
					continue
				}

				x := &waiter{tok: tok, idx: i, v: sends[i]}

				if cs.send {
					chans[i].sendq = append(chans[i].sendq, x)
				} else {
					chans[i].recvq = append(chans[i].recvq, x)
				}
			}

			w.block(func() bool { return tok.fired })

			if tok.closed {
				w.plainError("send on closed channel")
			}

			idx, ok, v = tok.idx, tok.ok, tok.v
			if !cases[idx].send && !ok {
				v = zero(cases[idx].et)
			}
		}

		// The index, whether something was received, and what each receiving case received.
		a := make(Agg, tt.size)
		a[0] = iret(idx)
		a[1] = bv(ok)

		k := 2

		for i, cs := range cases {
			if cs.send {
				continue
			}

			f := tt.fields[k]
			k++

			x := zero(cs.et)
			if i == idx {
				x = v
			}

			copyFlat(a[f.off:], x, f.t)
		}

		fr.r[d] = V{r: a}
	}
}
