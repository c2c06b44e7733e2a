package main

// Symbolic execution of C++ programs: clang lowers them to LLVM's intermediate representation, which is executed here on the
// executor's terms. The C++ library is a stand-in (cxx/), whose lowest level is the rtcg_* functions below.

import (
	"crypto/sha256"
	"fmt"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
)

type cppKey [32]byte

type cppProg struct {
	once sync.Once
	p    *llProg
	err  error
	msg  string // the compiler's complaint
}

var (
	cppMu    sync.Mutex
	cppProgs = map[cppKey]*cppProg{}
	cppUnits = map[cppKey]*cppUnit{}
	cppStat  struct{ programs, lines int }
	cppFuncs = map[string]bool{}
	cxxDir   string
)

type cppUnit struct {
	once sync.Once
	ll   string
	msg  string
	ok   bool
}

func findTool(names ...string) string {
	for _, n := range names {
		if p, err := exec.LookPath(n); err == nil {
			return p
		}
	}

	return names[0]
}

// compileCpp compiles a program, unless it was before.
func compileCpp(paths, texts, units, incs []string) *cppProg {
	h := sha256.New()
	for i := range paths {
		fmt.Fprintf(h, "%d:%s%d:%s", len(paths[i]), paths[i], len(texts[i]), texts[i])
	}

	fmt.Fprintf(h, "%q%q", units, incs)

	key := cppKey(h.Sum(nil))

	cppMu.Lock()
	c := cppProgs[key]

	if c == nil {
		c = &cppProg{}
		cppProgs[key] = c
	}
	cppMu.Unlock()

	c.once.Do(func() { c.compile(paths, texts, units, incs) })

	return c
}

func (c *cppProg) compile(paths, texts, units, incs []string) {
	dir, err := os.MkdirTemp("", "gosym-cpp-")
	if err != nil {
		c.err = err

		return
	}

	defer os.RemoveAll(dir)

	// What compiles with the real library only is beyond the stand-in.
	defer func() {
		if c.msg == "" {
			return
		}

		args := []string{"-std=c++11", "-w", "-o", "prog"}
		for _, i := range incs {
			args = append(args, "-I"+i)
		}

		cc := exec.Command("g++", append(args, units...)...)
		cc.Dir = dir

		if cc.Run() == nil {
			c.err = fmt.Errorf("beyond the stand-in library: %s", c.msg)
		}
	}()

	for i, p := range paths {
		f := filepath.Join(dir, filepath.Clean("/"+p))
		if c.err = os.MkdirAll(filepath.Dir(f), 0o755); c.err != nil {
			return
		}

		if c.err = os.WriteFile(f, []byte(texts[i]), 0o644); c.err != nil {
			return
		}
	}

	pr := &llProg{syms: []*llSym{nil}, named: map[string]*llSym{}}

	for n, u := range units {
		cu := compileUnit(dir, u, incs)
		if !cu.ok {
			c.msg = cu.msg

			return
		}

		if c.err = pr.unit(n, cu.ll); c.err != nil {
			return
		}
	}

	if pr.dup != "" {
		c.msg = "multiple definition of " + pr.dup

		return
	}

	for _, s := range pr.syms[1:] {
		if a := s.alias; a != nil && a.fn != nil {
			s.fn, s.ok = a.fn, true
		}
	}

	// The C library is linked if it is used.
	for _, s := range pr.syms[1:] {
		if s.ok || llExtern(s.name) != nil {
			continue
		}

		lib := compileLib()
		if !lib.ok {
			c.err = fmt.Errorf("library: %s", lib.msg)

			return
		}

		if strings.Contains(lib.ll, " @"+s.name+"(") {
			if c.err = pr.unit(len(units), lib.ll); c.err != nil {
				return
			}

			break
		}
	}

	// Whatever is used must be defined, as a linker would have it.
	for _, s := range pr.syms[1:] {
		if s.ok {
			continue
		}

		if f := llExtern(s.name); f != nil {
			s.fn, s.ok = &llFunc{name: s.name, ext: f}, true
		} else if s.name != "__dso_handle" && !strings.HasPrefix(s.name, "llvm.") {
			c.msg = "undefined reference to " + s.name

			return
		}
	}

	if m := pr.named["main"]; m == nil || m.fn == nil {
		c.msg = "no main"

		return
	}

	c.p = pr

	cppMu.Lock()
	cppStat.programs++
	cppStat.lines += pr.lines
	cppMu.Unlock()
}

// compileLib compiles the stand-in for the C library.
func compileLib() *cppUnit {
	libOnce.Do(func() {
		cc := exec.Command(findTool("clang++-18", "clang++"), "-std=c++11", "-O0", "-fno-exceptions", "-fno-rtti", "-fno-builtin", "-w", "-S",
			"-emit-llvm", "-o", "-", filepath.Join(cxxDir, "lib.cpp"))

		ll, err := cc.Output()
		if err != nil {
			libUnit.msg = compilerMessage(err)

			return
		}

		libUnit.ll, libUnit.ok = string(ll), true
	})

	return &libUnit
}

var (
	libOnce sync.Once
	libUnit cppUnit
)

// compileUnit compiles a unit: what the preprocessor makes of it decides whether it was compiled before.
func compileUnit(dir, unit string, incs []string) *cppUnit {
	args := []string{"-std=c++11", "-O0", "-fno-exceptions", "-fno-rtti", "-fno-threadsafe-statics", "-w", "-nostdinc++",
		"-isystem", cxxDir}
	for _, i := range incs {
		args = append(args, "-I"+i)
	}

	clang := findTool("clang++-18", "clang++")

	pre := exec.Command(clang, append(args, "-E", "-P", unit)...)
	pre.Dir = dir

	src, err := pre.Output()
	if err != nil {
		return &cppUnit{msg: compilerMessage(err)}
	}

	key := cppKey(sha256.Sum256(src))

	cppMu.Lock()
	cu := cppUnits[key]

	if cu == nil {
		cu = &cppUnit{}
		cppUnits[key] = cu
	}
	cppMu.Unlock()

	cu.once.Do(func() {
		cc := exec.Command(clang, append(args, "-S", "-emit-llvm", "-x", "c++-cpp-output", "-o", "-", "-")...)
		cc.Dir = dir
		cc.Stdin = strings.NewReader(string(src))

		ll, err := cc.Output()
		if err != nil {
			cu.msg = compilerMessage(err)

			return
		}

		cu.ll, cu.ok = string(ll), true
	})

	return cu
}

func compilerMessage(err error) string {
	if e, ok := err.(*exec.ExitError); ok && len(e.Stderr) > 0 {
		if len(e.Stderr) > 1500 {
			return string(e.Stderr[:1500])
		}

		return string(e.Stderr)
	}

	return err.Error()
}

// llObj is an object in the memory of a program.
type llObj struct {
	cells []V     // bytes; what is wider and symbolic is in its first one
	wide  []uint8 // size of what is wide at its first byte, llCont in the others; nil if nothing is
	ro    bool
	dead  bool
	heap  bool
}

const llCont = 255

type llExit struct{ code int }

type llCrash struct{ why string }

// llMach runs a program.
type llMach struct {
	w     *W
	p     *llProg
	objs  []*llObj // by id; those of symbols first
	in    []V
	inPos int
	out   []V
	err   []V
	steps int
	depth int
	limit int
	frees []int
}

func (m *llMach) crash(f string, a ...any) { panic(llCrash{fmt.Sprintf(f, a...)}) }

func (m *llMach) alloc(n int, heap bool) uint64 {
	o := &llObj{cells: make([]V, n), heap: heap}
	m.objs = append(m.objs, o)

	return uint64(len(m.objs)-1) << llShift
}

func (m *llMach) at(a V, n int) (*llObj, int) {
	if t, ok := a.r.(*Term); ok {
		a.n = m.w.concretizeT(t)
	}

	id := a.n >> llShift
	off := int(a.n & (1<<llShift - 1))

	if id == 0 {
		m.crash("null pointer")
	}

	if id >= uint64(len(m.objs)) || m.objs[id] == nil {
		m.crash("wild pointer %#x", a.n)
	}

	o := m.objs[id]
	if o.dead {
		m.crash("use of memory after its end")
	}

	if off+n > len(o.cells) {
		m.crash("access out of bounds: %d+%d of %d", off, n, len(o.cells))
	}

	return o, off
}

// split turns a wide value into bytes.
func (m *llMach) split(o *llObj, off int) {
	for o.wide[off] == llCont {
		off--
	}

	n := int(o.wide[off])
	if n == 0 {
		return
	}

	t := o.cells[off].r.(*Term)
	ts := m.w.ts

	for i := 0; i < n; i++ {
		b := t
		if i > 0 {
			b = ts.mk(OpLshr, t.w, t, ts.Const(uint64(8*i), t.w), nil)
		}

		o.cells[off+i] = normV(ts.mk(OpTrunc, 8, b, nil, nil))
		o.wide[off+i] = 0
	}
}

func normV(t *Term) V {
	if t.isConst() {
		return V{n: t.val}
	}

	return V{r: t}
}

func (m *llMach) load(a V, t *llType) V {
	switch t.kind {
	case llArr:
		out := make(Agg, t.n)
		for i := range out {
			out[i] = m.load(V{n: a.n + uint64(i*t.elem.size)}, t.elem)
		}

		return V{r: out}
	case llStruct:
		out := make(Agg, len(t.fields))
		for i := range out {
			out[i] = m.load(V{n: a.n + uint64(t.offs[i])}, t.fields[i])
		}

		return V{r: out}
	}

	o, off := m.at(a, t.size)

	v := m.loadN(o, off, t.size)

	if t.kind == llInt && int(t.w) < t.size*8 {
		return m.cast(OpTrunc, v, t.size*8, int(t.w))
	}

	if t == llF {
		return V{n: math.Float64bits(float64(math.Float32frombits(uint32(v.n))))}
	}

	return v
}

func (m *llMach) loadN(o *llObj, off, n int) V {
	if o.wide != nil {
		if int(o.wide[off]) == n {
			return o.cells[off]
		}

		for i := 0; i < n; i++ {
			if o.wide[off+i] != 0 {
				m.split(o, off+i)
			}
		}
	}

	if n == 1 {
		return o.cells[off]
	}

	var c uint64

	sym := false

	for i := 0; i < n; i++ {
		if o.cells[off+i].r != nil {
			sym = true
		}

		c |= o.cells[off+i].n << (8 * i)
	}

	if !sym {
		return V{n: c}
	}

	ts := m.w.ts
	w := uint8(8 * n)
	acc := ts.Const(0, w)

	for i := 0; i < n; i++ {
		b := ts.mk(OpZext, w, m.term(o.cells[off+i], 8), nil, nil)
		if i > 0 {
			b = ts.mk(OpShl, w, b, ts.Const(uint64(8*i), w), nil)
		}

		acc = ts.mk(OpBvOr, w, acc, b, nil)
	}

	return normV(acc)
}

func (m *llMach) store(a, v V, t *llType) {
	switch t.kind {
	case llArr:
		g, _ := v.r.(Agg)
		for i := 0; i < t.n; i++ {
			m.store(V{n: a.n + uint64(i*t.elem.size)}, g[i], t.elem)
		}

		return
	case llStruct:
		g, _ := v.r.(Agg)
		for i := range t.fields {
			m.store(V{n: a.n + uint64(t.offs[i])}, g[i], t.fields[i])
		}

		return
	}

	o, off := m.at(a, t.size)
	if o.ro {
		m.crash("write to a constant")
	}

	if t == llF {
		v = V{n: uint64(math.Float32bits(float32(math.Float64frombits(v.n))))}
	}

	if t.kind == llInt && int(t.w) < t.size*8 && v.r != nil {
		v = m.cast(OpZext, v, int(t.w), t.size*8)
	}

	m.storeN(o, off, v, t.size)
}

func (m *llMach) storeN(o *llObj, off int, v V, n int) {
	if o.wide != nil {
		for i := 0; i < n; i++ {
			if o.wide[off+i] != 0 {
				m.split(o, off+i)
			}
		}
	}

	if v.r == nil {
		for i := 0; i < n; i++ {
			o.cells[off+i] = V{n: v.n >> (8 * i) & 255}
		}

		return
	}

	o.cells[off] = v

	if n > 1 {
		if o.wide == nil {
			o.wide = make([]uint8, len(o.cells))
		}

		o.wide[off] = uint8(n)

		for i := 1; i < n; i++ {
			o.cells[off+i] = V{}
			o.wide[off+i] = llCont
		}
	}
}

// byteAt gives a byte of an object.
func (m *llMach) byteAt(o *llObj, off int) V {
	if o.wide != nil && o.wide[off] != 0 {
		m.split(o, off)
	}

	return o.cells[off]
}

func (m *llMach) move(d, s V, n int) {
	if n == 0 {
		return
	}

	so, soff := m.at(s, n)
	do, doff := m.at(d, n)

	if do.ro {
		m.crash("write to a constant")
	}

	tmp := make([]V, n)
	for i := range tmp {
		tmp[i] = m.byteAt(so, soff+i)
	}

	for i := range tmp {
		m.byteAt(do, doff+i)
		do.cells[doff+i] = tmp[i]
	}
}

func (m *llMach) term(v V, w int) *Term {
	if t, ok := v.r.(*Term); ok {
		return t
	}

	if w == 1 {
		return m.w.ts.Bool(v.n != 0)
	}

	return m.w.ts.Const(v.n, uint8(w))
}

func (w *W) concretizeT(t *Term) uint64 {
	for i := 0; ; i++ {
		if i > 64 {
			w.abort("too many addresses")
		}

		var c uint64

		if w.replaying() {
			c = uint64(uint32(w.prefix[len(w.log)])) | uint64(uint32(w.prefix[len(w.log)+1]))<<32
		} else {
			c = w.ts.Eval(t, w.model)
		}

		w.log = append(w.log, int32(uint32(c)), int32(uint32(c>>32)))

		if w.decide(w.ts.Eq(t, w.ts.Const(c, t.w))) {
			return c
		}
	}
}

// cast changes the width of an integer; those of one bit are Booleans.
func (m *llMach) cast(op Op, v V, from, to int) V {
	if v.r == nil {
		switch op {
		case OpTrunc:
			return V{n: v.n & mask(uint8(to))}
		case OpSext:
			return V{n: uint64(sx(v.n, uint8(from))) & mask(uint8(to))}
		}

		return v
	}

	t := v.r.(*Term)
	ts := m.w.ts

	if from == to {
		return v
	}

	if from == 1 {
		one := uint64(1)
		if op == OpSext {
			one = mask(uint8(to))
		}

		return normV(ts.Ite(t, ts.Const(one, uint8(to)), ts.Const(0, uint8(to))))
	}

	if to == 1 {
		b := ts.mk(OpBvAnd, t.w, t, ts.Const(1, t.w), nil)

		return normB(ts.Not(ts.Eq(b, ts.Const(0, t.w))))
	}

	return normV(ts.mk(op, uint8(to), t, nil, nil))
}

func normB(t *Term) V {
	if t.isConst() {
		return V{n: t.val & 1}
	}

	return V{r: t}
}

func (m *llMach) bin(op Op, a, b V, w int) V {
	if a.r == nil && b.r == nil {
		x, y := a.n&mask(uint8(w)), b.n&mask(uint8(w))
		if (op == OpUdiv || op == OpSdiv || op == OpUrem || op == OpSrem) && y == 0 {
			m.crash("division by zero")
		}

		if w == 1 {
			switch op {
			case OpBvAnd:
				return V{n: x & y}
			case OpBvOr:
				return V{n: x | y}
			default:
				return V{n: (x ^ y) & 1}
			}
		}

		return V{n: evalOp(op, uint8(w), uint8(w), x, y, 0) & mask(uint8(w))}
	}

	ts := m.w.ts
	x, y := m.term(a, w), m.term(b, w)

	if w == 1 {
		switch op {
		case OpBvAnd:
			return normB(ts.And(x, y))
		case OpBvOr:
			return normB(ts.Or(x, y))
		case OpBvXor, OpAdd, OpSub:
			return normB(ts.Or(ts.And(x, ts.Not(y)), ts.And(ts.Not(x), y)))
		}

		panic(engineErr{"operation on one bit"})
	}

	if op == OpUdiv || op == OpSdiv || op == OpUrem || op == OpSrem {
		if m.w.decide(ts.Eq(y, ts.Const(0, y.w))) {
			m.crash("division by zero")
		}
	}

	return normV(ts.mk(op, uint8(w), x, y, nil))
}

func (m *llMach) icmp(pred string, a, b V, w int) V {
	if w == 1 {
		a, b = m.cast(OpZext, a, 1, 8), m.cast(OpZext, b, 1, 8)
		w = 8

		if pred[0] == 's' {
			panic(engineErr{"signed comparison of single bits"})
		}
	}

	if a.r == nil && b.r == nil {
		x, y := a.n&mask(uint8(w)), b.n&mask(uint8(w))
		sxx, syy := sx(x, uint8(w)), sx(y, uint8(w))

		var r bool

		switch pred {
		case "eq":
			r = x == y
		case "ne":
			r = x != y
		case "ult":
			r = x < y
		case "ule":
			r = x <= y
		case "ugt":
			r = x > y
		case "uge":
			r = x >= y
		case "slt":
			r = sxx < syy
		case "sle":
			r = sxx <= syy
		case "sgt":
			r = sxx > syy
		case "sge":
			r = sxx >= syy
		}

		return bv(r)
	}

	ts := m.w.ts
	x, y := m.term(a, w), m.term(b, w)

	switch pred {
	case "eq":
		return normB(ts.Eq(x, y))
	case "ne":
		return normB(ts.Not(ts.Eq(x, y)))
	case "ult":
		return normB(ts.Ult(x, y))
	case "ule":
		return normB(ts.mk(OpUle, 0, x, y, nil))
	case "ugt":
		return normB(ts.Ult(y, x))
	case "uge":
		return normB(ts.mk(OpUle, 0, y, x, nil))
	case "slt":
		return normB(ts.mk(OpSlt, 0, x, y, nil))
	case "sle":
		return normB(ts.mk(OpSle, 0, x, y, nil))
	case "sgt":
		return normB(ts.mk(OpSlt, 0, y, x, nil))
	case "sge":
		return normB(ts.mk(OpSle, 0, y, x, nil))
	}

	panic(engineErr{"comparison " + pred})
}

func (m *llMach) flt(v V) float64 {
	if v.r != nil {
		panic(engineErr{"symbolic floating-point number in C++"})
	}

	return math.Float64frombits(v.n)
}

func (m *llMach) call(f *llFunc, args []V) V {
	if f.ext != nil {
		return f.ext(m.w, m, args)
	}

	if m.depth++; m.depth > 2000 {
		m.crash("stack overflow")
	}

	regs := make([]V, f.nregs)
	for i, p := range f.params {
		regs[p] = args[i]
	}

	var locals []int

	get := func(o *llOpd) V {
		if o.reg >= 0 {
			return regs[o.reg]
		}

		return o.v
	}

	b, prev := 0, -1

	for {
		blk := &f.blocks[b]
		next := -1

		// The values of phis are those from before the block.
		np := 0
		for np < len(blk.ins) && blk.ins[np].code == opPhi {
			np++
		}

		if np > 0 {
			vals := make([]V, np)

			for i := 0; i < np; i++ {
				in := &blk.ins[i]
				for j, from := range in.to {
					if from == prev {
						vals[i] = get(&in.a[j])
					}
				}
			}

			for i := 0; i < np; i++ {
				regs[blk.ins[i].dst] = vals[i]
			}
		}

		m.steps += len(blk.ins)
		m.w.steps += int64(len(blk.ins))

		if m.steps > m.limit {
			panic(llExit{-3})
		}

		for i := np; i < len(blk.ins); i++ {
			in := &blk.ins[i]

			var v V

			switch in.code {
			case opAlloca:
				n := in.ty.size
				if len(in.a) > 0 {
					n *= int(get(&in.a[0]).n)
				}

				v = V{n: m.alloc(n, false)}
				locals = append(locals, int(v.n>>llShift))
			case opLoad:
				v = m.load(get(&in.a[0]), in.ty)
			case opStore:
				m.store(get(&in.a[1]), get(&in.a[0]), in.ty)

				continue
			case opGEP:
				v = get(&in.a[0])
				if v.r != nil {
					v = V{n: m.w.concretizeT(v.r.(*Term))}
				}

				v.n += uint64(in.off)

				for j, s := range in.scales {
					x := get(&in.a[j+1])
					if x.r != nil {
						x = V{n: m.w.concretizeT(x.r.(*Term))}
					}

					v.n += uint64(sx(x.n, uint8(in.byval[j])) * int64(s))
				}
			case opCall:
				callee := get(&in.a[0])
				if callee.r != nil {
					panic(engineErr{"symbolic function pointer"})
				}

				id := callee.n >> llShift
				if id == 0 {
					m.crash("call of a null pointer")
				}

				if id >= uint64(len(m.p.syms)) || m.p.syms[id] == nil {
					m.crash("call of what is no function")
				}

				s := m.p.syms[id]
				if s.fn == nil {
					if strings.HasPrefix(s.name, "llvm.") {
						panic(engineErr{"C++ intrinsic " + s.name})
					}

					m.crash("call of what is no function: %s", s.name)
				}

				as := make([]V, len(in.a)-1)
				for j := range as {
					as[j] = get(&in.a[j+1])

					if n := in.byval[j]; n > 0 {
						c := V{n: m.alloc(n, false)}
						m.move(c, as[j], n)
						as[j] = c
					}
				}

				v = m.call(s.fn, as)
			case opBr:
				next = in.to[0]
			case opCondBr:
				c := get(&in.a[0])
				yes := c.n != 0

				if t, ok := c.r.(*Term); ok {
					yes = m.w.decide(t)
				}

				next = in.to[1]
				if yes {
					next = in.to[0]
				}
			case opSwitch:
				c := get(&in.a[0])
				if t, ok := c.r.(*Term); ok {
					c = V{n: m.w.concretizeT(t)}
				}

				next = in.to[0]

				for j, k := range in.cases {
					if k == c.n {
						next = in.to[j+1]
					}
				}
			case opRet:
				if len(in.a) > 0 {
					v = get(&in.a[0])
				}

				for _, l := range locals {
					m.objs[l].dead = true
					m.objs[l].cells = nil
				}

				m.depth--

				return v
			case opUnreachable:
				m.crash("unreachable code is reached")
			case opICmp:
				w := 64
				if in.ty2.kind == llInt {
					w = int(in.ty2.w)
				}

				v = m.icmp(in.pred, get(&in.a[0]), get(&in.a[1]), w)
			case opFCmp:
				x, y := m.flt(get(&in.a[0])), m.flt(get(&in.a[1]))
				nan := x != x || y != y
				r := false

				switch in.pred[1:] {
				case "eq":
					r = x == y
				case "ne":
					r = !nan && x != y
				case "lt":
					r = x < y
				case "le":
					r = x <= y
				case "gt":
					r = x > y
				case "ge":
					r = x >= y
				case "rd":
					r = !nan
				case "no":
					r = nan
				}

				if in.pred[0] == 'u' && in.pred != "uno" {
					r = r || nan
				}

				v = bv(r)
			case opBin:
				a, c := get(&in.a[0]), get(&in.a[1])

				if in.ty.kind == llFloat {
					x, y := m.flt(a), m.flt(c)

					var r float64

					switch in.op {
					case "fadd":
						r = x + y
					case "fsub":
						r = x - y
					case "fmul":
						r = x * y
					case "fdiv":
						r = x / y
					case "frem":
						r = math.Mod(x, y)
					}

					if in.ty == llF {
						r = float64(float32(r))
					}

					v = V{n: math.Float64bits(r)}

					break
				}

				v = m.bin(llBins[in.op], a, c, int(in.ty.w))
			case opCast:
				v = m.castTo(in, get(&in.a[0]))
			case opSelect:
				c := get(&in.a[0])
				x, y := get(&in.a[1]), get(&in.a[2])
				t, ok := c.r.(*Term)

				switch {
				case !ok && c.n != 0:
					v = x
				case !ok:
					v = y
				case in.ty.kind == llInt && in.ty.w > 1:
					v = normV(m.w.ts.Ite(t, m.term(x, int(in.ty.w)), m.term(y, int(in.ty.w))))
				case m.w.decide(t):
					v = x
				default:
					v = y
				}
			case opExtract:
				v = get(&in.a[0])
				for _, j := range in.to {
					v = v.r.(Agg)[j]
				}
			case opInsert:
				v = insertLL(get(&in.a[0]), get(&in.a[1]), in.to)
			case opFreeze:
				v = get(&in.a[0])
			case opFNeg:
				v = V{n: math.Float64bits(-m.flt(get(&in.a[0])))}
			default:
				panic(engineErr{"C++ instruction " + in.text})
			}

			if in.dst >= 0 {
				regs[in.dst] = v
			}
		}

		prev, b = b, next
	}
}

func insertLL(a, v V, path []int) V {
	if len(path) == 0 {
		return v
	}

	g := append(Agg{}, a.r.(Agg)...)
	g[path[0]] = insertLL(g[path[0]], v, path[1:])

	return V{r: g}
}

func (m *llMach) castTo(in *llInstr, v V) V {
	from, to := int(in.ty2.w), int(in.ty.w)

	switch in.op {
	case "zext":
		return m.cast(OpZext, v, from, to)
	case "sext":
		return m.cast(OpSext, v, from, to)
	case "trunc":
		return m.cast(OpTrunc, v, from, to)
	case "ptrtoint", "inttoptr":
		if to < from {
			return m.cast(OpTrunc, v, from, to)
		}

		return m.cast(OpZext, v, from, to)
	case "bitcast":
		if in.ty.kind == in.ty2.kind {
			return v
		}
	case "sitofp", "uitofp":
		if v.r != nil {
			panic(engineErr{"symbolic floating-point number in C++"})
		}

		f := float64(v.n)
		if in.op == "sitofp" {
			f = float64(sx(v.n, uint8(from)))
		}

		if in.ty == llF {
			f = float64(float32(f))
		}

		return V{n: math.Float64bits(f)}
	case "fptosi":
		return V{n: uint64(int64(m.flt(v))) & mask(uint8(to))}
	case "fptoui":
		return V{n: uint64(m.flt(v)) & mask(uint8(to))}
	case "fpext":
		return v
	case "fptrunc":
		return V{n: math.Float64bits(float64(float32(m.flt(v))))}
	}

	panic(engineErr{"C++ cast " + in.text})
}

// llExtern gives what the program does not define itself.
func llExtern(name string) func(w *W, m *llMach, a []V) V {
	nop := func(w *W, m *llMach, a []V) V { return V{} }
	size := func(m *llMach, v V) int {
		if v.r != nil {
			v = V{n: m.w.concretizeT(v.r.(*Term))}
		}

		if v.n >= 1<<llShift {
			panic(engineErr{"large allocation in C++"})
		}

		return int(v.n)
	}

	for _, p := range []string{"llvm.lifetime.", "llvm.dbg.", "llvm.stacksave", "llvm.stackrestore", "llvm.assume", "llvm.experimental.noalias"} {
		if strings.HasPrefix(name, p) {
			return nop
		}
	}

	switch {
	case strings.HasPrefix(name, "llvm.memcpy.") || strings.HasPrefix(name, "llvm.memmove."):
		return func(w *W, m *llMach, a []V) V { m.move(a[0], a[1], size(m, a[2])); return V{} }
	case strings.HasPrefix(name, "llvm.memset."):
		return func(w *W, m *llMach, a []V) V { m.fill(a[0], a[1], size(m, a[2])); return V{} }
	case strings.HasPrefix(name, "llvm.expect."):
		return func(w *W, m *llMach, a []V) V { return a[0] }
	case name == "llvm.trap":
		return func(w *W, m *llMach, a []V) V { m.crash("trap"); return V{} }
	}

	switch name {
	case "_Znwm", "_Znam", "malloc":
		return func(w *W, m *llMach, a []V) V { return V{n: m.alloc(size(m, a[0]), true)} }
	case "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "free":
		return func(w *W, m *llMach, a []V) V {
			if a[0].n != 0 {
				o, off := m.at(a[0], 0)
				if off != 0 || !o.heap {
					m.crash("release of what was not allocated")
				}

				o.dead = true
			}

			return V{}
		}
	case "memcpy", "memmove":
		return func(w *W, m *llMach, a []V) V { m.move(a[0], a[1], size(m, a[2])); return a[0] }
	case "memset":
		return func(w *W, m *llMach, a []V) V { m.fill(a[0], m.cast(OpTrunc, a[1], 32, 8), size(m, a[2])); return a[0] }
	case "memcmp", "bcmp":
		return func(w *W, m *llMach, a []V) V { return m.compare(a[0], a[1], size(m, a[2])) }
	case "strlen":
		return func(w *W, m *llMach, a []V) V {
			o, off := m.at(a[0], 0)
			for n := 0; ; n++ {
				if off+n >= len(o.cells) {
					m.crash("string without an end")
				}

				b := m.byteAt(o, off+n)
				if b.r == nil && b.n == 0 || b.r != nil && w.decide(w.ts.Eq(b.r.(*Term), w.ts.Const(0, 8))) {
					return V{n: uint64(n)}
				}
			}
		}
	case "__cxa_atexit", "__cxa_guard_release":
		return nop
	case "__cxa_pure_virtual":
		return func(w *W, m *llMach, a []V) V { m.crash("call of a pure virtual function"); return V{} }
	case "abort", "_ZSt9terminatev":
		return func(w *W, m *llMach, a []V) V { m.crash("abort"); return V{} }
	case "exit", "_exit", "_Exit":
		return func(w *W, m *llMach, a []V) V { panic(llExit{int(a[0].n & 255)}) }
	case "rtcg_getc":
		return func(w *W, m *llMach, a []V) V {
			if m.inPos >= len(m.in) {
				m.inPos++

				return V{n: mask(32)}
			}

			c := m.in[m.inPos]
			m.inPos++

			return m.cast(OpZext, c, 8, 32)
		}
	case "rtcg_peekc":
		return func(w *W, m *llMach, a []V) V {
			if m.inPos >= len(m.in) {
				return V{n: mask(32)}
			}

			return m.cast(OpZext, m.in[m.inPos], 8, 32)
		}
	case "rtcg_write":
		return func(w *W, m *llMach, a []V) V {
			n := size(m, a[2])
			if n == 0 {
				return V{}
			}

			o, off := m.at(a[1], n)
			for i := 0; i < n; i++ {
				if a[0].n == 2 {
					m.err = append(m.err, m.byteAt(o, off+i))
				} else {
					m.out = append(m.out, m.byteAt(o, off+i))
				}
			}

			return V{}
		}
	case "rtcg_number":
		// Digits of symbolic numbers are not looked at.
		return func(w *W, m *llMach, a []V) V {
			s := "#"
			if a[1].r == nil {
				s = fmt.Sprint(int64(a[1].n))
				if a[2].n != 0 {
					s = fmt.Sprint(a[1].n)
				}
			}

			for i := 0; i < len(s); i++ {
				if a[0].n == 2 {
					m.err = append(m.err, V{n: uint64(s[i])})
				} else {
					m.out = append(m.out, V{n: uint64(s[i])})
				}
			}

			return V{}
		}
	}

	return nil
}

func (m *llMach) fill(d, v V, n int) {
	if n == 0 {
		return
	}

	o, off := m.at(d, n)
	if o.ro {
		m.crash("write to a constant")
	}

	for i := 0; i < n; i++ {
		m.byteAt(o, off+i)
		o.cells[off+i] = v
	}
}

// compare is memcmp, as one term.
func (m *llMach) compare(a, b V, n int) V {
	if n == 0 {
		return V{}
	}

	x, xo := m.at(a, n)
	y, yo := m.at(b, n)
	ts := m.w.ts
	acc := V{}

	for i := n - 1; i >= 0; i-- {
		p, q := m.byteAt(x, xo+i), m.byteAt(y, yo+i)

		if p.r == nil && q.r == nil {
			if p.n < q.n {
				acc = V{n: mask(32)}
			} else if p.n > q.n {
				acc = V{n: 1}
			}

			continue
		}

		s, t := m.term(p, 8), m.term(q, 8)
		acc = normV(ts.Ite(ts.Eq(s, t), m.term(acc, 32), ts.Ite(ts.Ult(s, t), ts.Const(mask(32), 32), ts.Const(1, 32))))
	}

	return acc
}

// runCpp runs a program's main function.
func (w *W) runCpp(c *cppProg, input []V) (code int, out, errs V) {
	m := &llMach{w: w, p: c.p, in: input, limit: 2000000}
	m.objs = make([]*llObj, len(c.p.syms), 4*len(c.p.syms)+256)

	finish := func() {
		out, errs = mkStr(m.out), mkStr(m.err)
	}

	defer func() {
		switch r := recover().(type) {
		case nil:
		case llExit:
			code = r.code
			finish()
		case llCrash:
			code = -2

			if verbose {
				fmt.Fprintf(os.Stderr, "    C++ crashes: %s after %d steps\n", r.why, m.steps)
			}

			m.err = append(m.err, strBytes(sv(r.why))...)
			finish()
		default:
			panic(r)
		}
	}()

	for id, s := range c.p.syms {
		if s == nil || s.ty == nil {
			continue
		}

		o := &llObj{cells: make([]V, s.ty.size)}
		m.objs[id] = o
		m.store(V{n: s.addr()}, s.init, s.ty)
		o.ro = s.ro
	}

	for _, f := range c.p.ctors {
		m.call(f.fn, nil)
	}

	mainF := c.p.named["main"].fn
	args := []V{{n: 1}, {}}
	// argv: the name of the program.
	argv := m.alloc(16, false)
	name := m.alloc(2, false)
	m.objs[name>>llShift].cells[0] = V{n: 't'}
	m.store(V{n: argv}, V{n: name}, llP)
	args[1] = V{n: argv}

	r := m.call(mainF, args[:len(mainF.params)])

	code = int(m.concrete(r) & 255)
	finish()

	return code, out, errs
}

func (m *llMach) concrete(v V) uint64 {
	if t, ok := v.r.(*Term); ok {
		return m.w.concretizeT(t)
	}

	return v.n
}

func strSlice(w *W, v V) []string {
	s, _ := v.r.(*Slice)
	if s == nil {
		return nil
	}

	out := make([]string, s.len)
	for i := range out {
		out[i] = w.str(s.obj.cells[s.off+i])
	}

	return out
}

// symCpp is sym.Cpp(paths, texts, units, incs []string, input string) (int, string, string).
func symCpp(w *W, a []V) V {
	paths, texts := strSlice(w, a[0]), strSlice(w, a[1])
	units, incs := strSlice(w, a[2]), strSlice(w, a[3])

	c := compileCpp(paths, texts, units, incs)
	if c.err != nil {
		panic(engineErr{"C++: " + c.err.Error()})
	}

	if c.p == nil {
		if verbose {
			fmt.Fprintf(os.Stderr, "    C++ does not compile: %s\n", c.msg)
		}

		return V{r: Agg{{n: mask(64)}, sv(""), sv(c.msg)}}
	}

	code, out, errs := w.runCpp(c, strBytes(a[4]))

	return V{r: Agg{iret(code), out, errs}}
}

// cppFunctions lists the functions that were encoded.
func cppFunctions() []string {
	cppMu.Lock()
	defer cppMu.Unlock()

	seen := map[string]bool{}

	for _, c := range cppProgs {
		if c.p == nil {
			if verbose {
				fmt.Fprintf(os.Stderr, "    C++ does not compile: %s\n", c.msg)
			}

			continue
		}

		for _, s := range c.p.syms[1:] {
			if s.fn != nil && s.fn.ext == nil && (strings.Contains(s.name, "StateMachine") || strings.Contains(s.name, "4rtcg") || strings.Contains(s.name, "Verdict") || s.name == "main") {
				seen["c++ "+s.name] = true
			}
		}
	}

	var out []string
	for n := range seen {
		out = append(out, n)
	}

	sort.Strings(out)

	return out
}
