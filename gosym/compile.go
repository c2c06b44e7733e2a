package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// Prog is the loaded program.
type Prog struct {
	prog    *ssa.Program
	types   *Types
	mu      sync.Mutex
	fns     map[*ssa.Function]*CFn
	globIdx map[*ssa.Global]int
	globs   []*ssa.Global
	globN   atomic.Int32
	msMu    sync.Mutex
	byPath  map[string]*ssa.Package
	repoMod string
	embeds  map[*ssa.Global]*EmbedSpec
	fnsRun  sync.Map // *CFn -> bool: functions of the repository that ran
	tbn     sync.Map
	deps    sync.Map
	tErr    *TInfo
	t       struct {
		str, boolT, i64, u8, rune_, any, uintptr_, f64, f32 *TInfo
	}
}

// CFn is a compiled function.
type CFn struct {
	fn       *ssa.Function
	p        *Prog
	name     string
	pkg      string
	repo     bool
	ready    atomic.Bool
	once     sync.Mutex
	intr     Intrinsic
	redirect *CFn
	nparams  int
	nregs    int
	blocks   []*cblock
	hasDefer bool
	recover_ *cblock
	res      *TInfo
	seen     atomic.Bool
	err      error
	zeroRes  bool
	isInit   bool
}

// Intrinsic implements a function natively.
type Intrinsic func(w *W, args []V) V

type instr func(w *W, fr *Frame)

type cblock struct {
	idx   int
	ins   []instr
	term  func(w *W, fr *Frame) *cedge // nil: return
	cost  int64
	pos   []token.Pos
	index int
}

type cedge struct {
	to    *cblock
	moves []move
}

type move struct {
	dst int
	src opd
}

// Frame is an activation.
type Frame struct {
	r      []V
	fn     *CFn
	res    V
	defers []deferred
	panic_ *goPanic
	recov  bool
	caller *Frame
	defOf  *Frame // the frame whose deferred call this is
}

type deferred struct {
	f    func(w *W, d *Frame)
}

// goPanic is a panic of the interpreted program.
type goPanic struct {
	v         V // interface
	recovered bool
	where     string
	goexit    bool
	stack     string
}

type opd struct {
	idx int // register, or -1
	c   V
	g   int // global index+1
}

func (o *opd) get(w *W, fr *Frame) V {
	if o.idx >= 0 {
		return fr.r[o.idx]
	}

	if o.g > 0 {
		return V{r: w.global(o.g - 1)}
	}

	return o.c
}

func (p *Prog) fn(f *ssa.Function) *CFn {
	p.mu.Lock()
	defer p.mu.Unlock()

	c := p.fns[f]
	if c == nil {
		c = &CFn{fn: f, p: p, name: fnName(f)}
		c.nparams = len(f.Params)

		if f.Pkg != nil {
			c.pkg = f.Pkg.Pkg.Path()
		} else if o := f.Origin(); o != nil && o.Pkg != nil {
			c.pkg = o.Pkg.Pkg.Path()
		} else if f.Parent() != nil && f.Parent().Pkg != nil {
			c.pkg = f.Parent().Pkg.Pkg.Path()
		}

		c.repo = strings.HasPrefix(c.pkg, p.repoMod) && !strings.Contains(c.pkg, "/zzverif/")
		c.isInit = f.Name() == "init" && f.Pkg != nil && f == f.Pkg.Func("init")
		p.fns[f] = c
	}

	return c
}

// fnName names a function for the intrinsics' table: type arguments are dropped.
func fnName(f *ssa.Function) string {
	g := f
	if o := f.Origin(); o != nil {
		g = o
	}

	s := g.String()

	// (*sync/atomic.Pointer[T]).Load -> (*sync/atomic.Pointer).Load
	if i := strings.IndexByte(s, '['); i >= 0 && strings.HasPrefix(s, "(") {
		if j := strings.IndexByte(s[i:], ']'); j >= 0 {
			s = s[:i] + s[i+j+1:]
		}
	}

	return s
}

func (p *Prog) globalIdx(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()

	i, ok := p.globIdx[g]
	if !ok {
		i = len(p.globs)
		p.globIdx[g] = i
		p.globs = append(p.globs, g)
		p.globN.Store(int32(len(p.globs)))
	}

	return i
}

// uninitialised tells whether the variable's package is one whose initialisation is not run, though it would set the
// variable.
func (p *Prog) uninitialised(g *ssa.Global) bool {
	if g.Pkg == nil || !denied(g.Pkg.Pkg.Path()) || g.Name() == "init$guard" {
		return false
	}

	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}

	for _, b := range init.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if *op == ssa.Value(g) {
					return true
				}
			}
		}
	}

	return false
}

func (w *W) global(i int) *Obj {
	for i >= len(w.globals) {
		w.globals = append(w.globals, nil)
	}

	o := w.globals[i]
	if o == nil {
		w.p.mu.Lock()
		g := w.p.globs[i]
		w.p.mu.Unlock()

		if !w.inInit && w.p.uninitialised(g) {
			panic(engineErr{"variable of a package whose initialisation is not run: " + g.String()})
		}

		t := w.p.types.of(g.Type().(*types.Pointer).Elem())
		o = w.newObj(t.size, t)
		o.init = true // globals live across paths
		w.globals[i] = o

		if !w.inInit {
			// First touched on a path: nothing may have set it during initialisation.
			w.initGlobal(g, o)
		} else {
			w.initGlobal(g, o)
		}
	}

	return o
}

// ensure compiles f.
func (f *CFn) ensure() {
	if f.ready.Load() {
		return
	}

	f.once.Lock()
	defer f.once.Unlock()

	if f.ready.Load() {
		return
	}

	f.compile()
	f.ready.Store(true)
}

type comp struct {
	f    *CFn
	p    *Prog
	regs map[ssa.Value]int
	n    int
	err  error
}

func (c *comp) ty(t types.Type) *TInfo { return c.p.types.of(t) }

func (c *comp) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}

	i := c.n
	c.n++
	c.regs[v] = i

	return i
}

func (c *comp) opd(v ssa.Value) *opd {
	switch v := v.(type) {
	case *ssa.Const:
		return &opd{idx: -1, c: c.constV(v)}
	case *ssa.Function:
		return &opd{idx: -1, c: V{r: &Fn{fn: c.p.fn(v)}}}
	case *ssa.Global:
		return &opd{idx: -1, g: c.p.globalIdx(v) + 1}
	case *ssa.Builtin:
		return &opd{idx: -1, c: V{r: v}}
	}

	return &opd{idx: c.reg(v)}
}

func (c *comp) constV(k *ssa.Const) V {
	t := c.ty(k.Type())

	if k.Value == nil {
		return zero(t)
	}

	switch t.kind {
	case KBool:
		return bv(constant.BoolVal(k.Value))
	case KString:
		if k.Value.Kind() == constant.String {
			return sv(constant.StringVal(k.Value))
		}

		n, _ := constant.Int64Val(constant.ToInt(k.Value))

		return sv(string(rune(n)))
	case KInt:
		v := constant.ToInt(k.Value)
		if t.signed {
			n, _ := constant.Int64Val(v)

			return V{n: uint64(n) & mask(t.w)}
		}

		n, _ := constant.Uint64Val(v)

		return V{n: n & mask(t.w)}
	case KFloat:
		x, _ := constant.Float64Val(constant.ToFloat(k.Value))

		return flV(x, t)
	case KComplex:
		return V{}
	}

	panic(engineErr{"constant of type " + t.String()})
}

func (f *CFn) compile() {
	fn := f.fn

	f.res = f.p.types.of(fn.Signature.Results())

	if in := lookupIntrinsic(f); in != nil {
		f.intr = in

		return
	}

	if fn.Blocks == nil {
		name := f.name
		f.intr = func(w *W, args []V) V { panic(engineErr{"no body: " + name}) }

		return
	}

	c := &comp{f: f, p: f.p, regs: map[ssa.Value]int{}}

	for _, p := range fn.Params {
		c.reg(p)
	}

	for _, p := range fn.FreeVars {
		c.reg(p)
	}

	blocks := make([]*cblock, len(fn.Blocks))
	for i := range blocks {
		blocks[i] = &cblock{idx: i}
	}

	for i, b := range fn.Blocks {
		c.block(blocks, b, blocks[i])
	}

	f.blocks = blocks
	f.nregs = c.n

	if fn.Recover != nil {
		f.recover_ = blocks[fn.Recover.Index]
	}

	if boundedRand[f.name] {
		f.boundRand()
	}
}

// boundedRand are the functions that turn the numbers of a generator into numbers below a bound.
var boundedRand = map[string]bool{
	"(*math/rand.Rand).Int63n": true, "(*math/rand.Rand).Int31n": true, "(*math/rand.Rand).int31n": true,
	"(*math/rand/v2.Rand).uint64n": true, "(*math/rand/v2.Rand).uint32n": true,
}

// boundRand makes f give any number below the bound, rather than have the solver work out which
// numbers of the generator lead to it, when these are not determined by a seed.
func (f *CFn) boundRand() {
	body := &CFn{fn: f.fn, p: f.p, name: f.name, pkg: f.pkg, nparams: f.nparams, nregs: f.nregs, blocks: f.blocks,
		hasDefer: f.hasDefer, recover_: f.recover_, res: f.res}
	body.ready.Store(true)

	width := f.p.types.of(f.fn.Signature.Params().At(0).Type()).w

	f.intr = func(w *W, args []V) V {
		if o, _ := args[0].r.(*Obj); o != nil && !args[1].sym() && args[1].n > 0 && args[1].n < 1<<(width-1) {
			src, _ := o.cells[args[0].n].r.(*Iface)
			if src != nil && strings.HasSuffix(src.t.String(), "runtimeSource") {
				n := w.input("$rand", "i64", width)
				w.assume(tv(w.ts.Ult(n, w.ts.Const(args[1].n, width))))

				return tv(n)
			}
		}

		return w.call(body, args, nil)
	}
}

func (c *comp) edge(blocks []*cblock, from, to *ssa.BasicBlock) *cedge {
	e := &cedge{to: blocks[to.Index]}
	pi := -1

	for i, p := range to.Preds {
		if p == from {
			pi = i

			break
		}
	}

	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}

		e.moves = append(e.moves, move{c.reg(phi), *c.opd(phi.Edges[pi])})
	}

	return e
}

// edgeN is edge for the k-th successor (when both successors are the same block, the phis' edges differ).
func (c *comp) edgeN(blocks []*cblock, from *ssa.BasicBlock, k int) *cedge {
	to := from.Succs[k]
	if len(from.Succs) == 2 && from.Succs[0] == from.Succs[1] && k == 1 {
		e := &cedge{to: blocks[to.Index]}
		pi, seen := -1, 0

		for i, p := range to.Preds {
			if p == from {
				if seen == 1 {
					pi = i
				}

				seen++
			}
		}

		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}

			e.moves = append(e.moves, move{c.reg(phi), *c.opd(phi.Edges[pi])})
		}

		return e
	}

	return c.edge(blocks, from, to)
}

func (c *comp) block(blocks []*cblock, b *ssa.BasicBlock, cb *cblock) {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			e := c.edge(blocks, b, b.Succs[0])
			cb.term = func(w *W, fr *Frame) *cedge { return e }
		case *ssa.If:
			e1, e2 := c.edgeN(blocks, b, 0), c.edgeN(blocks, b, 1)
			x := c.opd(in.Cond)
			cb.term = func(w *W, fr *Frame) *cedge {
				v := x.get(w, fr)
				if v.r == nil {
					if v.n != 0 {
						return e1
					}

					return e2
				}

				if w.decide(v.r.(*Term)) {
					return e1
				}

				return e2
			}
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				cb.term = func(w *W, fr *Frame) *cedge { return nil }
			case 1:
				x := c.opd(in.Results[0])
				cb.term = func(w *W, fr *Frame) *cedge {
					fr.res = x.get(w, fr)

					return nil
				}
			default:
				xs := make([]*opd, len(in.Results))
				for i, r := range in.Results {
					xs[i] = c.opd(r)
				}

				t := c.f.res
				cb.term = func(w *W, fr *Frame) *cedge {
					a := make(Agg, t.size)

					for i, x := range xs {
						f := t.fields[i]
						v := x.get(w, fr)

						if f.t.agg {
							copy(a[f.off:], agg(v))
						} else {
							a[f.off] = v
						}
					}

					fr.res = V{r: a}

					return nil
				}
			}
		case *ssa.Panic:
			x := c.opd(in.X)
			where := c.f.name
			cb.term = func(w *W, fr *Frame) *cedge {
				v := x.get(w, fr)
				if v.r == nil {
					w.panicRT("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
				}

				panic(w.newPanic(v, where))
			}
		default:
			cb.ins = append(cb.ins, c.instr(in))
			cb.pos = append(cb.pos, in.Pos())
		}
	}

	cb.cost = int64(len(cb.ins) + 1)
}

func (c *comp) instr(in ssa.Instruction) instr {
	switch in := in.(type) {
	case *ssa.Alloc:
		d, t := c.reg(in), c.ty(in.Type().(*types.Pointer).Elem())

		return func(w *W, fr *Frame) { fr.r[d] = V{r: w.newObj(t.size, t)} }
	case *ssa.BinOp:
		return c.binop(in)
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		d := c.reg(in)
		call := c.call(&in.Call, in)

		return func(w *W, fr *Frame) {
			v := call(w, fr)
			fr.r[d] = v
		}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var x ssa.Value
		if ci, ok := in.(*ssa.ChangeInterface); ok {
			x = ci.X
		} else {
			x = in.(*ssa.ChangeType).X
		}

		d, o := c.reg(in.(ssa.Value)), c.opd(x)

		return func(w *W, fr *Frame) { fr.r[d] = o.get(w, fr) }
	case *ssa.Convert:
		return c.convert(c.reg(in), c.opd(in.X), c.ty(in.X.Type()), c.ty(in.Type()))
	case *ssa.MultiConvert:
		return c.convert(c.reg(in), c.opd(in.X), c.ty(in.X.Type()), c.ty(in.Type()))
	case *ssa.Defer:
		c.f.hasDefer = true
		prep := c.prepCall(&in.Call, nil)

		if in.DeferStack != nil {
			return func(w *W, fr *Frame) { panic(engineErr{"defer in a range-over-func body"}) }
		}

		return func(w *W, fr *Frame) {
			run := prep(w, fr)
			fr.defers = append(fr.defers, deferred{func(w *W, d *Frame) { run(w, d) }})
		}
	case *ssa.Extract:
		d, x := c.reg(in), c.opd(in.Tuple)
		tt := c.ty(in.Tuple.Type())
		f := tt.fields[in.Index]

		return func(w *W, fr *Frame) { fr.r[d] = part(agg(x.get(w, fr)), f.off, f.t) }
	case *ssa.Field:
		d, x := c.reg(in), c.opd(in.X)
		f := c.ty(in.X.Type()).fields[in.Field]

		return func(w *W, fr *Frame) { fr.r[d] = part(agg(x.get(w, fr)), f.off, f.t) }
	case *ssa.FieldAddr:
		d, x := c.reg(in), c.opd(in.X)
		st := c.ty(in.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.fields[in.Field].off)

		return func(w *W, fr *Frame) {
			p := x.get(w, fr)
			if p.r == nil {
				w.panicNil()
			}

			fr.r[d] = V{n: p.n + off, r: p.r}
		}
	case *ssa.Index:
		return c.index(in)
	case *ssa.IndexAddr:
		return c.indexAddr(in)
	case *ssa.Lookup:
		return c.lookup(in)
	case *ssa.MakeClosure:
		d := c.reg(in)
		f := c.p.fn(in.Fn.(*ssa.Function))
		xs := make([]*opd, len(in.Bindings))

		for i, b := range in.Bindings {
			xs[i] = c.opd(b)
		}

		return func(w *W, fr *Frame) {
			fv := make([]V, len(xs))
			for i, x := range xs {
				fv[i] = x.get(w, fr)
			}

			fr.r[d] = V{r: &Fn{fn: f, free: fv}}
		}
	case *ssa.MakeInterface:
		d, x, t := c.reg(in), c.opd(in.X), c.ty(in.X.Type())

		return func(w *W, fr *Frame) { fr.r[d] = V{r: &Iface{t, x.get(w, fr)}} }
	case *ssa.MakeMap:
		d := c.reg(in)

		return func(w *W, fr *Frame) { fr.r[d] = V{r: newMapObj(w.inInit)} }
	case *ssa.MakeSlice:
		d, ln, cp := c.reg(in), c.opd(in.Len), c.opd(in.Cap)
		t := c.ty(in.Type())
		lt, ct := c.ty(in.Len.Type()), c.ty(in.Cap.Type())

		return func(w *W, fr *Frame) {
			l, k := int64(w.concretize(ln.get(w, fr), lt)), int64(w.concretize(cp.get(w, fr), ct))
			if l < 0 || l > 1<<32 {
				w.panicRT("runtime error: makeslice: len out of range")
			}

			if k < l || k > 1<<32 {
				w.panicRT("runtime error: makeslice: cap out of range")
			}

			fr.r[d] = w.mkSlice(t.elem, int(l), int(k))
		}
	case *ssa.MapUpdate:
		m, k, v := c.opd(in.Map), c.opd(in.Key), c.opd(in.Value)
		kt := c.ty(in.Map.Type()).key

		if kt == nil {
			kt = c.ty(in.Map.Type().Underlying()).key
		}

		return func(w *W, fr *Frame) {
			mo, _ := m.get(w, fr).r.(*MapObj)
			if mo == nil {
				w.panicRT("assignment to entry in nil map")
			}

			w.mapWrite(mo, func() { w.mapSet(mo, kt, k.get(w, fr), v.get(w, fr)) })
		}
	case *ssa.Next:
		return c.next(in)
	case *ssa.Range:
		return c.rangeOver(in)
	case *ssa.RunDefers:
		return func(w *W, fr *Frame) { w.runDefers(fr) }
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		d, x := c.reg(in), c.opd(in.X)
		at := c.ty(in.Type().Underlying().(*types.Pointer).Elem())

		return func(w *W, fr *Frame) {
			s, _ := x.get(w, fr).r.(*Slice)
			n := 0

			if s != nil {
				n = s.len
			}

			if n < at.n {
				w.panicRT(fmt.Sprintf("runtime error: cannot convert slice with length %d to array or pointer to array with length %d", n, at.n))
			}

			if s == nil {
				fr.r[d] = V{}
			} else {
				fr.r[d] = V{n: uint64(s.off), r: s.obj}
			}
		}
	case *ssa.Store:
		a, v, t := c.opd(in.Addr), c.opd(in.Val), c.ty(in.Val.Type())

		return func(w *W, fr *Frame) {
			p := a.get(w, fr)
			o, _ := p.r.(*Obj)

			if o == nil {
				w.panicNil()
			}

			if w.sch != nil {
				w.shared(o)
			}

			w.store(o, int(p.n), t, v.get(w, fr))
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	case *ssa.Go:
		prep := c.prepCall(&in.Call, nil)

		return func(w *W, fr *Frame) { run := prep(w, fr); w.goStmt(func(w *W) { run(w, nil) }) }
	case *ssa.MakeChan:
		d, n := c.reg(in), c.opd(in.Size)

		return func(w *W, fr *Frame) {
			k := int64(w.concretize(n.get(w, fr), w.p.t.i64))
			if k < 0 || k > 1<<20 {
				w.panicRT("makechan: size out of range")
			}

			fr.r[d] = w.makeChan(int(k))
		}
	case *ssa.Send:
		ch, x := c.opd(in.Chan), c.opd(in.X)

		return func(w *W, fr *Frame) { w.opSend(ch.get(w, fr), x.get(w, fr)) }
	case *ssa.Select:
		return c.selectStmt(in)
	}

	s := fmt.Sprintf("instruction %T in %s", in, c.f.name)

	return func(w *W, fr *Frame) { panic(engineErr{s}) }
}

func (w *W) mkSlice(et *TInfo, n, c int) V {
	o := w.newObj(c*et.size, et)

	return V{r: &Slice{obj: o, len: n, cap: c}}
}

func (c *comp) index(in *ssa.Index) instr {
	d, x, i := c.reg(in), c.opd(in.X), c.opd(in.Index)
	t, it := c.ty(in.X.Type()), c.ty(in.Index.Type())

	if t.kind == KString {
		return func(w *W, fr *Frame) { fr.r[d] = w.strIndex(x.get(w, fr), i.get(w, fr), it) }
	}

	return func(w *W, fr *Frame) {
		a := agg(x.get(w, fr))
		iv := i.get(w, fr)

		if iv.r != nil && t.elem.size == 1 {
			fr.r[d] = w.symRead(a, t.n, iv, it, t.elem)

			return
		}

		n := w.idx(iv, it, t.n)
		fr.r[d] = part(a, n*t.elem.size, t.elem)
	}
}

func (w *W) strIndex(s, iv V, it *TInfo) V {
	n := strLen(s)
	if iv.r != nil {
		return w.symRead(strBytes(s), n, iv, it, w.p.t.u8)
	}

	return strAt(s, w.idx(iv, it, n))
}

// idx checks and concretises an index.
func (w *W) idx(iv V, it *TInfo, n int) int {
	if iv.r != nil {
		if !w.inBounds(iv, it, n) {
			w.panicIdx(int64(-1), n)
		}

		return int(w.concretize(iv, it))
	}

	i := iv.n
	if it.signed {
		i = uint64(sx(i, it.w))
	}

	if i >= uint64(n) {
		w.panicIdx(int64(i), n)
	}

	return int(i)
}

func (w *W) inBounds(iv V, it *TInfo, n int) bool {
	t := iv.r.(*Term)
	if it.w < 64 {
		op := OpZext
		if it.signed {
			op = OpSext
		}

		t = w.ts.mk(op, 64, t, nil, nil)
	}

	return w.decide(w.ts.Ult(t, w.ts.Const(uint64(n), 64)))
}

// symRead reads a table at a symbolic index, as an if-then-else over its values.
func (w *W) symRead(cells []V, n int, iv V, it, et *TInfo) V {
	if !w.inBounds(iv, it, n) {
		w.panicIdx(-1, n)
	}

	if et.kind != KInt && et.kind != KBool || n > 512 {
		return cells[w.concretize(iv, it)]
	}

	x := iv.r.(*Term)

	var dom *byteSet
	if x.op == OpVar && x.w == 8 {
		dom = w.domOf(x)
	}

	// Group the indices by value.
	type grp struct {
		v    V
		idxs []int
	}

	var groups []*grp

	by := map[V]*grp{}

	for i := 0; i < n; i++ {
		if uint64(i) > mask(it.w) || dom != nil && (i > 255 || !dom.has(i)) {
			continue
		}

		g := by[cells[i]]
		if g == nil {
			g = &grp{v: cells[i]}
			by[cells[i]] = g
			groups = append(groups, g)
		}

		g.idxs = append(g.idxs, i)
	}

	if len(groups) == 0 {
		return cells[0]
	}

	// The biggest group is the default.
	big := 0

	for i, g := range groups {
		if len(g.idxs) > len(groups[big].idxs) {
			big = i
		}
	}

	acc := w.term(groups[big].v, et)

	for i, g := range groups {
		if i == big {
			continue
		}

		var cond *Term

		if x.op == OpVar && x.w == 8 {
			var s byteSet
			for _, j := range g.idxs {
				s.add(j)
			}

			cond = w.ts.mkSet(x, s)
		} else {
			cond = w.ts.False
			for _, j := range g.idxs {
				cond = w.ts.Or(cond, w.ts.Eq(x, w.ts.Const(uint64(j), x.w)))
			}
		}

		acc = w.ts.Ite(cond, w.term(g.v, et), acc)
	}

	return tv(acc)
}

func (c *comp) indexAddr(in *ssa.IndexAddr) instr {
	d, x, i := c.reg(in), c.opd(in.X), c.opd(in.Index)
	it := c.ty(in.Index.Type())

	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		es := c.ty(u.Elem()).size
		et := c.ty(u.Elem())

		return func(w *W, fr *Frame) {
			s, _ := x.get(w, fr).r.(*Slice)
			iv := i.get(w, fr)

			if s == nil {
				w.panicIdx(int64(iv.n), 0)
			}

			if iv.r != nil && es == 1 && !et.agg {
				if !w.inBounds(iv, it, s.len) {
					w.panicIdx(-1, s.len)
				}

				fr.r[d] = V{r: &symPtr{s.obj, s.off, s.len, iv, it, et}}

				return
			}

			n := w.idx(iv, it, s.len)
			fr.r[d] = V{n: uint64(s.off + n*es), r: s.obj}
		}
	case *types.Pointer:
		at := c.ty(u.Elem())
		es := at.elem.size

		return func(w *W, fr *Frame) {
			p := x.get(w, fr)
			if p.r == nil {
				w.panicNil()
			}

			iv := i.get(w, fr)
			if iv.r != nil && es == 1 && !at.elem.agg {
				if !w.inBounds(iv, it, at.n) {
					w.panicIdx(-1, at.n)
				}

				fr.r[d] = V{r: &symPtr{p.r.(*Obj), int(p.n), at.n, iv, it, at.elem}}

				return
			}

			n := w.idx(iv, it, at.n)
			fr.r[d] = V{n: p.n + uint64(n*es), r: p.r}
		}
	}

	panic(engineErr{"IndexAddr of " + in.X.Type().String()})
}

// symPtr is the address of an element at a symbolic index: only loads may use it.
type symPtr struct {
	obj    *Obj
	off, n int
	idx    V
	it, et *TInfo
}

func (c *comp) lookup(in *ssa.Lookup) instr {
	d, x, k := c.reg(in), c.opd(in.X), c.opd(in.Index)
	t := c.ty(in.X.Type())

	if t.kind == KString {
		it := c.ty(in.Index.Type())

		return func(w *W, fr *Frame) { fr.r[d] = w.strIndex(x.get(w, fr), k.get(w, fr), it) }
	}

	kt, et, ok := t.key, t.elem, in.CommaOk

	return func(w *W, fr *Frame) {
		m, _ := x.get(w, fr).r.(*MapObj)

		if m != nil {
			w.mapUse(m, "concurrent map read and map write")
		}

		e := w.mapFind(m, kt, k.get(w, fr))

		if !ok {
			if e == nil {
				fr.r[d] = zero(et)
			} else {
				fr.r[d] = e.v
			}

			return
		}

		a := make(Agg, et.size+1)

		if e != nil {
			if et.agg {
				copy(a, agg(e.v))
			} else {
				a[0] = e.v
			}

			a[et.size].n = 1
		}

		fr.r[d] = V{r: a}
	}
}

type mapIter struct {
	ents []*MapEnt
	i    int
}

type strIter struct {
	s V
	i int
}

func (c *comp) rangeOver(in *ssa.Range) instr {
	d, x := c.reg(in), c.opd(in.X)
	t := c.ty(in.X.Type())

	if t.kind == KString {
		return func(w *W, fr *Frame) { fr.r[d] = V{r: &strIter{s: x.get(w, fr)}} }
	}

	nondet := c.f.repo || c.f.pkg == "maps"

	return func(w *W, fr *Frame) {
		m, _ := x.get(w, fr).r.(*MapObj)
		it := &mapIter{}

		if m != nil {
			w.mapUse(m, "concurrent map iteration and map write")

			it.ents = append(it.ents, m.ents...)

			if nondet {
				it.ents = w.permute(it.ents)
			}
		}

		fr.r[d] = V{r: it}
	}
}

// permute picks an iteration order: every order of a small map, forwards or backwards for a larger one; or always backwards,
// or from the middle.
func (w *W) permute(es []*MapEnt) []*MapEnt {
	n := len(es)
	if w.mapOrd == 0 || n < 2 || w.inInit || w.mapDev == 0 {
		return es
	}

	if w.mapOrd < 0 {
		out := append([]*MapEnt(nil), es[n/2:]...)
		out = append(out, es[:n/2]...)

		if w.mapOrd == -1 {
			for i, e := range es {
				out[n-1-i] = e
			}
		}

		return out
	}

	if n > w.mapOrd {
		if w.choose(2) == 1 {
			w.mapDev--

			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				es[i], es[j] = es[j], es[i]
			}
		}

		return es
	}

	out := make([]*MapEnt, 0, n)
	dev := false

	for len(es) > 0 {
		i := w.choose(len(es))
		dev = dev || i > 0
		out = append(out, es[i])
		es = append(append([]*MapEnt(nil), es[:i]...), es[i+1:]...)
	}

	if dev {
		w.mapDev--
	}

	return out
}

func (c *comp) next(in *ssa.Next) instr {
	d, x := c.reg(in), c.opd(in.Iter)
	t := c.ty(in.Type())

	if in.IsString {
		return func(w *W, fr *Frame) {
			it := x.get(w, fr).r.(*strIter)
			a := make(Agg, 3)

			if it.i < strLen(it.s) {
				r, n := w.decodeRune(it.s, it.i)
				a[0] = V{n: 1}
				a[1] = V{n: uint64(it.i)}
				a[2] = r
				it.i += n
			}

			fr.r[d] = V{r: a}
		}
	}

	kf, vf := t.fields[1], t.fields[2]

	return func(w *W, fr *Frame) {
		it := x.get(w, fr).r.(*mapIter)
		a := make(Agg, t.size)

		for it.i < len(it.ents) && it.ents[it.i].dead {
			it.i++
		}

		if it.i < len(it.ents) {
			e := it.ents[it.i]
			it.i++
			a[0] = V{n: 1}

			if kf.t.kind != KOther {
				copyFlat(a[kf.off:], e.k, kf.t)
			}

			if vf.t.kind != KOther {
				copyFlat(a[vf.off:], e.v, vf.t)
			}
		}

		fr.r[d] = V{r: a}
	}
}

func copyFlat(dst []V, v V, t *TInfo) {
	if t.agg {
		copy(dst[:t.size], agg(v))
	} else {
		dst[0] = v
	}
}

// decodeRune decodes the rune at s[i:].
func (w *W) decodeRune(s V, i int) (V, int) {
	if x, ok := s.r.(string); ok {
		for j, r := range x[i:] {
			if j == 0 {
				n := len(string(r))
				if r == 0xFFFD && !strings.HasPrefix(x[i:], "\uFFFD") {
					n = 1
				}

				return V{n: uint64(uint32(r))}, n
			}
		}
	}

	b := strAt(s, i)
	if b.r == nil && b.n < 0x80 {
		return b, 1
	}

	if b.r != nil {
		t := b.r.(*Term)
		if w.decide(w.ts.Ult(t, w.ts.Const(0x80, 8))) {
			return tv(w.ts.mk(OpZext, 32, t, nil, nil)), 1
		}
	}

	f := w.p.funcByName("unicode/utf8", "DecodeRuneInString")
	r := agg(w.call(f, []V{strSub(s, i, strLen(s))}, nil))

	return r[0], int(w.concretize(r[1], w.p.t.i64))
}

func (c *comp) slice(in *ssa.Slice) instr {
	d, x := c.reg(in), c.opd(in.X)

	var lo, hi, mx *opd

	i64 := c.p.t.i64
	lt, ht, mt := i64, i64, i64

	if in.Low != nil {
		lo, lt = c.opd(in.Low), c.ty(in.Low.Type())
	}

	if in.High != nil {
		hi, ht = c.opd(in.High), c.ty(in.High.Type())
	}

	if in.Max != nil {
		mx, mt = c.opd(in.Max), c.ty(in.Max.Type())
	}

	get := func(w *W, fr *Frame, o *opd, t *TInfo, def int) int {
		if o == nil {
			return def
		}

		v := o.get(w, fr)
		n := w.concretize(v, t)

		if t.signed {
			return int(sx(n, t.w))
		}

		if n > math.MaxInt64 {
			return -1
		}

		return int(n)
	}

	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		es := c.ty(u.Elem()).size

		return func(w *W, fr *Frame) {
			s, _ := x.get(w, fr).r.(*Slice)

			if s == nil {
				l, h, m := get(w, fr, lo, lt, 0), get(w, fr, hi, ht, 0), get(w, fr, mx, mt, 0)
				if l != 0 || h != 0 || m != 0 {
					w.panicRT(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d:%d] of nil slice", l, h, m))
				}

				fr.r[d] = V{}

				return
			}

			m := get(w, fr, mx, mt, s.cap)
			h := get(w, fr, hi, ht, s.len)
			l := get(w, fr, lo, lt, 0)

			if m < 0 || m > s.cap || h < 0 || h > m || l < 0 || l > h {
				w.panicRT(sliceMsg(l, h, m, s.cap, "capacity"))
			}

			fr.r[d] = V{r: &Slice{obj: s.obj, off: s.off + l*es, len: h - l, cap: m - l}}
		}
	case *types.Pointer:
		at := c.ty(u.Elem())

		return func(w *W, fr *Frame) {
			p := x.get(w, fr)
			o, _ := p.r.(*Obj)

			if o == nil {
				w.panicNil()
			}

			m := get(w, fr, mx, mt, at.n)
			h := get(w, fr, hi, ht, at.n)
			l := get(w, fr, lo, lt, 0)

			if m < 0 || m > at.n || h < 0 || h > m || l < 0 || l > h {
				w.panicRT(sliceMsg(l, h, m, at.n, "length"))
			}

			fr.r[d] = V{r: &Slice{obj: o, off: int(p.n) + l*at.elem.size, len: h - l, cap: m - l}}
		}
	case *types.Basic:
		return func(w *W, fr *Frame) {
			s := x.get(w, fr)
			n := strLen(s)
			h := get(w, fr, hi, ht, n)
			l := get(w, fr, lo, lt, 0)

			if h < 0 || h > n || l < 0 || l > h {
				w.panicRT(sliceMsg(l, h, -1, n, "length"))
			}

			fr.r[d] = strSub(s, l, h)
		}
	}

	panic(engineErr{"Slice of " + in.X.Type().String()})
}

func sliceMsg(l, h, m, n int, what string) string {
	switch {
	case h < 0 || h > n:
		return fmt.Sprintf("runtime error: slice bounds out of range [:%d] with %s %d", h, what, n)
	default:
		return fmt.Sprintf("runtime error: slice bounds out of range [%d:%d]", l, h)
	}
}

func (c *comp) typeAssert(in *ssa.TypeAssert) instr {
	d, x := c.reg(in), c.opd(in.X)
	t := c.ty(in.AssertedType)
	xt := in.X.Type()

	if t.kind == KIface {
		it := t.T.Underlying().(*types.Interface)

		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			i, _ := v.r.(*Iface)
			ok := i != nil && w.p.implements(i.t, t, it)

			if in.CommaOk {
				if !ok {
					v = V{}
				}

				fr.r[d] = V{r: Agg{v, bv(ok)}}

				return
			}

			if !ok {
				if i == nil {
					w.panicRT("interface conversion: interface is nil, not " + t.String())
				}

				w.panicRT("interface conversion: " + i.t.String() + " is not " + t.String() + ": missing method")
			}

			fr.r[d] = v
		}
	}

	return func(w *W, fr *Frame) {
		i, _ := x.get(w, fr).r.(*Iface)
		ok := i != nil && i.t == t

		if in.CommaOk {
			a := make(Agg, t.size+1)

			if ok {
				copyFlat(a, i.v, t)
				a[t.size].n = 1
			}

			fr.r[d] = V{r: a}

			return
		}

		if !ok {
			if i == nil {
				w.panicRT("interface conversion: " + xt.String() + " is nil, not " + t.String())
			}

			w.panicRT("interface conversion: " + xt.String() + " is " + i.t.String() + ", not " + t.String())
		}

		fr.r[d] = i.v
	}
}

type implKey struct{ a, b int }

var implCache sync.Map

func (p *Prog) implements(a, b *TInfo, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}

	k := implKey{a.id, b.id}
	if r, ok := implCache.Load(k); ok {
		return r.(bool)
	}

	p.msMu.Lock()
	r := types.Implements(a.T, it)
	p.msMu.Unlock()
	implCache.Store(k, r)

	return r
}
