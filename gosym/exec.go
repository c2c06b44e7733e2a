package main

import (
	"fmt"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

const slabSize = 1 << 16

func (w *W) alloc(n int) []V {
	if w.sp+n > len(w.slab) {
		sz := slabSize
		if n > sz {
			sz = n
		}

		w.slab = make([]V, sz)
		w.sp = 0
	}

	s := w.slab[w.sp : w.sp+n : w.sp+n]
	w.sp += n

	return s
}

type hang struct{ depth bool }

type exitPanic struct{ code int }

const maxDepth = 20000

// call calls f; args are copied.
func (w *W) call(f *CFn, args []V, free []V) V {
	f.ensure()

	if f.intr != nil {
		return f.intr(w, args)
	}

	slab, sp := w.slab, w.sp
	regs := w.alloc(f.nregs)
	copy(regs, args)
	copy(regs[f.nparams:], free)
	v := w.enter(f, regs, nil)
	w.slab, w.sp = slab, sp

	return v
}

func (w *W) callFn(fv V, args []V) V {
	fn, _ := fv.r.(*Fn)
	if fn == nil {
		w.panicNil()
	}

	return w.call(fn.fn, args, fn.free)
}

func (w *W) callDeferred(f *CFn, args, free []V, defOf *Frame) V {
	f.ensure()

	if f.intr != nil {
		return f.intr(w, args)
	}

	regs := make([]V, f.nregs)
	copy(regs, args)
	copy(regs[f.nparams:], free)

	return w.enter(f, regs, defOf)
}

func (w *W) enter(f *CFn, regs []V, defOf *Frame) V {
	w.depth++
	if w.depth > maxDepth {
		panic(hang{true})
	}

	if f.repo && w.sch != nil {
		w.preempt()
	}

	if f.repo && !f.seen.Load() {
		f.seen.Store(true)
		w.p.fnsRun.Store(f, true)
	}

	for len(w.frames) <= w.depth {
		w.frames = append(w.frames, &Frame{})
	}

	fr := w.frames[w.depth]
	fr.r, fr.fn, fr.res, fr.panic_, fr.defOf = regs, f, V{}, nil, defOf
	fr.defers = fr.defers[:0]

	if f.hasDefer {
		w.withDefers(fr)
	} else {
		w.loop(fr, f.blocks[0])
	}

	w.depth--

	return fr.res
}

func (w *W) loop(fr *Frame, b *cblock) {
	for {
		w.steps += b.cost
		if w.steps > w.stepLimit {
			panic(hang{})
		}

		for _, in := range b.ins {
			in(w, fr)
		}

		e := b.term(w, fr)
		if e == nil {
			return
		}

		switch len(e.moves) {
		case 0:
		case 1:
			m := &e.moves[0]
			fr.r[m.dst] = m.src.get(w, fr)
		case 2:
			m0, m1 := &e.moves[0], &e.moves[1]
			v0, v1 := m0.src.get(w, fr), m1.src.get(w, fr)
			fr.r[m0.dst], fr.r[m1.dst] = v0, v1
		default:
			var tmp [8]V

			vs := tmp[:0]
			for i := range e.moves {
				vs = append(vs, e.moves[i].src.get(w, fr))
			}

			for i := range e.moves {
				fr.r[e.moves[i].dst] = vs[i]
			}
		}

		b = e.to
	}
}

// try runs f and gives the interpreted panic that ends it, if any.
func (w *W) try(f func()) (gp *goPanic) {
	depth, slab, sp := w.depth, w.slab, w.sp

	defer func() {
		if r := recover(); r != nil {
			g, ok := r.(*goPanic)
			if !ok {
				panic(r)
			}

			gp = g
			w.depth, w.slab, w.sp = depth, slab, sp
		}
	}()

	f()

	return nil
}

func (w *W) withDefers(fr *Frame) {
	gp := w.try(func() { w.loop(fr, fr.fn.blocks[0]) })
	if gp == nil {
		return
	}

	fr.panic_ = gp
	w.runDefers(fr)

	// Recovered.
	if fr.fn.recover_ != nil {
		w.loop(fr, fr.fn.recover_)
	} else {
		fr.res = zeroRes(fr.fn.res)
	}
}

func zeroRes(t *TInfo) V {
	switch len(t.fields) {
	case 0:
		return V{}
	case 1:
		return zero(t.fields[0].t)
	}

	return zero(t)
}

// runDefers runs fr's deferred calls, and panics if fr is left panicking.
func (w *W) runDefers(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]

		if gp := w.try(func() { d.f(w, fr) }); gp != nil {
			fr.panic_ = gp
		}
	}

	if fr.panic_ != nil {
		panic(fr.panic_)
	}
}

// panicRT raises a run-time error.
func (w *W) panicRT(msg string) {
	t := w.p.typeByName("runtime", "errorString")

	panic(w.newPanic(V{r: &Iface{t, sv(strings.TrimPrefix(msg, "runtime error: "))}}, msg))
}

func (w *W) panicNil() { w.panicRT("runtime error: invalid memory address or nil pointer dereference") }

func (w *W) panicIdx(i int64, n int) {
	w.panicRT(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
}

// call compiles a call.
func (c *comp) call(call *ssa.CallCommon, in *ssa.Call) func(w *W, fr *Frame) V {
	args := make([]*opd, len(call.Args))
	for i, a := range call.Args {
		args[i] = c.opd(a)
	}

	if call.IsInvoke() {
		x := c.opd(call.Value)
		m := call.Method
		n := len(args) + 1

		var (
			lastT atomicT
		)

		return func(w *W, fr *Frame) V {
			i, _ := x.get(w, fr).r.(*Iface)
			if i == nil {
				w.panicNil()
			}

			f := lastT.get(i.t)
			if f == nil {
				f = w.p.method(i.t, m)
				lastT.set(i.t, f)
			}

			f.ensure()

			slab, sp := w.slab, w.sp
			sz := f.nregs

			if f.intr != nil {
				sz = n
			}

			regs := w.alloc(sz)
			regs[0] = i.v

			for k, a := range args {
				regs[k+1] = a.get(w, fr)
			}

			var v V
			if f.intr != nil {
				v = f.intr(w, regs)
			} else {
				v = w.enter(f, regs, nil)
			}

			w.slab, w.sp = slab, sp

			return v
		}
	}

	if b, ok := call.Value.(*ssa.Builtin); ok {
		return c.builtin(b, call, args)
	}

	if fn, ok := call.Value.(*ssa.Function); ok {
		f := c.p.fn(fn)

		return func(w *W, fr *Frame) V {
			f.ensure()

			slab, sp := w.slab, w.sp
			sz := f.nregs

			if f.intr != nil {
				sz = len(args)
			}

			regs := w.alloc(sz)

			for k, a := range args {
				regs[k] = a.get(w, fr)
			}

			var v V
			if f.intr != nil {
				v = f.intr(w, regs)
			} else {
				v = w.enter(f, regs, nil)
			}

			w.slab, w.sp = slab, sp

			return v
		}
	}

	x := c.opd(call.Value)

	return func(w *W, fr *Frame) V {
		fn, _ := x.get(w, fr).r.(*Fn)
		if fn == nil {
			w.panicNil()
		}

		f := fn.fn
		f.ensure()

		slab, sp := w.slab, w.sp
		sz := f.nregs

		if f.intr != nil {
			sz = len(args)
		}

		regs := w.alloc(sz)

		for k, a := range args {
			regs[k] = a.get(w, fr)
		}

		var v V
		if f.intr != nil {
			if fn.free != nil {
				v = f.intr(w, append(append([]V(nil), regs...), fn.free...))
			} else {
				v = f.intr(w, regs)
			}
		} else {
			copy(regs[f.nparams:], fn.free)
			v = w.enter(f, regs, nil)
		}

		w.slab, w.sp = slab, sp

		return v
	}
}

// prepCall compiles a call whose operands are evaluated before it is made.
func (c *comp) prepCall(call *ssa.CallCommon, _ any) func(w *W, fr *Frame) func(w *W, d *Frame) V {
	args := make([]*opd, len(call.Args))
	for i, a := range call.Args {
		args[i] = c.opd(a)
	}

	eval := func(w *W, fr *Frame) []V {
		vs := make([]V, len(args))
		for i, a := range args {
			vs[i] = a.get(w, fr)
		}

		return vs
	}

	if call.IsInvoke() {
		x := c.opd(call.Value)
		m := call.Method

		return func(w *W, fr *Frame) func(w *W, d *Frame) V {
			i, _ := x.get(w, fr).r.(*Iface)
			if i == nil {
				w.panicNil()
			}

			f := w.p.method(i.t, m)
			vs := append([]V{i.v}, eval(w, fr)...)

			return func(w *W, d *Frame) V { return w.callDeferred(f, vs, nil, d) }
		}
	}

	if b, ok := call.Value.(*ssa.Builtin); ok {
		tmp := make([]*opd, len(args))
		for i := range tmp {
			tmp[i] = &opd{idx: i}
		}

		run := c.builtin(b, call, tmp)

		return func(w *W, fr *Frame) func(w *W, d *Frame) V {
			vs := eval(w, fr)

			return func(w *W, d *Frame) V { return run(w, &Frame{r: vs, defOf: d}) }
		}
	}

	x := c.opd(call.Value)

	return func(w *W, fr *Frame) func(w *W, d *Frame) V {
		fn, _ := x.get(w, fr).r.(*Fn)
		vs := eval(w, fr)

		return func(w *W, d *Frame) V {
			if fn == nil {
				w.panicNil()
			}

			return w.callDeferred(fn.fn, vs, fn.free, d)
		}
	}
}

func (c *comp) builtin(b *ssa.Builtin, call *ssa.CallCommon, args []*opd) func(w *W, fr *Frame) V {
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		x := args[0]
		t := c.ty(call.Args[0].Type())

		if t.kind == KPtr {
			n := uint64(t.elem.n)

			return func(w *W, fr *Frame) V { return V{n: n} }
		}

		if t.kind == KArray {
			n := uint64(t.n)

			return func(w *W, fr *Frame) V { return V{n: n} }
		}

		return func(w *W, fr *Frame) V {
			switch v := x.get(w, fr).r.(type) {
			case nil:
				return V{}
			case string:
				return V{n: uint64(len(v))}
			case *SymStr:
				return V{n: uint64(len(v.b))}
			case *Slice:
				if isCap {
					return V{n: uint64(v.cap)}
				}

				return V{n: uint64(v.len)}
			case *MapObj:
				return V{n: uint64(v.live)}
			case *ChanObj:
				if isCap {
					return V{n: uint64(v.cap)}
				}

				return V{n: uint64(len(v.buf))}
			}

			panic(engineErr{"len of " + t.String()})
		}
	case "append":
		s, t := args[0], c.ty(call.Args[0].Type())

		if len(args) == 1 {
			return func(w *W, fr *Frame) V { return s.get(w, fr) }
		}

		y, yt := args[1], c.ty(call.Args[1].Type())

		return func(w *W, fr *Frame) V {
			sv, yv := s.get(w, fr), y.get(w, fr)
			if yt.kind == KString {
				return w.append(sv, strCells(yv), t.elem)
			}

			ys, _ := yv.r.(*Slice)
			if ys == nil {
				return sv
			}

			return w.append(sv, ys.obj.cells[ys.off:ys.off+ys.len*t.elem.size], t.elem)
		}
	case "copy":
		d, s := args[0], args[1]
		dt, st := c.ty(call.Args[0].Type()), c.ty(call.Args[1].Type())

		return func(w *W, fr *Frame) V {
			ds, _ := d.get(w, fr).r.(*Slice)
			sv := s.get(w, fr)

			if ds == nil || sv.r == nil {
				return V{}
			}

			var src []V

			if st.kind == KString {
				src = strCells(sv)
			} else {
				ss := sv.r.(*Slice)
				src = ss.obj.cells[ss.off : ss.off+ss.len*dt.elem.size]
			}

			n := min(ds.len*dt.elem.size, len(src))
			w.copyCells(ds.obj, ds.off, src[:n])

			if dt.elem.size == 0 {
				return V{n: uint64(min(ds.len, sv.r.(*Slice).len))}
			}

			return V{n: uint64(n / dt.elem.size)}
		}
	case "delete":
		m, k := args[0], args[1]
		kt := c.ty(call.Args[0].Type()).key

		return func(w *W, fr *Frame) V {
			mo, _ := m.get(w, fr).r.(*MapObj)
			if mo != nil {
				w.mapWrite(mo, func() { w.mapDel(mo, kt, k.get(w, fr)) })
			}

			return V{}
		}
	case "clear":
		x := args[0]
		t := c.ty(call.Args[0].Type())

		return func(w *W, fr *Frame) V {
			switch v := x.get(w, fr).r.(type) {
			case *MapObj:
				w.mapMut(v)
				v.ents, v.idx, v.nsym, v.live = nil, map[string]*MapEnt{}, 0, 0
			case *Slice:
				w.copyCells(v.obj, v.off, make([]V, v.len*t.elem.size))
			}

			return V{}
		}
	case "min", "max":
		t := c.ty(call.Args[0].Type())
		isMax := b.Name() == "max"

		return func(w *W, fr *Frame) V {
			r := args[0].get(w, fr)

			for _, a := range args[1:] {
				v := a.get(w, fr)

				var less V

				switch t.kind {
				case KString:
					less = w.strLess(v, r)
				case KFloat:
					less = w.floatLess(v, r, t)
				default:
					less = w.intLess(v, r, t)
				}

				if isMax {
					switch t.kind {
					case KString:
						less = w.strLess(r, v)
					case KFloat:
						less = w.floatLess(r, v, t)
					default:
						less = w.intLess(r, v, t)
					}
				}

				if less.r != nil && t.kind == KInt {
					r = tv(w.ts.Ite(less.r.(*Term), w.term(v, t), w.term(r, t)))
				} else if w.decideV(less) {
					r = v
				}
			}

			return r
		}
	case "close":
		x := args[0]

		return func(w *W, fr *Frame) V { return w.chanClose(x.get(w, fr)) }
	case "print", "println":
		return func(w *W, fr *Frame) V { return V{} }
	case "panic":
		return func(w *W, fr *Frame) V {
			panic(w.newPanic(args[0].get(w, fr), ""))
		}
	case "recover":
		return func(w *W, fr *Frame) V {
			if fr.defOf == nil || fr.defOf.panic_ == nil {
				return V{}
			}

			v := fr.defOf.panic_.v
			fr.defOf.panic_ = nil

			return v
		}
	case "ssa:wrapnilchk":
		return func(w *W, fr *Frame) V {
			v := args[0].get(w, fr)
			if v.r == nil {
				w.panicNil()
			}

			return v
		}
	case "SliceData":
		return func(w *W, fr *Frame) V {
			s, _ := args[0].get(w, fr).r.(*Slice)
			if s == nil {
				return V{}
			}

			return V{n: uint64(s.off), r: s.obj}
		}
	case "StringData":
		return func(w *W, fr *Frame) V {
			s := args[0].get(w, fr)
			if s.r == nil {
				return V{}
			}

			o := w.newObj(0, w.p.t.u8)
			o.cells = strBytes(s)

			return V{r: o}
		}
	case "String":
		// The standard library does not write to such bytes.
		repo := c.f.repo

		return func(w *W, fr *Frame) V {
			p := args[0].get(w, fr)
			n := args[1].get(w, fr).n
			o, _ := p.r.(*Obj)

			if n == 0 || o == nil {
				return V{}
			}

			if repo {
				return aliasStr(o, int(p.n), int(n))
			}

			return mkStrCopy(o.cells[p.n : p.n+n])
		}
	case "Slice":
		return func(w *W, fr *Frame) V {
			p := args[0].get(w, fr)
			n := int(args[1].get(w, fr).n)
			o, _ := p.r.(*Obj)

			if o == nil {
				return V{}
			}

			return V{r: &Slice{obj: o, off: int(p.n), len: n, cap: n}}
		}
	case "Sizeof", "Alignof":
		sizes := types.SizesFor("gc", "amd64")
		t := call.Args[0].Type()
		n := uint64(sizes.Alignof(t))

		if b.Name() == "Sizeof" {
			n = uint64(sizes.Sizeof(t))
		}

		return func(w *W, fr *Frame) V { return V{n: n} }
	case "Add":
		return func(w *W, fr *Frame) V { panic(engineErr{"unsafe.Add"}) }
	}

	name := b.Name()

	return func(w *W, fr *Frame) V { panic(engineErr{"builtin " + name}) }
}

// strCells gives the bytes of a string; the result must not be written to.
func strCells(v V) []V {
	if s, ok := v.r.(*SymStr); ok {
		return s.b
	}

	return strBytes(v)
}

func (w *W) copyCells(o *Obj, off int, src []V) {
	if o.init && !w.inInit {
		for i := range src {
			w.trail = append(w.trail, trailEnt{o, off + i, o.cells[off+i]})
		}
	}

	copy(o.cells[off:], src)
}

var gcSizes = types.SizesFor("gc", "amd64")

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundup(n int) int {
	if n <= 32768 {
		for _, c := range sizeClasses {
			if n <= c {
				return c
			}
		}
	}

	return (n + 8191) &^ 8191
}

// goSize is the size in bytes of a value of type t in the real implementation.
func (w *W) goSize(t *TInfo) int {
	if s, ok := w.sizes[t]; ok {
		return s
	}

	s := int(gcSizes.Sizeof(t.T))
	w.sizes[t] = s

	return s
}

func (w *W) growCap(old, need int, t *TInfo) int {
	nc := old
	if d := old * 2; need > d {
		nc = need
	} else if old < 256 {
		nc = d
	} else {
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}

	sz := w.goSize(t)
	if sz == 0 {
		return need
	}

	return roundup(nc*sz) / sz
}

func (w *W) append(s V, add []V, et *TInfo) V {
	if et.size == 0 {
		panic(engineErr{"append of zero-sized elements"})
	}

	n := len(add) / et.size
	if n == 0 {
		return s
	}

	old, _ := s.r.(*Slice)
	if old == nil {
		old = &Slice{}
	}

	if old.len+n <= old.cap {
		w.copyCells(old.obj, old.off+old.len*et.size, add)

		return V{r: &Slice{obj: old.obj, off: old.off, len: old.len + n, cap: old.cap}}
	}

	nc := w.growCap(old.cap, old.len+n, et)
	o := w.newObj(nc*et.size, et)

	if old.obj != nil {
		copy(o.cells, old.obj.cells[old.off:old.off+old.len*et.size])
	}

	copy(o.cells[old.len*et.size:], add)

	return V{r: &Slice{obj: o, len: old.len + n, cap: nc}}
}

// bytesOf makes a fresh []byte.
func (w *W) bytesOf(b []V) V {
	c := roundup(max(len(b), 1))
	o := w.newObj(c, w.p.t.u8)
	copy(o.cells, b)

	return V{r: &Slice{obj: o, len: len(b), cap: c}}
}

func sliceCells(v V, es int) []V {
	s, _ := v.r.(*Slice)
	if s == nil {
		return nil
	}

	return s.obj.cells[s.off : s.off+s.len*es]
}

func runeStr(n uint64) string {
	r := rune(int32(n))
	if int64(int32(n)) != int64(n) && n > 0x7fffffff {
		r = utf8.RuneError
	}

	return string(r)
}
