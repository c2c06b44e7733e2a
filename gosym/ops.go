package main

import (
	"go/token"
	"go/types"
	"math"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

// atomicT is a one-entry cache from a dynamic type to a function.
type atomicT struct{ p atomic.Pointer[tf] }

type tf struct {
	t *TInfo
	f *CFn
}

func (a *atomicT) get(t *TInfo) *CFn {
	if x := a.p.Load(); x != nil && x.t == t {
		return x.f
	}

	return nil
}

func (a *atomicT) set(t *TInfo, f *CFn) { a.p.Store(&tf{t, f}) }

func (w *W) intLess(a, b V, t *TInfo) V {
	if a.r == nil && b.r == nil {
		if t.signed {
			return bv(sx(a.n, t.w) < sx(b.n, t.w))
		}

		return bv(a.n < b.n)
	}

	op := OpUlt
	if t.signed {
		op = OpSlt
	}

	return tv(w.ts.mk(op, 0, w.term(a, t), w.term(b, t), nil))
}

func (c *comp) binop(in *ssa.BinOp) instr {
	d, xo, yo := c.reg(in), c.opd(in.X), c.opd(in.Y)
	t := c.ty(in.X.Type())
	x, y := *xo, *yo

	switch in.Op {
	case token.EQL, token.NEQ:
		neg := in.Op == token.NEQ

		// Comparing an interface with a non-interface is converted by go/ssa already.
		if t.kind == KInt || t.kind == KBool {
			return func(w *W, fr *Frame) {
				a, b := x.get(w, fr), y.get(w, fr)
				if a.r == nil && b.r == nil {
					fr.r[d] = bv((a.n == b.n) != neg)

					return
				}

				v := tv(w.ts.Eq(w.term(a, t), w.term(b, t)))
				if neg {
					v = w.not(v)
				}

				fr.r[d] = v
			}
		}

		return func(w *W, fr *Frame) {
			v := w.eq(t, x.get(w, fr), y.get(w, fr))
			if neg {
				v = w.not(v)
			}

			fr.r[d] = v
		}
	}

	switch t.kind {
	case KInt:
		return c.intOp(in, d, x, y, t)
	case KString:
		switch in.Op {
		case token.ADD:
			return func(w *W, fr *Frame) { fr.r[d] = strConcat(x.get(w, fr), y.get(w, fr)) }
		case token.LSS:
			return func(w *W, fr *Frame) { fr.r[d] = w.strLess(x.get(w, fr), y.get(w, fr)) }
		case token.GTR:
			return func(w *W, fr *Frame) { fr.r[d] = w.strLess(y.get(w, fr), x.get(w, fr)) }
		case token.LEQ:
			return func(w *W, fr *Frame) { fr.r[d] = w.not(w.strLess(y.get(w, fr), x.get(w, fr))) }
		case token.GEQ:
			return func(w *W, fr *Frame) { fr.r[d] = w.not(w.strLess(x.get(w, fr), y.get(w, fr))) }
		}
	case KBool:
		switch in.Op {
		case token.AND, token.LAND:
			return func(w *W, fr *Frame) { fr.r[d] = w.and(x.get(w, fr), y.get(w, fr)) }
		case token.OR, token.LOR:
			return func(w *W, fr *Frame) { fr.r[d] = w.or(x.get(w, fr), y.get(w, fr)) }
		}
	case KFloat:
		op := in.Op

		return func(w *W, fr *Frame) {
			p, q := x.get(w, fr), y.get(w, fr)
			if p.r != nil || q.r != nil {
				fr.r[d] = w.floatOp(op, w.term(p, t), w.term(q, t), t)

				return
			}

			a, b := w.fl(p, t), w.fl(q, t)

			switch op {
			case token.ADD:
				fr.r[d] = flV(a+b, t)
			case token.SUB:
				fr.r[d] = flV(a-b, t)
			case token.MUL:
				fr.r[d] = flV(a*b, t)
			case token.QUO:
				fr.r[d] = flV(a/b, t)
			case token.LSS:
				fr.r[d] = bv(a < b)
			case token.LEQ:
				fr.r[d] = bv(a <= b)
			case token.GTR:
				fr.r[d] = bv(a > b)
			case token.GEQ:
				fr.r[d] = bv(a >= b)
			}
		}
	}

	name := in.String() + " in " + c.f.name

	return func(w *W, fr *Frame) { panic(engineErr{"binop " + name}) }
}

func (c *comp) intOp(in *ssa.BinOp, d int, x, y opd, t *TInfo) instr {
	wd, sg, m := t.w, t.signed, mask(t.w)

	cmp := func(f func(a, b uint64) bool, op Op, swap, neg bool) instr {
		return func(w *W, fr *Frame) {
			a, b := x.get(w, fr), y.get(w, fr)
			if a.r == nil && b.r == nil {
				fr.r[d] = bv(f(a.n, b.n))

				return
			}

			p, q := w.term(a, t), w.term(b, t)
			if swap {
				p, q = q, p
			}

			v := tv(w.ts.mk(op, 0, p, q, nil))
			if neg {
				v = w.not(v)
			}

			fr.r[d] = v
		}
	}

	arith := func(f func(a, b uint64) uint64, op Op) instr {
		return func(w *W, fr *Frame) {
			a, b := x.get(w, fr), y.get(w, fr)
			if a.r == nil && b.r == nil {
				fr.r[d] = V{n: f(a.n, b.n) & m}

				return
			}

			fr.r[d] = tv(w.ts.mk(op, wd, w.term(a, t), w.term(b, t), nil))
		}
	}

	lt, le := OpUlt, OpUle
	if sg {
		lt, le = OpSlt, OpSle
	}

	_ = le

	less := func(a, b uint64) bool { return a < b }
	if sg {
		less = func(a, b uint64) bool { return sx(a, wd) < sx(b, wd) }
	}

	switch in.Op {
	case token.ADD:
		return arith(func(a, b uint64) uint64 { return a + b }, OpAdd)
	case token.SUB:
		return arith(func(a, b uint64) uint64 { return a - b }, OpSub)
	case token.MUL:
		return arith(func(a, b uint64) uint64 { return a * b }, OpMul)
	case token.AND:
		return arith(func(a, b uint64) uint64 { return a & b }, OpBvAnd)
	case token.OR:
		return arith(func(a, b uint64) uint64 { return a | b }, OpBvOr)
	case token.XOR:
		return arith(func(a, b uint64) uint64 { return a ^ b }, OpBvXor)
	case token.AND_NOT:
		return func(w *W, fr *Frame) {
			a, b := x.get(w, fr), y.get(w, fr)
			if a.r == nil && b.r == nil {
				fr.r[d] = V{n: a.n &^ b.n}

				return
			}

			fr.r[d] = tv(w.ts.mk(OpBvAnd, wd, w.term(a, t), w.ts.mk(OpBvNot, wd, w.term(b, t), nil, nil), nil))
		}
	case token.LSS:
		return cmp(less, lt, false, false)
	case token.GTR:
		return cmp(func(a, b uint64) bool { return less(b, a) }, lt, true, false)
	case token.LEQ:
		return cmp(func(a, b uint64) bool { return !less(b, a) }, lt, true, true)
	case token.GEQ:
		return cmp(func(a, b uint64) bool { return !less(a, b) }, lt, false, true)
	case token.QUO, token.REM:
		rem := in.Op == token.REM

		return func(w *W, fr *Frame) {
			a, b := x.get(w, fr), y.get(w, fr)
			if w.decideV(w.eq(t, b, V{})) {
				w.panicRT("runtime error: integer divide by zero")
			}

			op := OpUdiv

			switch {
			case sg && rem:
				op = OpSrem
			case sg:
				op = OpSdiv
			case rem:
				op = OpUrem
			}

			if a.r == nil && b.r == nil {
				fr.r[d] = V{n: evalOp(op, wd, wd, a.n, b.n, 0)}

				return
			}

			fr.r[d] = tv(w.ts.mk(op, wd, w.term(a, t), w.term(b, t), nil))
		}
	case token.SHL, token.SHR:
		yt := c.ty(in.Y.Type())
		op := OpShl

		if in.Op == token.SHR {
			op = OpLshr
			if sg {
				op = OpAshr
			}
		}

		return func(w *W, fr *Frame) {
			a, b := x.get(w, fr), y.get(w, fr)

			if yt.signed && w.decideV(w.intLess(b, V{}, yt)) {
				w.panicRT("runtime error: negative shift amount")
			}

			if a.r == nil && b.r == nil {
				fr.r[d] = V{n: evalOp(op, wd, wd, a.n, b.n, 0)}

				return
			}

			// Bring the shift count to the width of the operand, saturating.
			bt := w.term(b, yt)

			switch {
			case yt.w < wd:
				bt = w.ts.mk(OpZext, wd, bt, nil, nil)
			case yt.w > wd:
				big := w.ts.mk(OpUle, 0, w.ts.Const(uint64(wd), yt.w), bt, nil)
				bt = w.ts.Ite(big, w.ts.Const(uint64(wd), wd), w.ts.mk(OpTrunc, wd, bt, nil, nil))
			}

			fr.r[d] = tv(w.ts.mk(op, wd, w.term(a, t), bt, nil))
		}
	}

	name := in.String()

	return func(w *W, fr *Frame) { panic(engineErr{"int op " + name}) }
}

func (c *comp) unop(in *ssa.UnOp) instr {
	d, xo := c.reg(in), c.opd(in.X)
	x := *xo
	t := c.ty(in.X.Type())

	switch in.Op {
	case token.ARROW:
		et, commaOk := t.elem, in.CommaOk

		return func(w *W, fr *Frame) {
			v, ok := w.opRecv(x.get(w, fr), et)

			if !commaOk {
				fr.r[d] = v

				return
			}

			a := make(Agg, et.size+1)
			copyFlat(a, v, et)
			a[et.size] = bv(ok)
			fr.r[d] = V{r: a}
		}
	case token.MUL:
		et := c.ty(in.Type())

		if et.kind == KString && c.f.repo {
			return func(w *W, fr *Frame) {
				p := x.get(w, fr)

				switch o := p.r.(type) {
				case *Obj:
					v := o.cells[p.n]

					// A slice of bytes may have been taken for a string.
					if s, ok := v.r.(*Slice); ok {
						v = aliasStr(s.obj, s.off, s.len)
					}

					fr.r[d] = v
				case *symPtr:
					fr.r[d] = w.symRead(o.obj.cells[o.off:o.off+o.n], o.n, o.idx, o.it, o.et)
				default:
					w.panicNil()
				}
			}
		}

		if !et.agg {
			return func(w *W, fr *Frame) {
				p := x.get(w, fr)

				switch o := p.r.(type) {
				case *Obj:
					fr.r[d] = o.cells[p.n]
				case *symPtr:
					fr.r[d] = w.symRead(o.obj.cells[o.off:o.off+o.n], o.n, o.idx, o.it, o.et)
				default:
					w.panicNil()
				}
			}
		}

		return func(w *W, fr *Frame) {
			p := x.get(w, fr)
			o, _ := p.r.(*Obj)

			if o == nil {
				w.panicNil()
			}

			fr.r[d] = load(o, int(p.n), et)
		}
	case token.NOT:
		return func(w *W, fr *Frame) { fr.r[d] = w.not(x.get(w, fr)) }
	case token.SUB:
		if t.kind == KFloat {
			return func(w *W, fr *Frame) {
				v := x.get(w, fr)
				if v.r != nil {
					fr.r[d] = tv(w.ts.mk(OpBvXor, t.w, v.r.(*Term), w.ts.Const(1<<(t.w-1), t.w), nil))

					return
				}

				fr.r[d] = flV(-w.fl(v, t), t)
			}
		}

		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.r == nil {
				fr.r[d] = V{n: -v.n & mask(t.w)}

				return
			}

			fr.r[d] = tv(w.ts.mk(OpNeg, t.w, v.r.(*Term), nil, nil))
		}
	case token.XOR:
		return func(w *W, fr *Frame) {
			v := x.get(w, fr)
			if v.r == nil {
				fr.r[d] = V{n: ^v.n & mask(t.w)}

				return
			}

			fr.r[d] = tv(w.ts.mk(OpBvNot, t.w, v.r.(*Term), nil, nil))
		}
	}

	name := in.String()

	return func(w *W, fr *Frame) { panic(engineErr{"unop " + name}) }
}

func (w *W) convInt(v V, from, to *TInfo) V {
	if v.r == nil {
		n := v.n
		if from.signed {
			n = uint64(sx(n, from.w))
		}

		return V{n: n & mask(to.w)}
	}

	t := v.r.(*Term)

	switch {
	case to.w == from.w:
		return v
	case to.w < from.w:
		return tv(w.ts.mk(OpTrunc, to.w, t, nil, nil))
	case from.signed:
		return tv(w.ts.mk(OpSext, to.w, t, nil, nil))
	default:
		return tv(w.ts.mk(OpZext, to.w, t, nil, nil))
	}
}

func (c *comp) convert(d int, x *opd, from, to *TInfo) instr {
	return func(w *W, fr *Frame) { fr.r[d] = w.conv(x.get(w, fr), from, to) }
}

func isBytes(t *TInfo) bool { return t.kind == KSlice && t.elem.kind == KInt && t.elem.w == 8 }
func isRunes(t *TInfo) bool { return t.kind == KSlice && t.elem.kind == KInt && t.elem.w == 32 }

func (w *W) conv(v V, from, to *TInfo) V {
	switch {
	case from.kind == KInt && to.kind == KInt:
		return w.convInt(v, from, to)
	case from.kind == KInt && to.kind == KFloat:
		if v.r != nil {
			op := OpFromU
			if from.signed {
				op = OpFromS
			}

			return tv(w.ts.mk(op, to.w, v.r.(*Term), nil, nil))
		}

		if from.signed {
			return flV(float64(sx(v.n, from.w)), to)
		}

		return flV(float64(v.n), to)
	case from.kind == KFloat && to.kind == KInt:
		if v.r != nil {
			return w.floatInt(v.r.(*Term), to)
		}

		f := w.fl(v, from)
		if to.signed {
			return V{n: uint64(int64(f)) & mask(to.w)}
		}

		if f >= math.MaxInt64 {
			return V{n: uint64(f) & mask(to.w)}
		}

		return V{n: uint64(int64(f)) & mask(to.w)}
	case from.kind == KFloat && to.kind == KFloat:
		if v.r != nil {
			if from.w == to.w {
				return v
			}

			return tv(w.ts.mk(OpFToF, to.w, v.r.(*Term), nil, nil))
		}

		return flV(w.fl(v, from), to)
	case from.kind == KString && to.kind == KString:
		return v
	case from.kind == KString && isBytes(to):
		return w.bytesOf(strCells(v))
	case isBytes(from) && to.kind == KString:
		return mkStrCopy(sliceCells(v, 1))
	case from.kind == KString && isRunes(to):
		var out []V

		for i := 0; i < strLen(v); {
			r, n := w.decodeRune(v, i)
			out = append(out, r)
			i += n
		}

		o := w.newObj(len(out), to.elem)
		copy(o.cells, out)

		return V{r: &Slice{obj: o, len: len(out), cap: len(out)}}
	case isRunes(from) && to.kind == KString:
		var acc []V

		for _, r := range sliceCells(v, 1) {
			acc = append(acc, strCells(w.runeToStr(r, w.p.t.rune_))...)
		}

		return mkStr(acc)
	case from.kind == KInt && to.kind == KString:
		return w.runeToStr(v, from)
	case from.kind == KPtr && to.kind == KUnsafe, from.kind == KUnsafe && to.kind == KPtr,
		from.kind == KUnsafe && to.kind == KUnsafe:
		return v
	case from.kind == KUnsafe && to.kind == KInt:
		// A uintptr: only good for comparing.
		if o, ok := v.r.(*Obj); ok {
			return V{n: uint64(o.id)<<20 + v.n*8}
		}

		return V{}
	case types.Identical(from.T.Underlying(), to.T.Underlying()):
		return v
	case from.kind == to.kind && (from.kind == KPtr || from.kind == KSlice || from.kind == KMap || from.kind == KFunc || from.kind == KIface):
		return v
	}

	panic(engineErr{"conversion " + from.String() + " to " + to.String()})
}

// floatOp computes on floating-point numbers.
func (w *W) floatOp(op token.Token, a, b *Term, t *TInfo) V {
	switch op {
	case token.ADD:
		return tv(w.ts.mk(OpFAdd, t.w, a, b, nil))
	case token.SUB:
		return tv(w.ts.mk(OpFSub, t.w, a, b, nil))
	case token.MUL:
		return tv(w.ts.mk(OpFMul, t.w, a, b, nil))
	case token.QUO:
		return tv(w.ts.mk(OpFDiv, t.w, a, b, nil))
	case token.LSS:
		return tv(w.ts.mk(OpFLt, 0, a, b, nil))
	case token.LEQ:
		return tv(w.ts.mk(OpFLe, 0, a, b, nil))
	case token.GTR:
		return tv(w.ts.mk(OpFLt, 0, b, a, nil))
	case token.GEQ:
		return tv(w.ts.mk(OpFLe, 0, b, a, nil))
	}

	panic(engineErr{"float op " + op.String()})
}

func (w *W) floatLess(a, b V, t *TInfo) V {
	if a.r != nil || b.r != nil {
		return w.floatOp(token.LSS, w.term(a, t), w.term(b, t), t)
	}

	return bv(w.fl(a, t) < w.fl(b, t))
}

// floatInt converts a floating-point number to an integer, as amd64 does.
func (w *W) floatInt(a *Term, to *TInfo) V {
	r := w.ts.mk(OpFToS, 64, a, nil, nil)

	if !to.signed && to.w == 64 {
		lim := w.ts.Const(floatBits(0x1p63, a.w), a.w)
		high := w.ts.mk(OpBvXor, 64, w.ts.mk(OpFToS, 64, w.ts.mk(OpFSub, a.w, a, lim, nil), nil, nil), w.ts.Const(1<<63, 64), nil)
		r = w.ts.Ite(w.ts.mk(OpFLe, 0, lim, a, nil), high, r)
	}

	if to.w < 64 {
		r = w.ts.mk(OpTrunc, to.w, r, nil, nil)
	}

	return tv(r)
}

func (w *W) runeToStr(v V, from *TInfo) V {
	if v.r == nil {
		n := v.n
		if from.signed {
			n = uint64(sx(n, from.w))
		}

		if n > 0x10FFFF {
			return sv("\uFFFD")
		}

		return sv(string(rune(n)))
	}

	t := v.r.(*Term)
	if w.decide(w.ts.Ult(t, w.ts.Const(0x80, t.w))) {
		return mkStr([]V{tv(w.ts.mk(OpTrunc, 8, t, nil, nil))})
	}

	f := w.p.funcByName("unicode/utf8", "AppendRune")
	r := w.call(f, []V{{}, w.convInt(v, from, w.p.t.rune_)}, nil)

	return mkStrCopy(sliceCells(r, 1))
}
