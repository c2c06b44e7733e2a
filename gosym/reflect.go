package main

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A reflect.Value is three cells: the type (*TInfo), the value or its address, and flags.
const (
	fAddr = 1 // cell 1 is the address
	fRO   = 2 // obtained by an unexported field
)

type rval struct {
	t  *TInfo
	v  V
	fl uint64
}

func rv(v V) rval { return rvA(agg(v)) }

func rvA(a Agg) rval {
	t, _ := a[0].r.(*TInfo)

	v := a[1]
	if b, ok := v.r.(boxV); ok {
		v = b.v
	}

	return rval{t, v, a[2].n}
}

type boxV struct{ v V }

func (x rval) pack() V {
	if x.t == nil {
		return V{r: make(Agg, 3)}
	}

	return V{r: Agg{{r: x.t}, x.v, {n: x.fl}}}
}

func (w *W) must(x rval, what string) {
	if x.t == nil {
		w.panicRT("reflect: call of reflect.Value." + what + " on zero Value")
	}
}

// get gives the value, loaded if it is addressable.
func (w *W) get(x rval) V {
	if x.fl&fAddr != 0 {
		return load(x.v.r.(*Obj), int(x.v.n), x.t)
	}

	return x.v
}

func (w *W) set(x rval, v V) {
	if x.fl&fAddr == 0 || x.fl&fRO != 0 {
		w.panicRT("reflect: reflect.Value.Set using unaddressable value")
	}

	w.store(x.v.r.(*Obj), int(x.v.n), x.t, v)
}

func (w *W) rtypeV(t *TInfo) V {
	if t == nil {
		return V{}
	}

	o := w.rtypes[t.id]
	if o == nil {
		o = &Obj{cells: make([]V, 1), init: true, t: t, id: -int64(t.id) - 1}
		w.rtypes[t.id] = o
	}

	return V{r: &Iface{w.p.typeByName("reflect", "*rtype"), V{r: o}}}
}

func (w *W) rtypeOf(v V) *TInfo {
	if v.r == nil {
		w.panicNil()
	}

	switch x := v.r.(type) {
	case *Iface:
		return x.v.r.(*Obj).t
	case *Obj:
		return x.t
	}

	panic(engineErr{"rtypeOf"})
}

func goKind(t *TInfo) reflect.Kind {
	if t == nil {
		return reflect.Invalid
	}

	switch t.kind {
	case KBool:
		return reflect.Bool
	case KInt:
		switch t.basic {
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		}

		return reflect.Uintptr
	case KFloat:
		if t.w == 32 {
			return reflect.Float32
		}

		return reflect.Float64
	case KComplex:
		return reflect.Complex128
	case KString:
		return reflect.String
	case KPtr:
		return reflect.Pointer
	case KUnsafe:
		return reflect.UnsafePointer
	case KSlice:
		return reflect.Slice
	case KMap:
		return reflect.Map
	case KChan:
		return reflect.Chan
	case KFunc:
		return reflect.Func
	case KIface:
		return reflect.Interface
	case KStruct:
		return reflect.Struct
	case KArray:
		return reflect.Array
	}

	return reflect.Invalid
}

// typeStr is what reflect's Type.String gives.
func typeStr(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (w *W) ifaceOf(x rval) V {
	if x.t.kind == KIface {
		return w.get(x)
	}

	return V{r: &Iface{x.t, w.get(x)}}
}

func fromIface(v V) rval {
	i, _ := v.r.(*Iface)
	if i == nil {
		return rval{}
	}

	return rval{i.t, i.v, 0}
}

// assignTo converts x so that it can be stored in a place of type t.
func (w *W) assignTo(x rval, t *TInfo) V {
	w.must(x, "Set")

	if t.kind == KIface {
		if x.t.kind == KIface {
			return w.get(x)
		}

		if !w.p.implements(x.t, t, t.T.Underlying().(*types.Interface)) {
			w.panicRT("reflect.Set: value of type " + typeStr(x.t.T) + " is not assignable to type " + typeStr(t.T))
		}

		return V{r: &Iface{x.t, w.get(x)}}
	}

	if x.t != t && !types.AssignableTo(x.t.T, t.T) {
		w.panicRT("reflect.Set: value of type " + typeStr(x.t.T) + " is not assignable to type " + typeStr(t.T))
	}

	return w.get(x)
}

func structOf(t *TInfo) *types.Struct { return t.T.Underlying().(*types.Struct) }

func (w *W) field(x rval, i int) rval {
	w.must(x, "Field")

	if x.t.kind != KStruct || i < 0 || i >= len(x.t.fields) {
		w.panicRT("reflect: Field index out of range")
	}

	f := x.t.fields[i]
	sf := structOf(x.t).Field(i)
	fl := x.fl

	if !sf.Exported() {
		fl |= fRO
	}

	if x.fl&fAddr != 0 {
		return rval{f.t, V{n: x.v.n + uint64(f.off), r: x.v.r}, fl}
	}

	return rval{f.t, part(agg(x.v), f.off, f.t), fl}
}

func (w *W) structField(t *TInfo, i int, index []int) V {
	st := structOf(t)
	f := st.Field(i)
	pkg := ""

	if !f.Exported() {
		pkg = f.Pkg().Path()
	}

	o := w.newObj(len(index), w.p.t.i64)
	for k, n := range index {
		o.cells[k] = iret(n)
	}

	return V{r: Agg{
		sv(f.Name()), sv(pkg), w.rtypeV(t.fields[i].t), sv(st.Tag(i)), iret(t.fields[i].off * 8),
		{r: &Slice{obj: o, len: len(index), cap: len(index)}}, bv(f.Embedded()),
	}}
}

func (w *W) elemR(x rval) rval {
	w.must(x, "Elem")

	switch x.t.kind {
	case KIface:
		r := fromIface(w.get(x))
		r.fl |= x.fl & fRO

		return r
	case KPtr:
		p := w.get(x)
		if p.r == nil {
			return rval{}
		}

		return rval{x.t.elem, p, fAddr | x.fl&fRO}
	}

	w.panicRT("reflect: call of reflect.Value.Elem on " + goKind(x.t).String() + " Value")

	return rval{}
}

// methodSet lists the exported methods of t, sorted by name.
func (p *Prog) methodsOf(t *TInfo) []*types.Selection {
	p.msMu.Lock()
	defer p.msMu.Unlock()

	ms := p.prog.MethodSets.MethodSet(t.T)

	var out []*types.Selection

	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}

	return out
}

func (p *Prog) methodValue(s *types.Selection) *ssa.Function {
	p.msMu.Lock()
	defer p.msMu.Unlock()

	return p.prog.MethodValue(s)
}

// sigNoRecv drops the receiver of a signature.
func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func (w *W) bindMethod(x rval, s *types.Selection) rval {
	recv := w.get(x)
	sig := w.p.types.of(sigNoRecv(s.Obj().Type().(*types.Signature)))

	var f *CFn

	if x.t.kind == KIface {
		i, _ := recv.r.(*Iface)
		if i == nil {
			w.panicNil()
		}

		f = w.p.method(i.t, s.Obj().(*types.Func))
		recv = i.v
	} else {
		f = w.p.fn(w.p.methodValue(s))
	}

	return rval{sig, nativeFn(f.name, func(w *W, a []V) V {
		return w.call(f, append([]V{recv}, a...), nil)
	}), x.fl & fRO}
}

func (w *W) rcall(x rval, args []V, slice bool) V {
	w.must(x, "Call")

	sig := x.t.T.Underlying().(*types.Signature)
	np := sig.Params().Len()

	var vs []V

	fixed := np
	if sig.Variadic() && !slice {
		fixed--
	}

	if len(args) < fixed || !sig.Variadic() && len(args) != np {
		w.panicRT("reflect: Call with too few input arguments")
	}

	for i := 0; i < fixed; i++ {
		vs = append(vs, w.assignTo(rv(args[i]), w.p.types.of(sig.Params().At(i).Type())))
	}

	if sig.Variadic() && !slice {
		st := w.p.types.of(sig.Params().At(np - 1).Type())
		s := V{}

		for _, a := range args[fixed:] {
			s = w.append(s, flat(w.assignTo(rv(a), st.elem), st.elem), st.elem)
		}

		vs = append(vs, s)
	}

	r := w.callFn(w.get(x), vs)
	nr := sig.Results().Len()
	rvt := w.p.typeByName("reflect", "Value")

	if nr == 0 {
		return V{}
	}

	res := w.mkSlice(rvt, nr, nr)
	cells := res.r.(*Slice).obj.cells

	rt := w.p.types.of(sig.Results())
	for i := 0; i < nr; i++ {
		v := r
		if nr > 1 {
			v = part(agg(r), rt.fields[i].off, rt.fields[i].t)
		}

		copy(cells[i*3:], agg(rval{rt.fields[i].t, v, 0}.pack()))
	}

	return res
}

func (w *W) rlen(x rval) int {
	w.must(x, "Len")

	v := w.get(x)

	switch x.t.kind {
	case KString:
		return strLen(v)
	case KSlice:
		if s, ok := v.r.(*Slice); ok {
			return s.len
		}

		return 0
	case KArray:
		return x.t.n
	case KMap:
		if m, ok := v.r.(*MapObj); ok {
			return m.live
		}

		return 0
	case KPtr:
		if x.t.elem.kind == KArray {
			return x.t.elem.n
		}
	}

	w.panicRT("reflect: call of reflect.Value.Len on " + goKind(x.t).String() + " Value")

	return 0
}

func (w *W) rindex(x rval, i int) rval {
	n := w.rlen(x)
	if i < 0 || i >= n {
		w.panicRT("reflect: " + goKind(x.t).String() + " index out of range")
	}

	switch x.t.kind {
	case KString:
		return rval{w.p.t.u8, strAt(w.get(x), i), x.fl & fRO}
	case KSlice:
		s := w.get(x).r.(*Slice)

		return rval{x.t.elem, V{n: uint64(s.off + i*x.t.elem.size), r: s.obj}, fAddr | x.fl&fRO}
	case KArray:
		if x.fl&fAddr != 0 {
			return rval{x.t.elem, V{n: x.v.n + uint64(i*x.t.elem.size), r: x.v.r}, x.fl}
		}

		return rval{x.t.elem, part(agg(x.v), i*x.t.elem.size, x.t.elem), x.fl}
	}

	panic(engineErr{"reflect index"})
}

func (w *W) isZero(t *TInfo, v V) V {
	switch t.kind {
	case KBool, KInt:
		return w.eq(t, v, V{})
	case KFloat:
		return bv(v.n == 0)
	case KString:
		return bv(strLen(v) == 0)
	case KStruct:
		r := V{n: 1}
		for _, f := range t.fields {
			r = w.and(r, w.isZero(f.t, part(agg(v), f.off, f.t)))
		}

		return r
	case KArray:
		r := V{n: 1}
		for i := 0; i < t.n; i++ {
			r = w.and(r, w.isZero(t.elem, part(agg(v), i*t.elem.size, t.elem)))
		}

		return r
	}

	return bv(v.r == nil)
}

// deepEqual is reflect.DeepEqual.
func (w *W) deepEqual(t *TInfo, a, b V, depth int) V {
	if depth > 200 {
		panic(engineErr{"DeepEqual: too deep"})
	}

	switch t.kind {
	case KIface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)

		if x == nil || y == nil {
			return bv(x == y)
		}

		if x.t != y.t {
			return V{}
		}

		return w.deepEqual(x.t, x.v, y.v, depth+1)
	case KPtr:
		if a.r == b.r && a.n == b.n {
			return V{n: 1}
		}

		if a.r == nil || b.r == nil {
			return V{}
		}

		return w.deepEqual(t.elem, load(a.r.(*Obj), int(a.n), t.elem), load(b.r.(*Obj), int(b.n), t.elem), depth+1)
	case KSlice:
		x, _ := a.r.(*Slice)
		y, _ := b.r.(*Slice)

		if x == nil || y == nil {
			return bv(x == y)
		}

		if x.len != y.len {
			return V{}
		}

		r := V{n: 1}

		for i := 0; i < x.len; i++ {
			sz := t.elem.size
			e := w.deepEqual(t.elem, load(x.obj, x.off+i*sz, t.elem), load(y.obj, y.off+i*sz, t.elem), depth+1)

			if r = w.and(r, e); r.r == nil && r.n == 0 {
				return r
			}
		}

		return r
	case KStruct:
		r := V{n: 1}

		for _, f := range t.fields {
			e := w.deepEqual(f.t, part(agg(a), f.off, f.t), part(agg(b), f.off, f.t), depth+1)
			if r = w.and(r, e); r.r == nil && r.n == 0 {
				return r
			}
		}

		return r
	case KArray:
		r := V{n: 1}

		for i := 0; i < t.n; i++ {
			e := w.deepEqual(t.elem, part(agg(a), i*t.elem.size, t.elem), part(agg(b), i*t.elem.size, t.elem), depth+1)
			if r = w.and(r, e); r.r == nil && r.n == 0 {
				return r
			}
		}

		return r
	case KMap:
		x, _ := a.r.(*MapObj)
		y, _ := b.r.(*MapObj)

		if x == nil || y == nil {
			return bv(x == y)
		}

		if x.live != y.live {
			return V{}
		}

		r := V{n: 1}

		for _, e := range x.ents {
			if e.dead {
				continue
			}

			f := w.mapFind(y, t.key, e.k)
			if f == nil {
				return V{}
			}

			if r = w.and(r, w.deepEqual(t.elem, e.v, f.v, depth+1)); r.r == nil && r.n == 0 {
				return r
			}
		}

		return r
	case KFunc:
		return bv(a.r == nil && b.r == nil)
	}

	return w.eq(t, a, b)
}

func kindIn(t *TInfo, lo, hi reflect.Kind) bool {
	k := goKind(t)

	return k >= lo && k <= hi
}

func (w *W) wantKind(x rval, what string, ok bool) {
	if !ok {
		w.panicRT("reflect: call of reflect.Value." + what + " on " + goKind(x.t).String() + " Value")
	}
}

var reflTable map[string]Intrinsic

type rmapIter struct {
	ents []*MapEnt
	i    int
	t    *TInfo
	fl   uint64
}

func (w *W) mapIterOf(v V) *rmapIter {
	o := v.r.(*Obj)
	it, _ := o.cells[int(v.n)].r.(*rmapIter)

	if it == nil {
		w.panicRT("MapIter used before Next")
	}

	return it
}

func (w *W) convR(x rval, t *TInfo) V {
	v := w.get(x)
	if t.kind == KIface {
		return w.assignTo(x, t)
	}

	return w.conv(v, x.t, t)
}

func init() {
	R := func(f func(w *W, x rval, a []V) V) Intrinsic {
		return func(w *W, a []V) V { return f(w, rv(a[0]), a[1:]) }
	}
	T := func(f func(w *W, t *TInfo, a []V) V) Intrinsic {
		return func(w *W, a []V) V { return f(w, w.rtypeOf(a[0]), a[1:]) }
	}
	num := func(lo, hi reflect.Kind, what string) Intrinsic {
		return R(func(w *W, x rval, a []V) V {
			w.must(x, what)
			w.wantKind(x, what, kindIn(x.t, lo, hi))

			v := w.get(x)
			to := &TInfo{w: 64, kind: KInt}

			return w.convInt(v, x.t, to)
		})
	}

	can := func(lo, hi reflect.Kind) Intrinsic {
		return R(func(w *W, x rval, a []V) V { return bv(kindIn(x.t, lo, hi)) })
	}

	reflTable = map[string]Intrinsic{
		"init": nop,
		"DeepEqual": func(w *W, a []V) V {
			return w.deepEqual(w.p.t.any, a[0], a[1], 0)
		},
		"ValueOf": func(w *W, a []V) V { return fromIface(a[0]).pack() },
		"TypeOf": func(w *W, a []V) V {
			return w.rtypeV(fromIface(a[0]).t)
		},
		"New": func(w *W, a []V) V {
			t := w.rtypeOf(a[0])

			return rval{w.p.types.of(types.NewPointer(t.T)), V{r: w.newObj(t.size, t)}, 0}.pack()
		},
		"Zero": func(w *W, a []V) V {
			t := w.rtypeOf(a[0])

			return rval{t, zero(t), 0}.pack()
		},
		"Indirect": func(w *W, a []V) V {
			x := rv(a[0])
			if x.t == nil || x.t.kind != KPtr {
				return a[0]
			}

			return w.elemR(x).pack()
		},
		"MakeSlice": func(w *W, a []V) V {
			t := w.rtypeOf(a[0])

			return rval{t, w.mkSlice(t.elem, int(a[1].n), int(a[2].n)), 0}.pack()
		},
		"MakeMap":         func(w *W, a []V) V { return rval{w.rtypeOf(a[0]), V{r: newMapObj(w.inInit)}, 0}.pack() },
		"MakeMapWithSize": func(w *W, a []V) V { return rval{w.rtypeOf(a[0]), V{r: newMapObj(w.inInit)}, 0}.pack() },
		"Append": func(w *W, a []V) V {
			x := rv(a[0])
			s := w.get(x)

			for _, e := range chunks(sliceCells(a[1], 3), 3) {
				s = w.append(s, flat(w.assignTo(rvA(e), x.t.elem), x.t.elem), x.t.elem)
			}

			return rval{x.t, s, 0}.pack()
		},
		"AppendSlice": func(w *W, a []V) V {
			x, y := rv(a[0]), rv(a[1])

			return rval{x.t, w.append(w.get(x), sliceCells(w.get(y), x.t.elem.size), x.t.elem), 0}.pack()
		},
		"Copy": func(w *W, a []V) V {
			d, s := rv(a[0]), rv(a[1])
			ds, _ := w.get(d).r.(*Slice)

			if ds == nil {
				return V{}
			}

			var src []V
			if s.t.kind == KString {
				src = strCells(w.get(s))
			} else {
				src = sliceCells(w.get(s), d.t.elem.size)
			}

			n := min(len(src), ds.len*d.t.elem.size)
			w.copyCells(ds.obj, ds.off, src[:n])

			return iret(n / d.t.elem.size)
		},
		"PointerTo": func(w *W, a []V) V { return w.rtypeV(w.p.types.of(types.NewPointer(w.rtypeOf(a[0]).T))) },
		"PtrTo":     func(w *W, a []V) V { return w.rtypeV(w.p.types.of(types.NewPointer(w.rtypeOf(a[0]).T))) },
		"SliceOf":   func(w *W, a []V) V { return w.rtypeV(w.p.types.of(types.NewSlice(w.rtypeOf(a[0]).T))) },
		"MapOf": func(w *W, a []V) V {
			return w.rtypeV(w.p.types.of(types.NewMap(w.rtypeOf(a[0]).T, w.rtypeOf(a[1]).T)))
		},
		"Swapper": func(w *W, a []V) V { panic(engineErr{"reflect.Swapper"}) },
		"VisibleFields": nil,
		"(reflect.Kind).String": func(w *W, a []V) V { return sv(reflect.Kind(a[0].n).String()) },

		// --- Value
		"(reflect.Value).Kind":    R(func(w *W, x rval, a []V) V { return V{n: uint64(goKind(x.t))} }),
		"(reflect.Value).IsValid": R(func(w *W, x rval, a []V) V { return bv(x.t != nil) }),
		"(reflect.Value).Type": R(func(w *W, x rval, a []V) V {
			w.must(x, "Type")

			return w.rtypeV(x.t)
		}),
		"(reflect.Value).CanAddr": R(func(w *W, x rval, a []V) V { return bv(x.fl&fAddr != 0) }),
		"(reflect.Value).CanSet":  R(func(w *W, x rval, a []V) V { return bv(x.fl&fAddr != 0 && x.fl&fRO == 0) }),
		"(reflect.Value).CanInterface": R(func(w *W, x rval, a []V) V {
			w.must(x, "CanInterface")

			return bv(x.fl&fRO == 0)
		}),
		"(reflect.Value).CanInt":   can(reflect.Int, reflect.Int64),
		"(reflect.Value).CanUint":  can(reflect.Uint, reflect.Uintptr),
		"(reflect.Value).CanFloat": can(reflect.Float32, reflect.Float64),
		"(reflect.Value).CanComplex": can(reflect.Complex64, reflect.Complex128),
		"(reflect.Value).Addr": R(func(w *W, x rval, a []V) V {
			if x.fl&fAddr == 0 {
				w.panicRT("reflect.Value.Addr of unaddressable value")
			}

			return rval{w.p.types.of(types.NewPointer(x.t.T)), x.v, x.fl & fRO}.pack()
		}),
		"(reflect.Value).Elem": R(func(w *W, x rval, a []V) V { return w.elemR(x).pack() }),
		"(reflect.Value).Interface": R(func(w *W, x rval, a []V) V {
			w.must(x, "Interface")

			if x.fl&fRO != 0 {
				w.panicRT("reflect.Value.Interface: cannot return value obtained from unexported field or method")
			}

			return w.ifaceOf(x)
		}),
		"valueInterface": func(w *W, a []V) V { return w.ifaceOf(rv(a[0])) },
		"(reflect.Value).Bool": R(func(w *W, x rval, a []V) V {
			w.wantKind(x, "Bool", x.t != nil && x.t.kind == KBool)

			return w.get(x)
		}),
		"(reflect.Value).Int":  num(reflect.Int, reflect.Int64, "Int"),
		"(reflect.Value).Uint": num(reflect.Uint, reflect.Uintptr, "Uint"),
		"(reflect.Value).Float": R(func(w *W, x rval, a []V) V {
			return V{n: math.Float64bits(w.fl(w.get(x), x.t))}
		}),
		"(reflect.Value).String": R(func(w *W, x rval, a []V) V {
			if x.t == nil {
				return sv("<invalid Value>")
			}

			if x.t.kind == KString {
				return w.get(x)
			}

			return sv("<" + typeStr(x.t.T) + " Value>")
		}),
		"(reflect.Value).Bytes": R(func(w *W, x rval, a []V) V {
			w.wantKind(x, "Bytes", x.t != nil && (isBytes(x.t) || x.t.kind == KArray))

			if x.t.kind == KArray {
				return V{r: &Slice{obj: x.v.r.(*Obj), off: int(x.v.n), len: x.t.n, cap: x.t.n}}
			}

			return w.get(x)
		}),
		"(reflect.Value).Len": R(func(w *W, x rval, a []V) V { return iret(w.rlen(x)) }),
		"(reflect.Value).Cap": R(func(w *W, x rval, a []V) V {
			if s, ok := w.get(x).r.(*Slice); ok {
				return iret(s.cap)
			}

			return V{}
		}),
		"(reflect.Value).Index": R(func(w *W, x rval, a []V) V { return w.rindex(x, int(int64(a[0].n))).pack() }),
		"(reflect.Value).IsNil": R(func(w *W, x rval, a []V) V {
			w.must(x, "IsNil")

			switch x.t.kind {
			case KPtr, KUnsafe, KSlice, KMap, KChan, KFunc, KIface:
				return bv(w.get(x).r == nil)
			}

			w.wantKind(x, "IsNil", false)

			return V{}
		}),
		"(reflect.Value).IsZero": R(func(w *W, x rval, a []V) V {
			w.must(x, "IsZero")

			return w.isZero(x.t, w.get(x))
		}),
		"(reflect.Value).Field":    R(func(w *W, x rval, a []V) V { return w.field(x, int(a[0].n)).pack() }),
		"(reflect.Value).NumField": R(func(w *W, x rval, a []V) V {
			w.wantKind(x, "NumField", x.t != nil && x.t.kind == KStruct)

			return iret(len(x.t.fields))
		}),
		"(reflect.Value).FieldByIndex": R(func(w *W, x rval, a []V) V {
			for i, n := range sliceCells(a[0], 1) {
				if i > 0 && x.t.kind == KPtr && x.t.elem.kind == KStruct {
					x = w.elemR(x)
					if x.t == nil {
						w.panicRT("reflect: indirection through nil pointer to embedded struct")
					}
				}

				x = w.field(x, int(n.n))
			}

			return x.pack()
		}),
		"(reflect.Value).FieldByIndexErr": R(func(w *W, x rval, a []V) V {
			for i, n := range sliceCells(a[0], 1) {
				if i > 0 && x.t.kind == KPtr && x.t.elem.kind == KStruct {
					x = w.elemR(x)
				}

				x = w.field(x, int(n.n))
			}

			return V{r: append(append(Agg{}, agg(x.pack())...), V{})}
		}),
		"(reflect.Value).FieldByName": R(func(w *W, x rval, a []V) V {
			obj, index, _ := types.LookupFieldOrMethod(x.t.T, true, nil, w.str(a[0]))
			if obj == nil {
				return rval{}.pack()
			}

			if _, ok := obj.(*types.Var); !ok {
				return rval{}.pack()
			}

			for i, n := range index {
				if i > 0 && x.t.kind == KPtr {
					x = w.elemR(x)
				}

				x = w.field(x, n)
			}

			return x.pack()
		}),
		"(reflect.Value).NumMethod": R(func(w *W, x rval, a []V) V { return iret(len(w.p.methodsOf(x.t))) }),
		"(reflect.Value).Method": R(func(w *W, x rval, a []V) V {
			return w.bindMethod(x, w.p.methodsOf(x.t)[a[0].n]).pack()
		}),
		"(reflect.Value).MethodByName": R(func(w *W, x rval, a []V) V {
			w.must(x, "MethodByName")

			n := w.str(a[0])
			for _, s := range w.p.methodsOf(x.t) {
				if s.Obj().Name() == n {
					return w.bindMethod(x, s).pack()
				}
			}

			return rval{}.pack()
		}),
		"(reflect.Value).Call":      R(func(w *W, x rval, a []V) V { return w.rcall(x, packed(a[0]), false) }),
		"(reflect.Value).CallSlice": R(func(w *W, x rval, a []V) V { return w.rcall(x, packed(a[0]), true) }),
		"(reflect.Value).MapIndex": R(func(w *W, x rval, a []V) V {
			m, _ := w.get(x).r.(*MapObj)

			e := w.mapFind(m, x.t.key, w.assignTo(rv(a[0]), x.t.key))
			if e == nil {
				return rval{}.pack()
			}

			return rval{x.t.elem, e.v, x.fl & fRO}.pack()
		}),
		"(reflect.Value).SetMapIndex": R(func(w *W, x rval, a []V) V {
			m, _ := w.get(x).r.(*MapObj)
			if m == nil {
				w.panicRT("assignment to entry in nil map")
			}

			k := w.assignTo(rv(a[0]), x.t.key)
			if e := rv(a[1]); e.t == nil {
				w.mapDel(m, x.t.key, k)
			} else {
				w.mapSet(m, x.t.key, k, w.assignTo(e, x.t.elem))
			}

			return V{}
		}),
		"(reflect.Value).MapKeys": R(func(w *W, x rval, a []V) V {
			m, _ := w.get(x).r.(*MapObj)
			s := V{}
			rvt := w.p.typeByName("reflect", "Value")

			if m != nil {
				for _, e := range m.ents {
					s = w.append(s, agg(rval{x.t.key, e.k, x.fl & fRO}.pack()), rvt)
				}
			}

			if s.r == nil {
				return w.mkSlice(rvt, 0, 0)
			}

			return s
		}),
		"(reflect.Value).MapRange": R(func(w *W, x rval, a []V) V {
			w.wantKind(x, "MapRange", x.t != nil && x.t.kind == KMap)

			m, _ := w.get(x).r.(*MapObj)
			it := &rmapIter{i: -1, t: x.t, fl: x.fl & fRO}

			if m != nil {
				it.ents = append(it.ents, m.ents...)
			}

			t := w.p.typeByName("reflect", "MapIter")
			o := w.newObj(t.size, t)
			o.cells[0] = V{r: it}

			return V{r: o}
		}),
		"(*reflect.MapIter).Next": func(w *W, a []V) V {
			it := w.mapIterOf(a[0])
			it.i++

			return bv(it.i < len(it.ents))
		},
		"(*reflect.MapIter).Key": func(w *W, a []V) V {
			it := w.mapIterOf(a[0])

			return rval{it.t.key, it.ents[it.i].k, it.fl}.pack()
		},
		"(*reflect.MapIter).Value": func(w *W, a []V) V {
			it := w.mapIterOf(a[0])

			return rval{it.t.elem, it.ents[it.i].v, it.fl}.pack()
		},
		"(reflect.Value).SetIterKey": R(func(w *W, x rval, a []V) V {
			it := w.mapIterOf(a[0])
			w.set(x, it.ents[it.i].k)

			return V{}
		}),
		"(reflect.Value).SetIterValue": R(func(w *W, x rval, a []V) V {
			it := w.mapIterOf(a[0])
			w.set(x, it.ents[it.i].v)

			return V{}
		}),
		"(reflect.Value).Set": R(func(w *W, x rval, a []V) V {
			w.must(x, "Set")
			w.set(x, w.assignTo(rv(a[0]), x.t))

			return V{}
		}),
		"(reflect.Value).SetZero": R(func(w *W, x rval, a []V) V {
			w.set(x, zero(x.t))

			return V{}
		}),
		"(reflect.Value).SetBool": R(func(w *W, x rval, a []V) V {
			w.set(x, a[0])

			return V{}
		}),
		"(reflect.Value).SetString": R(func(w *W, x rval, a []V) V {
			w.wantKind(x, "SetString", x.t != nil && x.t.kind == KString)
			w.set(x, a[0])

			return V{}
		}),
		"(reflect.Value).SetInt": R(func(w *W, x rval, a []V) V {
			w.set(x, w.convInt(a[0], w.p.t.i64, x.t))

			return V{}
		}),
		"(reflect.Value).SetUint": R(func(w *W, x rval, a []V) V {
			w.set(x, w.convInt(a[0], w.p.t.i64, x.t))

			return V{}
		}),
		"(reflect.Value).SetFloat": R(func(w *W, x rval, a []V) V {
			w.set(x, flV(w.fl(a[0], w.p.t.f64), x.t))

			return V{}
		}),
		"(reflect.Value).SetBytes": R(func(w *W, x rval, a []V) V {
			w.set(x, a[0])

			return V{}
		}),
		"(reflect.Value).SetLen": R(func(w *W, x rval, a []V) V {
			s := *w.get(x).r.(*Slice)
			s.len = int(a[0].n)
			w.set(x, V{r: &s})

			return V{}
		}),
		"(reflect.Value).SetCap": R(func(w *W, x rval, a []V) V {
			s := *w.get(x).r.(*Slice)
			s.cap = int(a[0].n)
			w.set(x, V{r: &s})

			return V{}
		}),
		"(reflect.Value).Grow": R(func(w *W, x rval, a []V) V {
			s, _ := w.get(x).r.(*Slice)
			if s == nil {
				s = &Slice{}
			}

			n := int(a[0].n)
			if s.len+n <= s.cap {
				return V{}
			}

			nc := w.growCap(s.cap, s.len+n, x.t.elem)
			o := w.newObj(nc*x.t.elem.size, x.t.elem)

			if s.obj != nil {
				copy(o.cells, s.obj.cells[s.off:s.off+s.len*x.t.elem.size])
			}

			w.set(x, V{r: &Slice{obj: o, len: s.len, cap: nc}})

			return V{}
		}),
		"(reflect.Value).OverflowInt": R(func(w *W, x rval, a []V) V {
			if x.t.w == 64 {
				return V{}
			}

			t := w.convInt(w.convInt(a[0], w.p.t.i64, x.t), x.t, w.p.t.i64)

			return w.not(w.eq(w.p.t.i64, t, a[0]))
		}),
		"(reflect.Value).OverflowUint": R(func(w *W, x rval, a []V) V {
			if x.t.w == 64 {
				return V{}
			}

			t := w.convInt(w.convInt(a[0], w.p.t.i64, x.t), x.t, w.p.t.i64)

			return w.not(w.eq(w.p.t.i64, t, a[0]))
		}),
		"(reflect.Value).OverflowFloat": func(w *W, a []V) V { return V{} },
		"(reflect.Value).Slice": R(func(w *W, x rval, a []V) V {
			lo, hi := int(a[0].n), int(a[1].n)

			switch x.t.kind {
			case KString:
				return rval{x.t, strSub(w.get(x), lo, hi), 0}.pack()
			case KSlice:
				s, _ := w.get(x).r.(*Slice)
				if s == nil {
					return rval{x.t, V{}, 0}.pack()
				}

				if lo < 0 || hi < lo || hi > s.cap {
					w.panicRT("reflect.Value.Slice: slice index out of bounds")
				}

				return rval{x.t, V{r: &Slice{obj: s.obj, off: s.off + lo*x.t.elem.size, len: hi - lo, cap: s.cap - lo}}, 0}.pack()
			}

			panic(engineErr{"reflect Slice of " + x.t.String()})
		}),
		"(reflect.Value).Pointer": R(func(w *W, x rval, a []V) V { return w.addrOf(x) }),
		"(reflect.Value).UnsafePointer": R(func(w *W, x rval, a []V) V {
			v := w.get(x)
			if s, ok := v.r.(*Slice); ok {
				return V{n: uint64(s.off), r: s.obj}
			}

			if _, ok := v.r.(*Obj); ok || v.r == nil {
				return v
			}

			panic(engineErr{"UnsafePointer"})
		}),
		"(reflect.Value).UnsafeAddr": R(func(w *W, x rval, a []V) V { panic(engineErr{"UnsafeAddr"}) }),
		"(reflect.Value).Convert": R(func(w *W, x rval, a []V) V {
			t := w.rtypeOf(a[0])

			return rval{t, w.convR(x, t), x.fl & fRO}.pack()
		}),
		"(reflect.Value).CanConvert": R(func(w *W, x rval, a []V) V {
			return bv(types.ConvertibleTo(x.t.T, w.rtypeOf(a[0]).T))
		}),
		"(reflect.Value).Comparable": R(func(w *W, x rval, a []V) V {
			if x.t == nil {
				return V{n: 1}
			}

			return bv(comparable(x.t))
		}),
		"(reflect.Value).Equal": R(func(w *W, x rval, a []V) V {
			y := rv(a[0])
			if x.t == nil || y.t == nil {
				return bv(x.t == y.t)
			}

			if x.t.kind == KIface {
				x = w.elemR(x)
			}

			if y.t.kind == KIface {
				y = w.elemR(y)
			}

			if x.t != y.t || x.t == nil {
				return bv(x.t == y.t)
			}

			return w.eq(x.t, w.get(x), w.get(y))
		}),

		// --- Type
		"(*reflect.rtype).Kind":   T(func(w *W, t *TInfo, a []V) V { return V{n: uint64(goKind(t))} }),
		"(*reflect.rtype).String": T(func(w *W, t *TInfo, a []V) V { return sv(typeStr(t.T)) }),
		"(*reflect.rtype).Name": T(func(w *W, t *TInfo, a []V) V {
			switch x := t.T.(type) {
			case *types.Named:
				s := typeStr(x)

				return sv(s[strings.IndexByte(s, '.')+1:])
			case *types.Basic:
				return sv(x.Name())
			}

			return V{}
		}),
		"(*reflect.rtype).PkgPath": T(func(w *W, t *TInfo, a []V) V {
			if x, ok := t.T.(*types.Named); ok && x.Obj().Pkg() != nil {
				return sv(x.Obj().Pkg().Path())
			}

			return V{}
		}),
		"(*reflect.rtype).Elem": T(func(w *W, t *TInfo, a []V) V {
			if t.elem == nil {
				w.panicRT("reflect: Elem of invalid type " + t.String())
			}

			return w.rtypeV(t.elem)
		}),
		"(*reflect.rtype).Key":      T(func(w *W, t *TInfo, a []V) V { return w.rtypeV(t.key) }),
		"(*reflect.rtype).Len":      T(func(w *W, t *TInfo, a []V) V { return iret(t.n) }),
		"(*reflect.rtype).Bits":     T(func(w *W, t *TInfo, a []V) V { return iret(int(t.w)) }),
		"(*reflect.rtype).Size":     T(func(w *W, t *TInfo, a []V) V { return iret(w.goSize(t)) }),
		"(*reflect.rtype).NumField": T(func(w *W, t *TInfo, a []V) V { return iret(len(t.fields)) }),
		"(*reflect.rtype).Field": T(func(w *W, t *TInfo, a []V) V {
			return w.structField(t, int(a[0].n), []int{int(a[0].n)})
		}),
		"(*reflect.rtype).FieldByIndex": T(func(w *W, t *TInfo, a []V) V {
			var idx []int

			for _, c := range sliceCells(a[0], 1) {
				idx = append(idx, int(c.n))
			}

			for i, n := range idx {
				if i == len(idx)-1 {
					return w.structField(t, n, []int{n})
				}

				t = t.fields[n].t
				if t.kind == KPtr {
					t = t.elem
				}
			}

			panic(engineErr{"FieldByIndex"})
		}),
		"(*reflect.rtype).FieldByName": T(func(w *W, t *TInfo, a []V) V {
			sft := w.p.typeByName("reflect", "StructField")
			obj, index, _ := types.LookupFieldOrMethod(t.T, true, nil, w.str(a[0]))

			if v, ok := obj.(*types.Var); !ok || !v.IsField() {
				return V{r: make(Agg, sft.size+1)}
			}

			ft := t
			for _, n := range index[:len(index)-1] {
				ft = ft.fields[n].t
				if ft.kind == KPtr {
					ft = ft.elem
				}
			}

			f := w.structField(ft, index[len(index)-1], index)

			return V{r: append(append(Agg{}, agg(f)...), V{n: 1})}
		}),
		"(*reflect.rtype).NumMethod": T(func(w *W, t *TInfo, a []V) V {
			if t.kind == KIface {
				return iret(t.T.Underlying().(*types.Interface).NumMethods())
			}

			return iret(len(w.p.methodsOf(t)))
		}),
		"(*reflect.rtype).Method": T(func(w *W, t *TInfo, a []V) V {
			return w.rmethod(t, w.p.methodsOf(t)[a[0].n], int(a[0].n))
		}),
		"(*reflect.rtype).MethodByName": T(func(w *W, t *TInfo, a []V) V {
			n := w.str(a[0])
			for i, s := range w.p.methodsOf(t) {
				if s.Obj().Name() == n {
					return V{r: append(append(Agg{}, agg(w.rmethod(t, s, i))...), V{n: 1})}
				}
			}

			return V{r: make(Agg, w.p.typeByName("reflect", "Method").size+1)}
		}),
		"(*reflect.rtype).Implements": T(func(w *W, t *TInfo, a []V) V {
			it := w.rtypeOf(a[0])

			return bv(w.p.implements(t, it, it.T.Underlying().(*types.Interface)))
		}),
		"(*reflect.rtype).AssignableTo":  T(func(w *W, t *TInfo, a []V) V { return bv(types.AssignableTo(t.T, w.rtypeOf(a[0]).T)) }),
		"(*reflect.rtype).ConvertibleTo": T(func(w *W, t *TInfo, a []V) V { return bv(types.ConvertibleTo(t.T, w.rtypeOf(a[0]).T)) }),
		"(*reflect.rtype).Comparable":    T(func(w *W, t *TInfo, a []V) V { return bv(types.Comparable(t.T)) }),
		"(*reflect.rtype).NumIn":         T(func(w *W, t *TInfo, a []V) V { return iret(sigOf(t).Params().Len()) }),
		"(*reflect.rtype).In":            T(func(w *W, t *TInfo, a []V) V { return w.rtypeV(w.p.types.of(sigOf(t).Params().At(int(a[0].n)).Type())) }),
		"(*reflect.rtype).NumOut":        T(func(w *W, t *TInfo, a []V) V { return iret(sigOf(t).Results().Len()) }),
		"(*reflect.rtype).Out":           T(func(w *W, t *TInfo, a []V) V { return w.rtypeV(w.p.types.of(sigOf(t).Results().At(int(a[0].n)).Type())) }),
		"(*reflect.rtype).IsVariadic":    T(func(w *W, t *TInfo, a []V) V { return bv(sigOf(t).Variadic()) }),
		"(*reflect.rtype).CanSeq":        func(w *W, a []V) V { return V{} },
		"(*reflect.rtype).CanSeq2":       func(w *W, a []V) V { return V{} },
		"(*reflect.rtype).common":        func(w *W, a []V) V { return a[0] },
	}

	for k, v := range reflTable {
		if v == nil {
			delete(reflTable, k)
		}
	}
}

func sigOf(t *TInfo) *types.Signature { return t.T.Underlying().(*types.Signature) }

func (w *W) rmethod(t *TInfo, s *types.Selection, i int) V {
	f := w.p.fn(w.p.methodValue(s))
	ft := w.p.types.of(f.fn.Signature)
	fv := rval{ft, V{r: &Fn{fn: f}}, 0}.pack()

	return V{r: append(append(Agg{sv(s.Obj().Name()), {}, w.rtypeV(ft)}, agg(fv)...), iret(i))}
}

func (w *W) addrOf(x rval) V {
	v := w.get(x)

	switch o := v.r.(type) {
	case nil:
		return V{}
	case *Obj:
		return V{n: uint64(o.id)<<20 + v.n*8}
	case *Slice:
		return V{n: uint64(o.obj.id)<<20 + uint64(o.off)*8}
	}

	return V{n: 1}
}

func chunks(c []V, n int) []Agg {
	var out []Agg
	for i := 0; i+n <= len(c); i += n {
		out = append(out, Agg(c[i:i+n:i+n]))
	}

	return out
}

func packed(s V) []V {
	var out []V
	for _, c := range chunks(sliceCells(s, 3), 3) {
		out = append(out, V{r: c})
	}

	return out
}

var _ = fmt.Sprint
