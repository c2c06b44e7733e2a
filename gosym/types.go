package main

import (
	"go/types"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Kind classifies types by how their values are represented.
type Kind uint8

const (
	KBool Kind = iota
	KInt
	KFloat
	KComplex
	KString
	KPtr
	KUnsafe
	KSlice
	KMap
	KChan
	KFunc
	KIface
	KStruct
	KArray
	KTuple
	KOther
)

// FInfo is the place of a struct field, or tuple part, in its flattened parent.
type FInfo struct {
	off int
	t   *TInfo
}

// TInfo is the canonical description of a Go type.
type TInfo struct {
	id     int
	T      types.Type
	kind   Kind
	w      uint8
	signed bool
	size   int // cells
	elem   *TInfo
	key    *TInfo
	n      int // array length
	fields []FInfo
	agg    bool
	basic  types.BasicKind

	methods sync.Map // string (Id) -> *CFn
	nUniq   atomic.Int64
	rtypeID int
	extra   any
}

// Types canonicalises types.
type Types struct {
	mu  sync.Mutex
	m   typeutil.Map
	n   int
	all []*TInfo

	later []func() // element types, which may be recursive, to be described once the type at hand is
}

func (ts *Types) of(t types.Type) *TInfo {
	ts.mu.Lock()
	defer ts.mu.Unlock()

	ti := ts.get(t)

	for len(ts.later) > 0 {
		f := ts.later[len(ts.later)-1]
		ts.later = ts.later[:len(ts.later)-1]
		f()
	}

	return ti
}

// elemOf describes an element type in its turn.
func (ts *Types) elemOf(to **TInfo, t types.Type) {
	ts.later = append(ts.later, func() { *to = ts.get(t) })
}

func (ts *Types) get(t types.Type) *TInfo {
	t = types.Unalias(t)
	if x := ts.m.At(t); x != nil {
		return x.(*TInfo)
	}

	ti := &TInfo{T: t, id: ts.n, size: 1}
	ts.n++
	ts.m.Set(t, ti)
	ts.all = append(ts.all, ti)

	switch u := t.Underlying().(type) {
	case *types.Basic:
		ti.basic = u.Kind()

		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Int64, types.Int, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Uint64, types.Uint, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		default:
			ti.kind = KOther
		}
	case *types.Pointer:
		ti.kind = KPtr
		ts.elemOf(&ti.elem, u.Elem())
	case *types.Slice:
		ti.kind = KSlice
		ts.elemOf(&ti.elem, u.Elem())
	case *types.Array:
		ti.kind, ti.agg = KArray, true
		ti.elem = ts.get(u.Elem())
		ti.n = int(u.Len())
		ti.size = ti.n * ti.elem.size
	case *types.Map:
		ti.kind = KMap
		ts.elemOf(&ti.key, u.Key())
		ts.elemOf(&ti.elem, u.Elem())
	case *types.Chan:
		ti.kind = KChan
		ts.elemOf(&ti.elem, u.Elem())
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Struct:
		ti.kind, ti.agg = KStruct, true
		off := 0

		// Recursion through a struct's fields can only pass through a pointer-like type, whose size is 1 whatever it points to.
		for i := 0; i < u.NumFields(); i++ {
			f := ts.get(u.Field(i).Type())
			ti.fields = append(ti.fields, FInfo{off, f})
			off += f.size
		}

		ti.size = off
	case *types.Tuple:
		ti.kind, ti.agg = KTuple, true
		off := 0

		for i := 0; i < u.Len(); i++ {
			f := ts.get(u.At(i).Type())
			ti.fields = append(ti.fields, FInfo{off, f})
			off += f.size
		}

		ti.size = off
	default:
		ti.kind = KOther
	}

	return ti
}

func (ti *TInfo) String() string { return ti.T.String() }

// method finds the function that implements method m on dynamic type ti.
func (p *Prog) method(ti *TInfo, m *types.Func) *CFn {
	key := m.Id()
	if f, ok := ti.methods.Load(key); ok {
		return f.(*CFn)
	}

	f := p.lookupMethod(ti, m.Pkg(), m.Name())
	if f == nil {
		panic(engineErr{"no method " + m.Name() + " on " + ti.String()})
	}

	cf := p.fn(f)
	ti.methods.Store(key, cf)

	return cf
}

func (p *Prog) lookupMethod(ti *TInfo, pkg *types.Package, name string) *ssa.Function {
	p.msMu.Lock()
	defer p.msMu.Unlock()

	sel := p.prog.MethodSets.MethodSet(ti.T).Lookup(pkg, name)
	if sel == nil {
		return nil
	}

	return p.prog.MethodValue(sel)
}
