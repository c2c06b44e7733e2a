package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"strconv"
	"strings"
	"sync"
	"unsafe"
)

const symPkg = "/internal/zzverif/sym."
const vosPkg = "/internal/zzverif/vos"

var table map[string]Intrinsic

// denyInit lists packages whose initialisation is not run.
var denyInit = map[string]bool{
	"runtime": true, "syscall": true, "os": true, "reflect": true, "sync": true, "sync/atomic": true,
	"unique": true, "weak": true, "iter": true, "os/signal": true,
	"os/exec": true, "net": true, "net/netip": true, "testing": true, "runtime/debug": true, "embed": true,
	"internal/poll": true, "internal/testlog": true, "internal/cpu": true, "internal/reflectlite": true,
	"internal/sync": true, "internal/bytealg": true, "internal/abi": true, "internal/race": true, "internal/goos": true,
}

func denied(path string) bool {
	if denyInit[path] {
		return true
	}

	for _, p := range []string{"internal/runtime/", "internal/syscall/", "internal/godebug", "runtime/", "vendor/"} {
		if strings.HasPrefix(path, p) {
			return true
		}
	}

	return false
}

func lookupIntrinsic(f *CFn) Intrinsic {
	if f.isInit && denied(f.pkg) {
		return func(w *W, args []V) V { return V{} }
	}

	if in, ok := table[f.name]; ok {
		return in
	}

	name := f.name

	if i := strings.Index(name, symPkg); i >= 0 {
		if in, ok := symTable[name[i+len(symPkg):]]; ok {
			return in
		}

		return nil
	}

	if name == "reflect.TypeFor" {
		t := f.p.types.of(f.fn.TypeArgs()[0])

		return func(w *W, args []V) V { return w.rtypeV(t) }
	}

	if name == "reflect.TypeAssert" {
		t := f.p.types.of(f.fn.TypeArgs()[0])

		return func(w *W, args []V) V {
			x := rv(args[0])
			w.must(x, "TypeAssert")

			if x.fl&fRO != 0 {
				w.panicRT("reflect.TypeAssert: cannot return value obtained from unexported field or method")
			}

			v := w.ifaceOf(x)
			i, _ := v.r.(*Iface)

			if t.kind == KIface {
				ok := i != nil && w.p.implements(i.t, t, t.T.Underlying().(*types.Interface))
				if !ok {
					v = V{}
				}

				return V{r: Agg{v, bv(ok)}}
			}

			a := make(Agg, t.size+1)

			if i != nil && i.t == t {
				copyFlat(a, i.v, t)
				a[t.size].n = 1
			}

			return V{r: a}
		}
	}

	switch f.pkg {
	case "sync/atomic", "internal/runtime/atomic":
		if in := atomicIntr(name); in != nil {
			return in
		}
	case "reflect":
		if in, ok := reflTable[strings.TrimPrefix(name, "reflect.")]; ok {
			return in
		}

		if strings.HasPrefix(name, "(reflect.Value).") || strings.HasPrefix(name, "(*reflect.rtype).") || strings.HasPrefix(name, "(*reflect.MapIter)") {
			if in, ok := reflTable[name]; ok {
				return in
			}

			return func(w *W, args []V) V { panic(engineErr{"reflect: " + name}) }
		}
	case "internal/godebug":
		switch f.fn.Name() {
		case "New":
			return func(w *W, args []V) V {
				t := w.p.types.of(f.fn.Signature.Results().At(0).Type()).elem

				return V{r: w.newObj(t.size, t)}
			}
		case "Value", "Name", "String", "Undocumented":
			return func(w *W, args []V) V { return V{} }
		}

		return func(w *W, args []V) V { return V{} }
	case "os":
		if v := f.p.vosFunc(f); v != nil {
			return func(w *W, args []V) V { return w.call(v, args, nil) }
		}
	case "internal/race", "internal/msan", "internal/asan":
		return func(w *W, args []V) V { return V{} }
	}

	return nil
}

// vosFunc finds the stand-in for a function of package os.
func (p *Prog) vosFunc(f *CFn) *CFn {
	pk := p.byPath[p.repoMod+vosPkg]
	if pk == nil {
		return nil
	}

	n := f.fn.Name()
	if recv := f.fn.Signature.Recv(); recv != nil {
		t := recv.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}

		nt, ok := types.Unalias(t).(*types.Named)
		if !ok {
			return nil
		}

		n = nt.Obj().Name() + "_" + n
	}

	if g := pk.Func(n); g != nil {
		return p.fn(g)
	}

	return nil
}

func atomicIntr(name string) Intrinsic {
	m := name[strings.LastIndexByte(name, '.')+1:]
	isMethod := strings.HasPrefix(name, "(")

	if !isMethod {
		for _, p := range []string{"Load", "Store", "Swap", "CompareAndSwap", "Add", "And", "Or"} {
			if strings.HasPrefix(m, p) {
				m = p

				break
			}
		}
	}

	width := uint8(64)
	if strings.Contains(name, "32") {
		width = 32
	}

	ptr := func(w *W, v V) (*Obj, int) {
		o, _ := v.r.(*Obj)
		if o == nil {
			w.panicNil()
		}

		return o, int(v.n)
	}

	terms := func(w *W, a, b V) (*Term, *Term) {
		x, y := w.ts.Const(a.n&mask(width), width), w.ts.Const(b.n&mask(width), width)
		if t, ok := a.r.(*Term); ok {
			x = t
		}

		if t, ok := b.r.(*Term); ok {
			y = t
		}

		return x, y
	}

	bin := func(w *W, op Op, a, b V) V {
		x, y := terms(w, a, b)

		return tv(w.ts.mk(op, width, x, y, nil))
	}

	switch m {
	case "Load":
		return func(w *W, args []V) V {
			o, i := ptr(w, args[0])

			return o.cells[i]
		}
	case "Store":
		return func(w *W, args []V) V {
			o, i := ptr(w, args[0])
			w.storeCell(o, i, args[1])

			return V{}
		}
	case "Swap":
		return func(w *W, args []V) V {
			o, i := ptr(w, args[0])
			old := o.cells[i]
			w.storeCell(o, i, args[1])

			return old
		}
	case "CompareAndSwap":
		return func(w *W, args []V) V {
			o, i := ptr(w, args[0])
			old := o.cells[i]

			if old.sym() || args[1].sym() {
				if x, y := terms(w, old, args[1]); !w.decide(w.ts.Eq(x, y)) {
					return V{}
				}
			} else if old != args[1] {
				return V{}
			}

			w.storeCell(o, i, args[2])

			return V{n: 1}
		}
	case "Add":
		return func(w *W, args []V) V {
			o, i := ptr(w, args[0])
			v := bin(w, OpAdd, o.cells[i], args[1])
			w.storeCell(o, i, v)

			return v
		}
	case "And", "Or":
		return func(w *W, args []V) V {
			o, i := ptr(w, args[0])
			old := o.cells[i]

			op := OpBvOr
			if m == "And" {
				op = OpBvAnd
			}

			w.storeCell(o, i, bin(w, op, old, args[1]))

			return old
		}
	}

	return nil
}

func nop(w *W, args []V) V { return V{} }

// nativeFn makes a function value of a native function.
func nativeFn(name string, in Intrinsic) V {
	f := &CFn{name: name, intr: in}
	f.ready.Store(true)

	return V{r: &Fn{fn: f}}
}

// findByte gives the index of the first c in cells, forking on symbolic bytes.
func (w *W) findByte(cells []V, c V) int {
	for i, b := range cells {
		if b.r == nil && c.r == nil {
			if b.n == c.n {
				return i
			}

			continue
		}

		if w.decide(w.ts.Eq(w.bt(b), w.bt(c))) {
			return i
		}
	}

	return -1
}

func (w *W) findLastByte(cells []V, c V) int {
	for i := len(cells) - 1; i >= 0; i-- {
		if w.decide(w.ts.Eq(w.bt(cells[i]), w.bt(c))) {
			return i
		}
	}

	return -1
}

func (w *W) matchAt(a, b []V) bool {
	acc := w.ts.True

	for i := range b {
		if a[i].r == nil && b[i].r == nil {
			if a[i].n != b[i].n {
				return false
			}

			continue
		}

		acc = w.ts.And(acc, w.ts.Eq(w.bt(a[i]), w.bt(b[i])))
		if acc == w.ts.False {
			return false
		}
	}

	return w.decide(acc)
}

func (w *W) findSub(a, b []V) int {
	for i := 0; i+len(b) <= len(a); i++ {
		if w.matchAt(a[i:], b) {
			return i
		}
	}

	return -1
}

func (w *W) findLastSub(a, b []V) int {
	for i := len(a) - len(b); i >= 0; i-- {
		if w.matchAt(a[i:], b) {
			return i
		}
	}

	return -1
}

func iret(n int) V { return V{n: uint64(int64(n))} }

// allASCII decides whether every byte is ASCII.
func (w *W) allASCII(cells []V) bool {
	acc := w.ts.True

	for _, c := range cells {
		acc = w.ts.And(acc, w.ts.Ult(w.bt(c), w.ts.Const(0x80, 8)))
	}

	return w.decide(acc)
}

func (w *W) mapCase(cells []V, lo, hi byte, delta int) []V {
	out := make([]V, len(cells))

	for i, c := range cells {
		if c.r == nil {
			b := byte(c.n)
			if b >= lo && b <= hi {
				b = byte(int(b) + delta)
			}

			out[i] = V{n: uint64(b)}

			continue
		}

		t := c.r.(*Term)
		in := w.ts.And(w.ts.mk(OpUle, 0, w.ts.Const(uint64(lo), 8), t, nil), w.ts.mk(OpUle, 0, t, w.ts.Const(uint64(hi), 8), nil))
		out[i] = tv(w.ts.Ite(in, w.ts.Add(t, w.ts.Const(uint64(uint8(delta)), 8)), t))
	}

	return out
}

// onConcrete runs native on a concrete string; it runs sym otherwise.
func strFn(native func(string) string, sym func(w *W, cells []V) (V, bool)) Intrinsic {
	return func(w *W, args []V) V {
		if s, ok := goStr(args[0]); ok {
			return sv(native(s))
		}

		v, _ := sym(w, strCells(args[0]))

		return v
	}
}

// formatInt gives the decimal text of a symbolic integer, by strconv.FormatInt's contract: it forks on sign and length, and
// its digits are fresh variables that a linear equation ties to the value.
func (w *W) formatInt(v V, signed bool) V {
	if v.r == nil {
		if signed {
			return sv(strconv.FormatInt(int64(v.n), 10))
		}

		return sv(strconv.FormatUint(v.n, 10))
	}

	t := v.r.(*Term)

	for _, is := range w.intStrs {
		if is.t == t && is.signed == signed {
			return is.s
		}
	}

	mag := t
	neg := false

	if signed {
		neg = w.decide(w.ts.mk(OpSlt, 0, t, w.ts.Const(0, 64), nil))
		if neg {
			mag = w.ts.mk(OpNeg, 64, t, nil, nil)
		}
	}

	maxD := 20
	if signed {
		maxD = 19
	}

	k := 1
	pow := uint64(10)

	for k < maxD && !w.decide(w.ts.Ult(mag, w.ts.Const(pow, 64))) {
		pow *= 10
		k++
	}

	var out []V

	if neg {
		out = append(out, V{n: '-'})
	}

	sum := w.ts.Const(0, 64)
	ten := w.ts.Const(10, 64)
	cond := w.ts.True

	for i := 0; i < k; i++ {
		d := w.fresh(8, "dig")
		lo := byte('0')

		if i == 0 && k > 1 {
			lo = '1'
		}

		cond = w.ts.And(cond, w.ts.mk(OpUle, 0, w.ts.Const(uint64(lo), 8), d, nil))
		cond = w.ts.And(cond, w.ts.mk(OpUle, 0, d, w.ts.Const('9', 8), nil))
		dv := w.ts.mk(OpZext, 64, w.ts.Add(d, w.ts.Const(uint64(0x100-'0'), 8)), nil, nil)
		sum = w.ts.Add(w.ts.mk(OpMul, 64, sum, ten, nil), dv)
		out = append(out, tv(d))
	}

	cond = w.ts.And(cond, w.ts.Eq(sum, mag))
	w.assume(tv(cond))

	s := mkStr(out)
	w.intStrs = append(w.intStrs, intStr{t, signed, s})

	return s
}

type intStr struct {
	t      *Term
	signed bool
	s      V
}

func (w *W) errorsIs(err, target V) V {
	if err.r == nil || target.r == nil {
		return bv(err.r == target.r)
	}

	f := w.p.funcByName("errors", "is")

	return w.call(f, []V{err, target, bv(comparable(target.r.(*Iface).t))}, nil)
}

func (w *W) errorsAs(err, target V) V {
	if err.r == nil {
		return V{}
	}

	ti, _ := target.r.(*Iface)
	if ti == nil || ti.t.kind != KPtr {
		w.panicRT("errors: target must be a non-nil pointer")
	}

	et := ti.t.elem
	p := ti.v

	for err.r != nil {
		ei := err.r.(*Iface)
		ok := ei.t == et

		if it, isI := et.T.Underlying().(*types.Interface); isI {
			ok = w.p.implements(ei.t, et, it)
		}

		if ok {
			v := ei.v
			if et.kind == KIface {
				v = err
			}

			w.store(p.r.(*Obj), int(p.n), et, v)

			return V{n: 1}
		}

		if f := w.p.lookupMethod(ei.t, nil, "As"); f != nil {
			if w.decideV(w.call(w.p.fn(f), []V{ei.v, target}, nil)) {
				return V{n: 1}
			}
		}

		f := w.p.lookupMethod(ei.t, nil, "Unwrap")
		if f == nil {
			return V{}
		}

		r := w.call(w.p.fn(f), []V{ei.v}, nil)

		if f.Signature.Results().At(0).Type().String() == "error" {
			err = r

			continue
		}

		for _, e := range sliceCells(r, 1) {
			if w.decideV(w.errorsAs(e, target)) {
				return V{n: 1}
			}
		}

		return V{}
	}

	return V{}
}

func (w *W) syncMap(v V) *MapObj {
	o, _ := v.r.(*Obj)
	if o == nil {
		w.panicNil()
	}

	k := syncKey{o, v.n}
	if m, ok := w.syncMaps[k]; ok {
		return m
	}

	m := newMapObj(true)
	w.syncMaps[k] = m

	return m
}

type syncKey struct {
	o *Obj
	n uint64
}

func (w *W) sortSlice(args []V, stable bool) V {
	i, _ := args[0].r.(*Iface)
	s, _ := i.v.r.(*Slice)

	if s == nil || s.len < 2 {
		return V{}
	}

	es := i.t.elem.size
	swap := nativeFn("swap", func(w *W, a []V) V {
		x, y := s.off+int(a[0].n)*es, s.off+int(a[1].n)*es
		for k := 0; k < es; k++ {
			p, q := s.obj.cells[x+k], s.obj.cells[y+k]
			w.storeCell(s.obj, x+k, q)
			w.storeCell(s.obj, y+k, p)
		}

		return V{}
	})
	ls := V{r: Agg{args[1], swap}}

	if stable {
		return w.call(w.p.funcByName("sort", "stable_func"), []V{ls, iret(s.len)}, nil)
	}

	limit := 0
	for n := s.len; n > 0; n >>= 1 {
		limit++
	}

	return w.call(w.p.funcByName("sort", "pdqsort_func"), []V{ls, {}, iret(s.len), iret(limit)}, nil)
}

func init() {
	table = map[string]Intrinsic{
		// --- bytes and strings
		"internal/bytealg.IndexByte": func(w *W, a []V) V { return iret(w.findByte(sliceCells(a[0], 1), a[1])) },
		"internal/bytealg.IndexByteString": func(w *W, a []V) V {
			if s, ok := goStr(a[0]); ok && a[1].r == nil {
				return iret(strings.IndexByte(s, byte(a[1].n)))
			}

			return iret(w.findByte(strCells(a[0]), a[1]))
		},
		"internal/bytealg.LastIndexByte":       func(w *W, a []V) V { return iret(w.findLastByte(sliceCells(a[0], 1), a[1])) },
		"internal/bytealg.LastIndexByteString": func(w *W, a []V) V { return iret(w.findLastByte(strCells(a[0]), a[1])) },
		"internal/bytealg.Count":               func(w *W, a []V) V { return w.countByte(sliceCells(a[0], 1), a[1]) },
		"internal/bytealg.CountString": func(w *W, a []V) V {
			return w.countByte(strCells(a[0]), a[1])
		},
		"internal/bytealg.Equal": func(w *W, a []V) V {
			return w.strEq(mkStrCopy(sliceCells(a[0], 1)), mkStrCopy(sliceCells(a[1], 1)))
		},
		"bytes.Equal": func(w *W, a []V) V {
			return w.strEq(mkStrCopy(sliceCells(a[0], 1)), mkStrCopy(sliceCells(a[1], 1)))
		},
		"internal/bytealg.Compare": func(w *W, a []V) V {
			return iret(w.strCmp(mkStrCopy(sliceCells(a[0], 1)), mkStrCopy(sliceCells(a[1], 1))))
		},
		"bytes.Compare": func(w *W, a []V) V {
			return iret(w.strCmp(mkStrCopy(sliceCells(a[0], 1)), mkStrCopy(sliceCells(a[1], 1))))
		},
		"internal/bytealg.CompareString": func(w *W, a []V) V { return iret(w.strCmp(a[0], a[1])) },
		"strings.Compare":                func(w *W, a []V) V { return iret(w.strCmp(a[0], a[1])) },
		"cmp.compareString":              nil,
		"internal/bytealg.MakeNoZero": func(w *W, a []V) V {
			n := int(w.concretize(a[0], w.p.t.i64))

			return w.mkSlice(w.p.t.u8, n, roundup(max(n, 1)))
		},
		"internal/bytealg.Index": func(w *W, a []V) V {
			return iret(w.findSub(sliceCells(a[0], 1), sliceCells(a[1], 1)))
		},
		"internal/bytealg.IndexString": func(w *W, a []V) V { return iret(w.findSub(strCells(a[0]), strCells(a[1]))) },
		"strings.Index":                indexStr,
		"internal/stringslite.Index":   indexStr,
		"strings.LastIndex":            func(w *W, a []V) V { return iret(w.findLastSub(strCells(a[0]), strCells(a[1]))) },
		"bytes.Index":                  func(w *W, a []V) V { return iret(w.findSub(sliceCells(a[0], 1), sliceCells(a[1], 1))) },
		"maps.clone": func(w *W, a []V) V {
			i := a[0].r.(*Iface)

			m, ok := i.v.r.(*MapObj)
			if !ok || m == nil {
				return a[0]
			}

			c := m.clone()
			c.init = w.inInit

			return V{r: &Iface{i.t, V{r: c}}}
		},
		"strings.Clone":              func(w *W, a []V) V { return a[0] },
		"internal/stringslite.Clone": func(w *W, a []V) V { return a[0] },
		"strings.Repeat":             nil,
		"strings.ToUpper": func(w *W, a []V) V {
			return w.caseStr(a[0], strings.ToUpper, 'a', 'z', -32, "ToUpper")
		},
		"strings.ToLower": func(w *W, a []V) V {
			return w.caseStr(a[0], strings.ToLower, 'A', 'Z', 32, "ToLower")
		},
		// --- numbers
		"math.Float64bits":     func(w *W, a []V) V { return a[0] },
		"math.Float64frombits": func(w *W, a []V) V { return a[0] },
		"math.Float32bits":     func(w *W, a []V) V { return a[0] },
		"math.Float32frombits": func(w *W, a []V) V { return a[0] },
		"math.Floor":           fl1(math.Floor), "math.Ceil": fl1(math.Ceil), "math.Trunc": fl1(math.Trunc), "math.Sqrt": fl1(math.Sqrt),
		"math.archFloor": fl1(math.Floor), "math.archCeil": fl1(math.Ceil), "math.archTrunc": fl1(math.Trunc),
		"math.Abs": fl1(math.Abs), "math.archLog": fl1(math.Log), "math.archExp": fl1(math.Exp),
		"math.archHypot": fl2(math.Hypot), "math.archMax": fl2(math.Max), "math.archMin": fl2(math.Min),
		"strconv.FormatInt": func(w *W, a []V) V {
			if b := w.concretize(a[1], w.p.t.i64); b != 10 {
				n := w.concretize(a[0], w.p.t.i64)

				return sv(strconv.FormatInt(int64(n), int(b)))
			}

			return w.formatInt(a[0], true)
		},
		"strconv.FormatUint": func(w *W, a []V) V {
			if b := w.concretize(a[1], w.p.t.i64); b != 10 {
				n := w.concretize(a[0], w.p.t.i64)

				return sv(strconv.FormatUint(n, int(b)))
			}

			return w.formatInt(a[0], false)
		},
		"strconv.Itoa": func(w *W, a []V) V { return w.formatInt(a[0], true) },
		"strconv.AppendInt": func(w *W, a []V) V {
			if b := w.concretize(a[2], w.p.t.i64); b != 10 {
				n := w.concretize(a[1], w.p.t.i64)

				return w.append(a[0], strCells(sv(strconv.FormatInt(int64(n), int(b)))), w.p.t.u8)
			}

			return w.append(a[0], strCells(w.formatInt(a[1], true)), w.p.t.u8)
		},
		"strconv.AppendUint": func(w *W, a []V) V {
			if b := w.concretize(a[2], w.p.t.i64); b != 10 {
				n := w.concretize(a[1], w.p.t.i64)

				return w.append(a[0], strCells(sv(strconv.FormatUint(n, int(b)))), w.p.t.u8)
			}

			return w.append(a[0], strCells(w.formatInt(a[1], false)), w.p.t.u8)
		},
		"internal/reflectlite.TypeOf": func(w *W, a []V) V { return w.rtypeV(fromIface(a[0]).t) },
		// --- errors
		"errors.Is": func(w *W, a []V) V { return w.errorsIs(a[0], a[1]) },
		"errors.As": func(w *W, a []V) V { return w.errorsAs(a[0], a[1]) },
		// --- unsafe helpers
		"internal/abi.NoEscape":        func(w *W, a []V) V { return a[0] },
		"internal/abi.Escape":          func(w *W, a []V) V { return a[0] },
		"strings.noescape":             func(w *W, a []V) V { return a[0] },
		"(*strings.Builder).copyCheck": nop,
		// --- sync
		"(*sync.Mutex).Lock":        func(w *W, a []V) V { return w.lock(a[0]) },
		"(*sync.Mutex).Unlock":      func(w *W, a []V) V { return w.unlock(a[0]) },
		"(*sync.Mutex).TryLock":     func(w *W, a []V) V { return w.tryLock(a[0]) },
		"(*sync.RWMutex).Lock":      func(w *W, a []V) V { return w.lock(a[0]) },
		"(*sync.RWMutex).Unlock":    func(w *W, a []V) V { return w.unlock(a[0]) },
		"(*sync.RWMutex).TryLock":   func(w *W, a []V) V { return w.tryLock(a[0]) },
		"(*sync.RWMutex).RLock":     func(w *W, a []V) V { return w.rlock(a[0]) },
		"(*sync.RWMutex).RUnlock":   func(w *W, a []V) V { return w.runlock(a[0]) },
		"(*sync.RWMutex).TryRLock":  func(w *W, a []V) V { return w.tryRLock(a[0]) },
		"(*sync.WaitGroup).Add":     func(w *W, a []V) V { return w.wgAdd(a[0], int(int64(w.concretize(a[1], w.p.t.i64)))) },
		"(*sync.WaitGroup).Done":    func(w *W, a []V) V { return w.wgAdd(a[0], -1) },
		"(*sync.WaitGroup).Wait":    func(w *W, a []V) V { return w.wgWait(a[0]) },
		"(*sync.WaitGroup).Go":      func(w *W, a []V) V { return w.wgGo(a[0], a[1]) },
		"(*sync.copyChecker).check": nop,
		"sync.runtime_notifyListAdd": func(w *W, a []V) V {
			l := w.notifyOf(a[0])
			l.next++

			return V{n: uint64(l.next - 1)}
		},
		"sync.runtime_notifyListWait": func(w *W, a []V) V {
			l, t := w.notifyOf(a[0]), int(a[1].n)
			w.block(func() bool { return t < l.notified })

			return V{}
		},
		"sync.runtime_notifyListNotifyAll": func(w *W, a []V) V {
			l := w.notifyOf(a[0])
			l.notified = l.next

			return V{}
		},
		"sync.runtime_notifyListNotifyOne": func(w *W, a []V) V {
			if l := w.notifyOf(a[0]); l.notified < l.next {
				l.notified++
			}

			return V{}
		},
		"sync.runtime_notifyListCheck": nop,
		"(*sync.Pool).Put":             nop,
		"(*sync.Pool).Get": func(w *W, a []V) V {
			t := w.p.typeByName("sync", "Pool")
			f := t.fields[len(t.fields)-1]
			nf := a[0].r.(*Obj).cells[int(a[0].n)+f.off]

			if nf.r == nil {
				return V{}
			}

			return w.callFn(nf, nil)
		},
		"(*sync.Map).Load": func(w *W, a []V) V {
			e := w.mapFind(w.syncMap(a[0]), w.p.t.any, a[1])
			if e == nil {
				return V{r: Agg{{}, {}}}
			}

			return V{r: Agg{e.v, {n: 1}}}
		},
		"(*sync.Map).Store": func(w *W, a []V) V {
			w.mapSet(w.syncMap(a[0]), w.p.t.any, a[1], a[2])

			return V{}
		},
		"(*sync.Map).LoadOrStore": func(w *W, a []V) V {
			m := w.syncMap(a[0])
			if e := w.mapFind(m, w.p.t.any, a[1]); e != nil {
				return V{r: Agg{e.v, {n: 1}}}
			}

			w.mapSet(m, w.p.t.any, a[1], a[2])

			return V{r: Agg{a[2], {}}}
		},
		"(*sync.Map).Delete": func(w *W, a []V) V {
			w.mapDel(w.syncMap(a[0]), w.p.t.any, a[1])

			return V{}
		},
		"(*sync.Map).Range": func(w *W, a []V) V {
			m := w.syncMap(a[0])
			for _, e := range append([]*MapEnt(nil), m.ents...) {
				if !w.decideV(w.callFn(a[1], []V{e.k, e.v})) {
					break
				}
			}

			return V{}
		},
		// --- runtime
		"runtime.KeepAlive": nop, "runtime.SetFinalizer": nop, "runtime.GC": nop,
		"runtime.Gosched": func(w *W, a []V) V {
			w.yield()

			return V{}
		},
		"runtime.GOMAXPROCS":     func(w *W, a []V) V { return V{n: 1} },
		"runtime.NumCPU":         func(w *W, a []V) V { return V{n: 1} },
		"runtime.Caller":         func(w *W, a []V) V { return V{r: Agg{{}, {}, {}, {}}} },
		"runtime.Callers":        func(w *W, a []V) V { return V{} },
		"runtime.AddCleanup":     func(w *W, a []V) V { return V{r: make(Agg, 2)} },
		"time.initLocal":         nop,
		"math/rand.runtime_rand": random, "math/rand/v2.runtime_rand": random,
		"time.now":                             clock,
		"time.runtimeNow":                      clock,
		"time.runtimeIsBubbled":                func(w *W, a []V) V { return V{} },
		"crypto/internal/fips140.getIndicator": func(w *W, a []V) V { return V{} },
		"crypto/internal/fips140.setIndicator": nop, "crypto/internal/boring/sig.StandardCrypto": nop,
		"crypto/internal/boring/sig.BoringCrypto": nop,
		"time.runtimeNano":                        func(w *W, a []V) V { return clock(w, a).r.(Agg)[2] },
		"time.Sleep": func(w *W, a []V) V {
			w.yield()

			return V{}
		},
		"sort.Slice":       func(w *W, a []V) V { return w.sortSlice(a, false) },
		"sort.SliceStable": func(w *W, a []V) V { return w.sortSlice(a, true) },
		"fmt.init":         nil,
		"os.runtime_args":  func(w *W, a []V) V { return V{} },
	}

	for k, v := range table {
		if v == nil {
			delete(table, k)
		}
	}
}

func indexStr(w *W, a []V) V {
	x, ok1 := goStr(a[0])
	y, ok2 := goStr(a[1])

	if ok1 && ok2 {
		return iret(strings.Index(x, y))
	}

	return iret(w.findSub(strCells(a[0]), strCells(a[1])))
}

// random is any number.
func random(w *W, a []V) V { return tv(w.input("$rand", "i64", 64)) }

// clockStep is the time, in seconds, that the clock advances whenever it is read.
const clockStep = 100003

// clock is a time later than any that was read before.
func clock(w *W, a []V) V {
	if !w.inInit {
		w.clock++
	}

	n := uint64(w.clock)

	return V{r: Agg{{n: 1700000000 + n*clockStep}, {n: n * 1000007 % 1000000000}, {n: 1 + n*clockStep*1000000000}}}
}

func fl2(f func(x, y float64) float64) Intrinsic {
	return func(w *W, a []V) V {
		if a[0].r != nil || a[1].r != nil {
			panic(engineErr{"symbolic float"})
		}

		return V{n: math.Float64bits(f(math.Float64frombits(a[0].n), math.Float64frombits(a[1].n)))}
	}
}

func fl1(f func(float64) float64) Intrinsic {
	return func(w *W, a []V) V {
		if a[0].r != nil {
			panic(engineErr{"symbolic float"})
		}

		return V{n: math.Float64bits(f(math.Float64frombits(a[0].n)))}
	}
}

func (w *W) countByte(cells []V, c V) V {
	n := 0

	for _, b := range cells {
		if w.decide(w.ts.Eq(w.bt(b), w.bt(c))) {
			n++
		}
	}

	return iret(n)
}

func (w *W) caseStr(v V, native func(string) string, lo, hi byte, delta int, name string) V {
	if s, ok := goStr(v); ok {
		return sv(native(s))
	}

	cells := strCells(v)
	if w.allASCII(cells) {
		return mkStr(w.mapCase(cells, lo, hi, delta))
	}

	// Not ASCII: map each rune.
	f := w.p.funcByName("unicode", name)

	var acc []V

	for i := 0; i < len(cells); {
		r, n := w.decodeRune(v, i)
		u := w.call(f, []V{r}, nil)
		acc = append(acc, strCells(w.runeToStr(u, w.p.t.rune_))...)
		i += n
	}

	return mkStr(acc)
}

// --- the harness interface

var symTable map[string]Intrinsic

func (w *W) str(v V) string {
	s, ok := goStr(v)
	if !ok {
		panic(engineErr{"symbolic name"})
	}

	return strings.Clone(s)
}

func (w *W) input(name, kind string, width uint8) *Term {
	n := w.name(name)
	t := w.ts.Var(fmt.Sprintf("%s:%d", n, width), width)
	w.inputs = append(w.inputs, Input{Name: n, Kind: kind, t: t})

	return t
}

func init() {
	symTable = map[string]Intrinsic{
		"Byte":  func(w *W, a []V) V { return tv(w.input(w.str(a[0]), "u8", 8)) },
		"Uint8": func(w *W, a []V) V { return tv(w.input(w.str(a[0]), "u8", 8)) },
		"Int64": func(w *W, a []V) V { return tv(w.input(w.str(a[0]), "i64", 64)) },
		"Bool": func(w *W, a []V) V {
			t := w.input(w.str(a[0]), "bool", 8)
			w.assume(tv(w.ts.Ult(t, w.ts.Const(2, 8))))

			return tv(w.ts.Eq(t, w.ts.Const(1, 8)))
		},
		"Choice": func(w *W, a []V) V {
			n := w.name(w.str(a[0]))
			c := w.choose(int(w.concretize(a[1], w.p.t.i64)))
			w.inputs = append(w.inputs, Input{Name: n, Kind: "choice", n: c})

			return iret(c)
		},
		"Str": func(w *W, a []V) V {
			name := w.str(a[0])
			n := int(w.concretize(a[1], w.p.t.i64))
			b := make([]V, n)

			for i := range b {
				b[i] = tv(w.input(fmt.Sprintf("%s[%d]", name, i), "u8", 8))
			}

			return mkStr(b)
		},
		"Assume": func(w *W, a []V) V {
			w.assume(a[0])

			return V{}
		},
		"Assert": func(w *W, a []V) V {
			w.assert(a[0], w.str(a[1]))

			return V{}
		},
		"Reach": func(w *W, a []V) V {
			w.reached = append(w.reached, w.str(a[0]))

			return V{}
		},
		"ObserveStr": func(w *W, a []V) V {
			w.obs = append(w.obs, Obs{w.str(a[0]), a[1], "str"})

			return V{}
		},
		"ObserveInt": func(w *W, a []V) V {
			w.obs = append(w.obs, Obs{w.str(a[0]), a[1], "int"})

			return V{}
		},
		"ObserveBool": func(w *W, a []V) V {
			w.obs = append(w.obs, Obs{w.str(a[0]), a[1], "bool"})

			return V{}
		},
		"MapOrder": func(w *W, a []V) V {
			w.mapOrd = int(a[0].n)
			w.mapDev = -1

			return V{}
		},
		"MapTurns": func(w *W, a []V) V {
			w.mapDev = int(a[0].n)

			return V{}
		},
		"And":   func(w *W, a []V) V { return w.and(a[0], a[1]) },
		"Or":    func(w *W, a []V) V { return w.or(a[0], a[1]) },
		"EqStr": func(w *W, a []V) V { return w.strEq(a[0], a[1]) },
		"In": func(w *W, a []V) V {
			s := w.str(a[1])
			if a[0].r == nil {
				return bv(strings.IndexByte(s, byte(a[0].n)) >= 0)
			}

			acc := w.ts.False
			for i := 0; i < len(s); i++ {
				acc = w.ts.Or(acc, w.ts.Eq(a[0].r.(*Term), w.ts.Const(uint64(s[i]), 8)))
			}

			return tv(acc)
		},
		"Symbolic": func(w *W, a []V) V { return V{n: 1} },
		"Thorough": func(w *W, a []V) V { return bv(w.run_.thorough) },
		"Stop": func(w *W, a []V) V {
			w.abort("stop")

			return V{}
		},
		"Bound": func(w *W, a []V) V {
			w.run_.mu.Lock()
			w.run_.bounds[w.str(a[0])] = true
			w.run_.mu.Unlock()

			return V{}
		},
		"exit":    func(w *W, a []V) V { panic(exitPanic{int(a[0].n)}) },
		"runMain": symRunMain,
		"warm":    func(w *W, a []V) V { return bv(w.inInit) },
		"Cpp":     symCpp,
		"Memo":    symMemo,
		"Yield": func(w *W, a []V) V {
			w.preempt()

			return V{}
		},
		"Samples": func(w *W, a []V) V {
			w.run_.mu.Lock()
			w.run_.maxwit = int(a[0].n)
			w.run_.mu.Unlock()

			return V{}
		},
	}
}

var (
	memoMu sync.Mutex
	memos  = map[string]string{}
)

// symMemo is sym.Memo(key string, f func() string) string: what f gives is kept if it depends on nothing symbolic.
func symMemo(w *W, a []V) V {
	key := w.str(a[0])

	memoMu.Lock()
	s, ok := memos[key]
	memoMu.Unlock()

	if ok {
		return sv(s)
	}

	n := len(w.log)
	v := w.callFn(a[1], nil)

	if s, ok := goStr(v); ok && len(w.log) == n {
		memoMu.Lock()
		memos[key] = s
		memoMu.Unlock()
	}

	return v
}

// crashed is what symRunMain gives for a panic: package env knows it.
const crashed = -1000

// symRunMain runs the main function of a command: it gives the exit status, or crashed for a panic.
func symRunMain(w *W, a []V) (res V) {
	path := w.str(a[0])
	pk := w.p.byPath[path]

	if pk == nil || pk.Func("main") == nil {
		panic(engineErr{"no command " + path})
	}

	depth, slab, sp := w.depth, w.slab, w.sp
	mark := w.mark()

	defer func() {
		r := uncrash(recover())
		w.killSince(mark)

		if r == nil {
			return
		}

		w.depth, w.slab, w.sp = depth, slab, sp

		switch r := r.(type) {
		case exitPanic:
			res = iret(r.code)
		case *goPanic:
			w.lastPanic = r
			if verbose {
				fmt.Fprintf(os.Stderr, "    command panics: %s\n%s", w.panicText(r), r.stack)
			}
			res = iret(crashed)
		default:
			panic(r)
		}
	}()

	// The variables of the command and of the repository's packages start afresh.
	for _, q := range w.p.repoDeps(pk) {
		w.resetGlobals(q)
	}

	w.call(w.p.fn(pk.Func("init")), nil, nil)
	w.call(w.p.fn(pk.Func("main")), nil, nil)

	return iret(0)
}

var _ = unsafe.Pointer(nil)
