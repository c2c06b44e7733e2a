package main

import (
	"encoding/binary"
	"fmt"
	"math"
	"strings"
)

// V is a value: concrete scalars are in n (with r nil); symbolic ones have r = *Term.
// Pointers have r = *Obj (nil for nil) and n = the cell offset.
// Strings have r = nil (""), string or *SymStr. Aggregates have r = Agg.
type V struct {
	n uint64
	r any
}

// Agg is a flattened struct, array or tuple; it is immutable once made.
type Agg []V

// Obj is a heap object.
type Obj struct {
	cells []V
	init  bool // made during initialisation: writes to it during a path are undone after it
	t     *TInfo
	id    int64
}

// SymStr is a string of known length, some of whose bytes are symbolic.
// An alias shares the bytes of an object that may still be written to, and they may all be concrete.
type SymStr struct {
	b     []V
	alias bool
}

// aliasStr is a string that shares the bytes of an object, as package unsafe makes them.
func aliasStr(o *Obj, off, n int) V {
	if n == 0 {
		return V{}
	}

	return V{r: &SymStr{b: o.cells[off : off+n : off+n], alias: true}}
}

// Slice is a non-nil slice; off is in cells, len and cap are in elements.
type Slice struct {
	obj           *Obj
	off, len, cap int
}

// Iface is a non-nil interface value.
type Iface struct {
	t *TInfo
	v V
}

// Fn is a function value.
type Fn struct {
	fn   *CFn
	free []V
}

// MapEnt is a map entry.
type MapEnt struct {
	k, v V
	dead bool
}

// MapObj is a map.
type MapObj struct {
	ents []*MapEnt
	idx  map[string]*MapEnt // by encoded key, for concrete keys
	nsym int                // live entries with symbolic keys
	live int
	init bool
}

func newMapObj(init bool) *MapObj { return &MapObj{idx: map[string]*MapEnt{}, init: init} }

func (m *MapObj) clone() *MapObj {
	c := &MapObj{idx: make(map[string]*MapEnt, len(m.idx)), nsym: m.nsym, live: m.live, init: m.init}
	old := map[*MapEnt]*MapEnt{}

	for _, e := range m.ents {
		e2 := *e
		c.ents = append(c.ents, &e2)
		old[e] = &e2
	}

	for k, e := range m.idx {
		c.idx[k] = old[e]
	}

	return c
}

func iv(n uint64) V { return V{n: n} }
func bv(b bool) V {
	if b {
		return V{n: 1}
	}

	return V{}
}
func sv(s string) V {
	if s == "" {
		return V{}
	}

	return V{r: s}
}
func tv(t *Term) V {
	if t.isConst() {
		return V{n: t.val}
	}

	return V{r: t}
}

func (v V) sym() bool { _, ok := v.r.(*Term); return ok }

func strLen(v V) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}

	panic(fmt.Sprintf("strLen of %T", v.r))
}

func strAt(v V, i int) V {
	switch s := v.r.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SymStr:
		return s.b[i]
	}

	panic("strAt")
}

func strSub(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}

	switch s := v.r.(type) {
	case string:
		return V{r: s[lo:hi]}
	case *SymStr:
		if s.alias {
			return V{r: &SymStr{b: s.b[lo:hi:hi], alias: true}}
		}

		return mkStr(s.b[lo:hi])
	}

	panic("strSub")
}

// mkStr makes a string of byte cells, which it may keep.
func mkStr(b []V) V {
	for _, c := range b {
		if c.r != nil {
			return V{r: &SymStr{b: b}}
		}
	}

	if len(b) == 0 {
		return V{}
	}

	var sb strings.Builder

	sb.Grow(len(b))

	for _, c := range b {
		sb.WriteByte(byte(c.n))
	}

	return V{r: sb.String()}
}

func mkStrCopy(b []V) V {
	for _, c := range b {
		if c.r != nil {
			return V{r: &SymStr{b: append([]V(nil), b...)}}
		}
	}

	return mkStr(b)
}

func strBytes(v V) []V {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = uint64(s[i])
		}

		return out
	case *SymStr:
		return append([]V(nil), s.b...)
	}

	panic("strBytes")
}

func strConcat(a, b V) V {
	if a.r == nil {
		return b
	}

	if b.r == nil {
		return a
	}

	if x, ok := a.r.(string); ok {
		if y, ok := b.r.(string); ok {
			return V{r: x + y}
		}
	}

	return mkStr(append(strBytes(a), strBytes(b)...))
}

// goStr gives a concrete string; it reports false if v is symbolic.
func goStr(v V) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	case *SymStr:
		if s.alias {
			b := make([]byte, len(s.b))

			for i, c := range s.b {
				if c.r != nil {
					return "", false
				}

				b[i] = byte(c.n)
			}

			return string(b), true
		}
	}

	return "", false
}

func agg(v V) Agg {
	a, _ := v.r.(Agg)

	return a
}

// part takes a field or element out of an aggregate.
func part(a Agg, off int, t *TInfo) V {
	if t.agg {
		return V{r: a[off : off+t.size : off+t.size]}
	}

	return a[off]
}

// load reads a value of type t at cells[off:].
func load(o *Obj, off int, t *TInfo) V {
	if t.agg {
		c := make(Agg, t.size)
		copy(c, o.cells[off:off+t.size])

		return V{r: c}
	}

	return o.cells[off]
}

func (w *W) store(o *Obj, off int, t *TInfo, v V) {
	if t.agg {
		if t.size == 0 {
			return
		}

		a := v.r.(Agg)
		if o.init && !w.inInit {
			for i := range a {
				w.trail = append(w.trail, trailEnt{o, off + i, o.cells[off+i]})
			}
		}

		copy(o.cells[off:off+t.size], a)

		return
	}

	if o.init && !w.inInit {
		w.trail = append(w.trail, trailEnt{o, off, o.cells[off]})
	}

	o.cells[off] = v
}

func (w *W) storeCell(o *Obj, off int, v V) {
	if o.init && !w.inInit {
		w.trail = append(w.trail, trailEnt{o, off, o.cells[off]})
	}

	o.cells[off] = v
}

func (w *W) newObj(n int, t *TInfo) *Obj {
	w.nobj++

	return &Obj{cells: make([]V, n), init: w.inInit, t: t, id: w.nobj}
}

func zero(t *TInfo) V {
	if t.agg {
		return V{r: make(Agg, t.size)}
	}

	return V{}
}

// flat gives the cells of v.
func flat(v V, t *TInfo) []V {
	if t.agg {
		return agg(v)
	}

	return []V{v}
}

// unflat makes a value of cells.
func unflat(c []V, t *TInfo) V {
	if t.agg {
		return V{r: append(Agg(nil), c...)}
	}

	return c[0]
}

// --- equality

// eq decides whether two values of type t are equal: the result is a Boolean, maybe symbolic.
func (w *W) eq(t *TInfo, a, b V) V {
	switch t.kind {
	case KBool, KInt:
		if a.r == nil && b.r == nil {
			return bv(a.n == b.n)
		}

		return tv(w.ts.Eq(w.term(a, t), w.term(b, t)))
	case KFloat:
		if a.r != nil || b.r != nil {
			return tv(w.ts.mk(OpFEq, 0, w.term(a, t), w.term(b, t), nil))
		}

		return bv(w.fl(a, t) == w.fl(b, t))
	case KString:
		return w.strEq(a, b)
	case KPtr, KUnsafe, KChan:
		return bv(a.r == b.r && a.n == b.n)
	case KIface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)

		if x == nil || y == nil {
			return bv(x == y)
		}

		if x.t != y.t {
			return V{}
		}

		if !comparable(x.t) {
			w.panicRT("runtime error: comparing uncomparable type " + x.t.String())
		}

		return w.eq(x.t, x.v, y.v)
	case KStruct:
		x, y := agg(a), agg(b)
		r := V{n: 1}

		for _, f := range t.fields {
			e := w.eq(f.t, part(x, f.off, f.t), part(y, f.off, f.t))
			if r = w.and(r, e); r.r == nil && r.n == 0 {
				return r
			}
		}

		return r
	case KArray:
		x, y := agg(a), agg(b)
		r := V{n: 1}

		for i := 0; i < t.n; i++ {
			e := w.eq(t.elem, part(x, i*t.elem.size, t.elem), part(y, i*t.elem.size, t.elem))
			if r = w.and(r, e); r.r == nil && r.n == 0 {
				return r
			}
		}

		return r
	case KSlice, KMap, KFunc:
		return bv(a.r == nil && b.r == nil)
	}

	panic(engineErr{"eq on " + t.String()})
}

func comparable(t *TInfo) bool {
	switch t.kind {
	case KSlice, KMap, KFunc:
		return false
	case KStruct:
		for _, f := range t.fields {
			if !comparable(f.t) {
				return false
			}
		}
	case KArray:
		return comparable(t.elem)
	}

	return true
}

func (w *W) and(a, b V) V {
	if a.r == nil {
		if a.n == 0 {
			return a
		}

		return b
	}

	if b.r == nil {
		if b.n == 0 {
			return b
		}

		return a
	}

	return tv(w.ts.And(a.r.(*Term), b.r.(*Term)))
}

func (w *W) or(a, b V) V { return w.not(w.and(w.not(a), w.not(b))) }

func (w *W) not(a V) V {
	if a.r == nil {
		return V{n: a.n ^ 1}
	}

	return tv(w.ts.Not(a.r.(*Term)))
}

func (w *W) bterm(a V) *Term {
	if a.r == nil {
		return w.ts.Bool(a.n != 0)
	}

	return a.r.(*Term)
}

// term makes v, of scalar type t, a term.
func (w *W) term(v V, t *TInfo) *Term {
	if x, ok := v.r.(*Term); ok {
		return x
	}

	if t.kind == KBool {
		return w.ts.Bool(v.n != 0)
	}

	return w.ts.Const(v.n, t.w)
}

func (w *W) bt(v V) *Term {
	if x, ok := v.r.(*Term); ok {
		return x
	}

	return w.ts.Const(v.n, 8)
}

func (w *W) strEq(a, b V) V {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)

	if ok1 && ok2 {
		return bv(x == y)
	}

	n := strLen(a)
	if n != strLen(b) {
		return V{}
	}

	acc := w.ts.True

	for i := 0; i < n; i++ {
		p, q := strAt(a, i), strAt(b, i)
		if p.r == nil && q.r == nil {
			if p.n != q.n {
				return V{}
			}

			continue
		}

		acc = w.ts.And(acc, w.ts.Eq(w.bt(p), w.bt(q)))
		if acc == w.ts.False {
			return V{}
		}
	}

	return tv(acc)
}

// strCmp compares strings, deciding symbolic bytes by forking.
func (w *W) strCmp(a, b V) int {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)

	if ok1 && ok2 {
		return strings.Compare(x, y)
	}

	n, m := strLen(a), strLen(b)
	for i := 0; i < n && i < m; i++ {
		p, q := strAt(a, i), strAt(b, i)
		if p.r == nil && q.r == nil {
			if p.n != q.n {
				if p.n < q.n {
					return -1
				}

				return 1
			}

			continue
		}

		pt, qt := w.bt(p), w.bt(q)
		if w.decide(w.ts.Eq(pt, qt)) {
			continue
		}

		if w.decide(w.ts.Ult(pt, qt)) {
			return -1
		}

		return 1
	}

	switch {
	case n < m:
		return -1
	case n > m:
		return 1
	}

	return 0
}

// strLess gives a < b as a Boolean, without forking.
func (w *W) strLess(a, b V) V {
	x, ok1 := goStr(a)
	y, ok2 := goStr(b)

	if ok1 && ok2 {
		return bv(x < y)
	}

	n, m := strLen(a), strLen(b)
	k := min(n, m)
	acc := w.ts.Bool(n < m)

	for i := k - 1; i >= 0; i-- {
		p, q := w.bt(strAt(a, i)), w.bt(strAt(b, i))
		acc = w.ts.Or(w.ts.Ult(p, q), w.ts.And(w.ts.Eq(p, q), acc))
	}

	return tv(acc)
}

func (w *W) fl(v V, t *TInfo) float64 {
	if v.r != nil {
		panic(engineErr{"symbolic float"})
	}

	if t.w == 32 {
		return float64(math.Float32frombits(uint32(v.n)))
	}

	return math.Float64frombits(v.n)
}

func flV(f float64, t *TInfo) V {
	if t.w == 32 {
		return V{n: uint64(math.Float32bits(float32(f)))}
	}

	return V{n: math.Float64bits(f)}
}

// --- map keys

// keyEnc encodes a concrete key of type t; it reports false if k is symbolic.
func (w *W) keyEnc(buf []byte, t *TInfo, k V) ([]byte, bool) {
	switch t.kind {
	case KBool, KInt, KFloat:
		if k.r != nil {
			return nil, false
		}

		return binary.LittleEndian.AppendUint64(buf, k.n), true
	case KString:
		s, ok := goStr(k)
		if !ok {
			return nil, false
		}

		buf = binary.LittleEndian.AppendUint32(buf, uint32(len(s)))

		return append(buf, s...), true
	case KPtr, KUnsafe, KChan:
		switch o := k.r.(type) {
		case nil:
			return append(buf, 0), true
		case *Obj:
			buf = append(buf, 1)
			buf = binary.LittleEndian.AppendUint64(buf, uint64(o.id))

			return binary.LittleEndian.AppendUint64(buf, k.n), true
		case *ChanObj:
			return binary.LittleEndian.AppendUint64(append(buf, 2), uint64(o.id)), true
		}

		panic(engineErr{fmt.Sprintf("pointer key %T", k.r)})
	case KIface:
		x, _ := k.r.(*Iface)
		if x == nil {
			return append(buf, 0), true
		}

		if !comparable(x.t) {
			w.panicRT("runtime error: hash of unhashable type " + x.t.String())
		}

		buf = append(buf, 1)
		buf = binary.LittleEndian.AppendUint32(buf, uint32(x.t.id))

		return w.keyEnc(buf, x.t, x.v)
	case KStruct:
		a := agg(k)
		ok := true

		for _, f := range t.fields {
			if buf, ok = w.keyEnc(buf, f.t, part(a, f.off, f.t)); !ok {
				return nil, false
			}
		}

		return buf, true
	case KArray:
		a := agg(k)
		ok := true

		for i := 0; i < t.n; i++ {
			if buf, ok = w.keyEnc(buf, t.elem, part(a, i*t.elem.size, t.elem)); !ok {
				return nil, false
			}
		}

		return buf, true
	}

	panic(engineErr{"map key of type " + t.String()})
}

func (w *W) mapFind(m *MapObj, kt *TInfo, k V) *MapEnt {
	if m == nil || m.live == 0 {
		// Hashing can still panic.
		if kt.kind == KIface {
			w.keyEnc(nil, kt, k)
		}

		return nil
	}

	var tmp [64]byte

	enc, conc := w.keyEnc(tmp[:0], kt, k)
	if conc {
		if e := m.idx[string(enc)]; e != nil {
			return e
		}

		if m.nsym == 0 {
			return nil
		}
	}

	for _, e := range m.ents {
		if e.dead {
			continue
		}

		c := w.eq(kt, k, e.k)
		if w.decideV(c) {
			return e
		}
	}

	return nil
}

func (w *W) mapMut(m *MapObj) {
	if m.init && !w.inInit {
		if _, ok := w.mapSaves[m]; !ok {
			w.mapSaves[m] = m.clone()
		}
	}
}

func (w *W) mapSet(m *MapObj, kt *TInfo, k, v V) {
	e := w.mapFind(m, kt, k)

	w.mapMut(m)

	if e != nil {
		e.v = v

		return
	}

	e = &MapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++

	if enc, conc := w.keyEnc(nil, kt, k); conc {
		m.idx[string(enc)] = e
	} else {
		m.nsym++
	}
}

func (w *W) mapDel(m *MapObj, kt *TInfo, k V) {
	if m == nil {
		return
	}

	e := w.mapFind(m, kt, k)
	if e == nil {
		return
	}

	w.mapMut(m)

	e.dead = true
	m.live--

	if enc, conc := w.keyEnc(nil, kt, e.k); conc {
		delete(m.idx, string(enc))
	} else {
		m.nsym--
	}

	for i, x := range m.ents {
		if x == e {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)

			break
		}
	}
}
