package main

// Parsing of LLVM's textual intermediate representation, as clang 18 writes it for C++ without optimisation, exceptions or
// vectors.

import (
	"fmt"
	"math"
	"strconv"
	"strings"
)

type llKind uint8

const (
	llVoid llKind = iota
	llInt
	llPtr
	llFloat
	llArr
	llStruct
	llOther
)

type llType struct {
	kind   llKind
	w      uint8 // bits of integers and floats
	n      int   // elements
	elem   *llType
	fields []*llType
	offs   []int
	size   int
	align  int
}

// llOpd is an operand: a register or a constant.
type llOpd struct {
	reg int // -1: constant
	v   V
}

type llInstr struct {
	op   string
	code int
	dst  int
	ty   *llType // of the result, or what is loaded, stored or allocated
	ty2  *llType // of the operand
	a    []llOpd
	pred string
	// GEP: constant offset, and scaled operands
	off    int
	scales []int
	// Branches, as indexes of blocks; for phi, the blocks that values come from.
	to    []int
	cases []uint64
	byval []int // sizes of arguments that are passed by value
	text  string
}

type llBlock struct {
	ins []llInstr
}

type llFunc struct {
	name   string
	params []int
	nregs  int
	blocks []llBlock
	ret    *llType
	ext    func(w *W, m *llMach, args []V) V
}

// llSym is a global variable or function.
type llSym struct {
	alias *llSym // what it stands for, if it is another name
	name  string
	id    int
	fn    *llFunc
	init  V
	ty    *llType
	ro    bool
	ok    bool
}

// llProg is a linked program.
type llProg struct {
	syms  []*llSym // by id, from 1
	named map[string]*llSym
	dup   string // a symbol with several definitions
	ctors []*llSym
	lines int
}

const llShift = 24

func (s *llSym) addr() uint64 { return uint64(s.id) << llShift }

type llParser struct {
	p     *llProg
	unit  int
	local map[string]bool // symbols internal to the unit
	types map[string]*llType
	tdefs map[string]string
	src   string
	pos   int
	regs  map[string]int
	labs  map[string]int
	tok   string
	cur   *llFunc
}

type llErr struct{ msg string }

func (p *llParser) fail(f string, a ...any) {
	lo, hi := p.pos-80, p.pos+40
	if lo < 0 {
		lo = 0
	}

	if hi > len(p.src) {
		hi = len(p.src)
	}

	panic(llErr{fmt.Sprintf(f, a...) + " near " + strconv.Quote(p.src[lo:hi])})
}

func isWord(c byte) bool {
	return c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '-'
}

// next reads a token of the text; newlines are blanks.
func (p *llParser) next() string {
	s := p.src
	i := p.pos

	for i < len(s) && (s[i] == ' ' || s[i] == '\t' || s[i] == '\n') {
		i++
	}

	if i < len(s) && s[i] == ';' {
		for i < len(s) && s[i] != '\n' {
			i++
		}

		p.pos = i

		return p.next()
	}

	if i >= len(s) {
		p.pos, p.tok = i, ""

		return ""
	}

	j := i + 1

	switch c := s[i]; {
	case (c == '%' || c == '@' || c == '$' || c == '!') && j < len(s) && s[j] == '"' || c == 'c' && j < len(s) && s[j] == '"':
		j++
		for s[j] != '"' {
			j++
		}

		j++
	case c == '%' || c == '@' || c == '$' || c == '!' || c == '#':
		for j < len(s) && isWord(s[j]) {
			j++
		}
	case c == '"':
		for s[j] != '"' {
			j++
		}

		j++
	case strings.HasPrefix(s[i:], "..."):
		j = i + 3
	case isWord(c):
		for j < len(s) && (isWord(s[j]) || s[j] == '+') {
			j++
		}
	}

	p.pos = j
	p.tok = s[i:j]

	return p.tok
}

func (p *llParser) peek() string {
	pos := p.pos
	t := p.next()
	p.pos = pos

	return t
}

func (p *llParser) want(t string) {
	if g := p.next(); g != t {
		p.fail("%q instead of %q", g, t)
	}
}

func (p *llParser) accept(t string) bool {
	if p.peek() == t {
		p.next()

		return true
	}

	return false
}

func unquote(n string) string {
	if len(n) > 2 && n[1] == '"' {
		return n[:1] + n[2:len(n)-1]
	}

	return n
}

var (
	llI = map[int]*llType{}
	llP = &llType{kind: llPtr, w: 64, size: 8, align: 8}
	llV = &llType{kind: llVoid, align: 1}
	llF = &llType{kind: llFloat, w: 32, size: 4, align: 4}
	llD = &llType{kind: llFloat, w: 64, size: 8, align: 8}
	llX = &llType{kind: llOther, align: 1}
)

func init() {
	for w := 1; w <= 64; w++ {
		s := 1
		for s*8 < w {
			s *= 2
		}

		llI[w] = &llType{kind: llInt, w: uint8(w), size: s, align: s}
	}
}

func mkStruct(fs []*llType, packed bool) *llType {
	t := &llType{kind: llStruct, fields: fs, align: 1}

	for _, f := range fs {
		a := f.align
		if packed {
			a = 1
		}

		if a > t.align {
			t.align = a
		}

		t.size = (t.size + a - 1) / a * a
		t.offs = append(t.offs, t.size)
		t.size += f.size
	}

	t.size = (t.size + t.align - 1) / t.align * t.align

	return t
}

func (p *llParser) typ() *llType {
	var t *llType

	switch k := p.next(); {
	case k == "void":
		t = llV
	case k == "ptr":
		t = llP
	case k == "float":
		t = llF
	case k == "double":
		t = llD
	case k == "label" || k == "metadata" || k == "token":
		t = llX
	case k == "[":
		n, err := strconv.Atoi(p.next())
		if err != nil {
			p.fail("array")
		}

		p.want("x")
		e := p.typ()
		p.want("]")
		t = &llType{kind: llArr, n: n, elem: e, size: n * e.size, align: e.align}
	case k == "{":
		t = mkStruct(p.typList("}"), false)
	case k == "<" && p.peek() == "{":
		p.next()
		t = mkStruct(p.typList("}"), true)
		p.want(">")
	case len(k) > 1 && k[0] == 'i':
		n, err := strconv.Atoi(k[1:])
		if err != nil || llI[n] == nil {
			p.fail("type %q", k)
		}

		t = llI[n]
	case len(k) > 1 && k[0] == '%':
		n := unquote(k)
		if t = p.types[n]; t == nil {
			def, ok := p.tdefs[n]
			if !ok {
				p.fail("type %q", k)
			}

			if def == "opaque" {
				t = llX
			} else {
				q := &llParser{p: p.p, src: def, types: p.types, tdefs: p.tdefs}
				t = q.typ()
			}

			p.types[n] = t
		}
	default:
		p.fail("type %q", k)
	}

	// Types of functions, in calls.
	for p.peek() == "(" {
		save := p.pos
		p.next()

		if t2 := p.peek(); t2 != ")" && t2 != "..." && !isType(t2) {
			p.pos = save

			break
		}

		p.typList(")")
	}

	return t
}

func isType(t string) bool {
	switch t {
	case "void", "ptr", "float", "double", "[", "{", "<":
		return true
	}

	if len(t) > 1 && t[0] == 'i' {
		_, err := strconv.Atoi(t[1:])

		return err == nil
	}

	return len(t) > 1 && t[0] == '%'
}

func (p *llParser) typList(end string) []*llType {
	var ts []*llType

	for !p.accept(end) {
		if p.accept("...") || p.accept(",") {
			continue
		}

		ts = append(ts, p.typ())
	}

	return ts
}

// sym finds or makes the symbol called name.
func (p *llParser) sym(name string) *llSym {
	name = unquote(name)[1:]

	key := name
	if p.local[name] {
		key = fmt.Sprintf("%d:%s", p.unit, name)
	}

	s := p.p.named[key]
	if s == nil {
		s = &llSym{name: name, id: len(p.p.syms)}
		p.p.syms = append(p.p.syms, s)
		p.p.named[key] = s
	}

	return s
}

func zeroLL(t *llType) V {
	switch t.kind {
	case llArr:
		a := make(Agg, t.n)
		for i := range a {
			a[i] = zeroLL(t.elem)
		}

		return V{r: a}
	case llStruct:
		a := make(Agg, len(t.fields))
		for i := range a {
			a[i] = zeroLL(t.fields[i])
		}

		return V{r: a}
	}

	return V{}
}

// constant reads a constant of type t.
func (p *llParser) constant(t *llType) V {
	switch k := p.next(); {
	case k == "true":
		return V{n: 1}
	case k == "false" || k == "null" || k == "undef" || k == "poison" || k == "zeroinitializer" || k == "none":
		return zeroLL(t)
	case k[0] == 'c' && len(k) > 1 && k[1] == '"':
		var a Agg

		s := k[2 : len(k)-1]
		for i := 0; i < len(s); i++ {
			c := uint64(s[i])
			if s[i] == '\\' {
				c, _ = strconv.ParseUint(s[i+1:i+3], 16, 8)
				i += 2
			}

			a = append(a, V{n: c})
		}

		return V{r: a}
	case k == "[" || k == "{" || k == "<":
		end := map[string]string{"[": "]", "{": "}", "<": "}"}[k]
		if k == "<" {
			p.want("{")
		}

		var a Agg

		for !p.accept(end) {
			if p.accept(",") {
				continue
			}

			a = append(a, p.constant(p.typ()))
		}

		if k == "<" {
			p.want(">")
		}

		return V{r: a}
	case k[0] == '@':
		return V{n: p.sym(k).addr()}
	case k == "getelementptr":
		for p.peek() != "(" {
			p.next()
		}

		p.want("(")
		t := p.typ()
		p.want(",")
		base := p.constant(p.typ())

		var idx []uint64

		for p.accept(",") {
			for p.peek() == "inrange" {
				p.next()
			}

			it := p.typ()
			v := p.constant(it)
			idx = append(idx, uint64(sx(v.n, it.w)))
		}

		p.want(")")

		off := int(int64(idx[0])) * t.size
		for _, i := range idx[1:] {
			if t.kind == llStruct {
				off += t.offs[i]
				t = t.fields[i]
			} else {
				t = t.elem
				off += int(int64(i)) * t.size
			}
		}

		return V{n: base.n + uint64(off)}
	case k == "ptrtoint" || k == "inttoptr" || k == "bitcast" || k == "trunc":
		p.want("(")
		v := p.constant(p.typ())
		p.want("to")
		to := p.typ()
		p.want(")")

		if to.kind == llInt {
			v.n &= mask(to.w)
		}

		return v
	case t.kind == llFloat:
		if strings.HasPrefix(k, "0x") {
			u, err := strconv.ParseUint(k[2:], 16, 64)
			if err != nil {
				p.fail("float %q", k)
			}

			return V{n: u}
		}

		f, err := strconv.ParseFloat(k, 64)
		if err != nil {
			p.fail("float %q", k)
		}

		return V{n: math.Float64bits(f)}
	default:
		i, err := strconv.ParseInt(k, 10, 64)
		if err != nil {
			u, err := strconv.ParseUint(k, 10, 64)
			if err != nil {
				p.fail("constant %q", k)
			}

			return V{n: u}
		}

		if t.kind == llInt {
			return V{n: uint64(i) & mask(t.w)}
		}

		return V{n: uint64(i)}
	}
}

func (p *llParser) reg(n string) int {
	n = unquote(n)

	r, ok := p.regs[n]
	if !ok {
		r = p.cur.nregs
		p.cur.nregs++
		p.regs[n] = r
	}

	return r
}

// opd reads an operand of type t.
func (p *llParser) opd(t *llType) llOpd {
	if k := p.peek(); len(k) > 1 && k[0] == '%' {
		p.next()

		return llOpd{reg: p.reg(k)}
	}

	return llOpd{reg: -1, v: p.constant(t)}
}

func (p *llParser) typed() (*llType, llOpd) {
	t := p.typ()
	p.attrs()

	return t, p.opd(t)
}

var llAttrs = map[string]bool{
	"noundef": true, "nonnull": true, "zeroext": true, "signext": true, "inreg": true, "noalias": true, "nocapture": true, "readonly": true,
	"returned": true, "writeonly": true, "immarg": true, "dead_on_unwind": true, "writable": true, "noreturn": true, "allocptr": true,
	"swiftself": true, "nofree": true, "readnone": true, "allocalign": true, "noext": true, "unnamed_addr": true, "local_unnamed_addr": true,
	"tail": true, "musttail": true, "notail": true, "fastcc": true, "ccc": true, "coldcc": true, "nest": true,
	"dso_local": true, "hidden": true, "protected": true, "internal": true, "private": true, "linkonce_odr": true, "linkonce": true, "weak": true,
	"weak_odr": true, "external": true, "available_externally": true, "common": true, "appending": true, "default": true,
	"thread_local": true, "externally_initialized": true, "comdat": true, "constant": false, "global": false,
	"inbounds": true, "nuw": true, "nsw": true, "exact": true, "fast": true, "nnan": true, "ninf": true, "nsz": true, "arcp": true,
	"contract": true, "afn": true, "reassoc": true, "volatile": true, "nneg": true, "disjoint": true,
}

// attrs skips attributes; it gives the type of what is passed by value, if any.
func (p *llParser) attrs() *llType {
	var byval *llType

	for {
		k := p.peek()

		switch {
		case k == "align":
			p.next()

			if p.accept("(") {
				p.next()
				p.want(")")
			} else {
				p.next()
			}
		case k == "dereferenceable" || k == "dereferenceable_or_null":
			p.next()
			p.want("(")
			p.next()
			p.want(")")
		case k == "byval" || k == "sret" || k == "elementtype" || k == "byref":
			p.next()
			p.want("(")
			t := p.typ()
			p.want(")")

			if k == "byval" {
				byval = t
			}
		case k == "thread_local" || k == "range" || k == "captures" || k == "nofpclass" || k == "initializes":
			p.next()

			if p.accept("(") {
				for d := 1; d > 0; {
					switch p.next() {
					case "(":
						d++
					case ")":
						d--
					}
				}
			}
		case llAttrs[k]:
			p.next()
		default:
			return byval
		}
	}
}

// unit parses the text of a translation unit into the program.
func (pr *llProg) unit(no int, src string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(llErr)
			if !ok {
				panic(r)
			}

			err = fmt.Errorf("%s", e.msg)
		}
	}()

	p := &llParser{p: pr, unit: no, local: map[string]bool{}, types: map[string]*llType{}, tdefs: map[string]string{}, src: src}
	lines := strings.Split(src, "\n")
	pr.lines += len(lines)

	for _, l := range lines {
		if len(l) == 0 {
			continue
		}

		switch {
		case l[0] == '%':
			if n, def, ok := strings.Cut(l, " = type "); ok {
				p.tdefs[unquote(n)] = def
			}
		case l[0] == '@':
			n, rest, ok := strings.Cut(l, " = ")
			if ok && (strings.HasPrefix(rest, "internal ") || strings.HasPrefix(rest, "private ")) {
				p.local[unquote(n)[1:]] = true
			}
		case strings.HasPrefix(l, "define internal ") || strings.HasPrefix(l, "define private "):
			i := strings.IndexByte(l, '@')
			q := &llParser{src: l, pos: i}
			p.local[unquote(q.next())[1:]] = true
		}
	}

	for i := 0; i < len(lines); i++ {
		l := lines[i]

		switch {
		case strings.HasPrefix(l, "@"):
			p.src, p.pos = l, 0
			p.global()
		case strings.HasPrefix(l, "define "):
			j := i
			for lines[j] != "}" {
				j++
			}

			p.function(l, lines[i+1:j])
			i = j
		}
	}

	return nil
}

func (p *llParser) global() {
	name := p.next()
	p.want("=")

	var linkage string

	for p.peek() != "global" && p.peek() != "constant" {
		if p.peek() == "alias" {
			p.next()
			p.typ()
			p.want(",")
			t := p.typ()
			v := p.constant(t)
			s := p.sym(name)
			s.alias = p.p.syms[v.n>>llShift]

			return
		}

		k := p.next()
		if k == "external" {
			linkage = k
		}

		if k == "(" || k == "" {
			p.fail("global")
		}
	}

	ro := p.next() == "constant"
	t := p.typ()

	if linkage == "external" {
		p.sym(name)

		return
	}

	v := p.constant(t)

	if name == "@llvm.global_ctors" {
		for _, e := range v.r.(Agg) {
			p.p.ctors = append(p.p.ctors, p.p.syms[e.r.(Agg)[1].n>>llShift])
		}

		return
	}

	s := p.sym(name)
	if s.ok {
		return // the same inline variable of another unit
	}

	s.init, s.ty, s.ro, s.ok = v, t, ro, true
}

func (p *llParser) function(head string, body []string) {
	p.src, p.pos = head, len("define ")
	p.attrs()

	f := &llFunc{}
	f.ret = p.typ()
	p.attrs()
	name := p.next()
	s := p.sym(name)
	f.name = s.name

	if s.fn != nil {
		// It is the same inline function of another unit, or is there twice.
		if p.p.dup == "" && !strings.Contains(head[:strings.IndexByte(head, '@')], "_odr ") {
			p.p.dup = s.name
		}

		return
	}

	p.cur = f
	p.regs = map[string]int{}
	p.labs = map[string]int{}
	p.want("(")

	anon := 0

	for !p.accept(")") {
		if p.accept(",") || p.accept("...") {
			continue
		}

		p.typ()
		p.attrs()

		n := ""
		if k := p.peek(); k[0] == '%' {
			n = p.next()
		} else {
			n = fmt.Sprintf("%%%d", anon)
		}

		anon++
		f.params = append(f.params, p.reg(n))
	}

	// Blocks: the first has the number after the parameters', if it has no name.
	nb := 0
	first := true

	for _, l := range body {
		if l == "" || l[0] == ' ' {
			if first && l != "" {
				p.labs[fmt.Sprintf("%%%d", anon)] = 0
				nb = 1
				first = false
			}

			continue
		}

		i := strings.LastIndexByte(l[:labelEnd(l)], ':')
		p.labs[unquote("%"+l[:i])] = nb
		nb++
		first = false
	}

	f.blocks = make([]llBlock, nb)
	b := 0
	seen := false

	for i := 0; i < len(body); i++ {
		l := body[i]
		if l == "" {
			continue
		}

		if l[0] != ' ' {
			if seen || b > 0 {
				b++
			}

			seen = true

			continue
		}

		seen = true

		if strings.HasPrefix(l, "  switch ") {
			for !strings.Contains(body[i], "]") {
				i++
				l += " " + body[i]
			}
		}

		p.src, p.pos = l, 0
		f.blocks[b].ins = append(f.blocks[b].ins, p.instr())
	}

	s.fn, s.ok = f, true
}

func labelEnd(l string) int {
	if l[0] == '"' {
		return strings.IndexByte(l[1:], '"') + 3
	}

	return strings.IndexByte(l, ':') + 1
}

func (p *llParser) label() int {
	p.want("label")

	return p.lab(p.next())
}

func (p *llParser) lab(n string) int {
	b, ok := p.labs[unquote(n)]
	if !ok {
		p.fail("label %q", n)
	}

	return b
}

const (
	opAlloca = iota
	opLoad
	opStore
	opGEP
	opCall
	opBr
	opCondBr
	opSwitch
	opRet
	opUnreachable
	opICmp
	opFCmp
	opBin
	opCast
	opPhi
	opSelect
	opExtract
	opInsert
	opFreeze
	opFNeg
)

var llBins = map[string]Op{
	"add": OpAdd, "sub": OpSub, "mul": OpMul, "udiv": OpUdiv, "sdiv": OpSdiv, "urem": OpUrem, "srem": OpSrem, "and": OpBvAnd, "or": OpBvOr,
	"xor": OpBvXor, "shl": OpShl, "lshr": OpLshr, "ashr": OpAshr,
}

func (p *llParser) instr() llInstr {
	if i := strings.Index(p.src, ", !"); i > 0 && !strings.Contains(p.src[:i], " metadata ") {
		p.src = p.src[:i]
	}

	in := llInstr{dst: -1, text: p.src}
	k := p.next()

	if k[0] == '%' {
		in.dst = p.reg(k)
		p.want("=")
		k = p.next()
	}

	for k == "tail" || k == "musttail" || k == "notail" {
		k = p.next()
	}

	in.op = k

	switch k {
	case "alloca":
		in.code = opAlloca
		in.ty = p.typ()

		if p.accept(",") && p.peek() != "align" {
			_, o := p.typed()
			in.a = append(in.a, o)
		}
	case "load":
		in.code = opLoad
		p.attrs()
		in.ty = p.typ()
		p.want(",")
		_, o := p.typed()
		in.a = []llOpd{o}
	case "store":
		in.code = opStore
		p.attrs()
		t, v := p.typed()
		p.want(",")
		_, o := p.typed()
		in.ty = t
		in.a = []llOpd{v, o}
	case "getelementptr":
		in.code = opGEP
		p.attrs()
		t := p.typ()
		p.want(",")
		_, o := p.typed()
		in.a = []llOpd{o}
		first := true

		for p.accept(",") {
			it, o := p.typed()

			if first || t.kind == llArr {
				if !first {
					t = t.elem
				}

				first = false

				if o.reg < 0 {
					in.off += int(sx(o.v.n, it.w)) * t.size
				} else {
					in.a = append(in.a, o)
					in.scales = append(in.scales, t.size)
					in.byval = append(in.byval, int(it.w))
				}

				continue
			}

			if o.reg >= 0 || t.kind != llStruct {
				p.fail("getelementptr")
			}

			in.off += t.offs[o.v.n]
			t = t.fields[o.v.n]
		}
	case "call":
		in.code = opCall
		p.attrs()
		in.ty = p.typ()
		p.attrs()
		in.a = []llOpd{p.opd(llP)}
		p.want("(")

		for !p.accept(")") {
			if p.accept(",") {
				continue
			}

			t := p.typ()

			if t == llX { // metadata
				for q := p.peek(); q != "," && q != ")"; q = p.peek() {
					p.next()
				}

				in.a = append(in.a, llOpd{reg: -1})
				in.byval = append(in.byval, 0)

				continue
			}

			by := p.attrs()
			n := 0

			if by != nil {
				n = by.size
			}

			in.a = append(in.a, p.opd(t))
			in.byval = append(in.byval, n)
		}
	case "br":
		if p.peek() == "label" {
			in.code = opBr
			in.to = []int{p.label()}

			break
		}

		in.code = opCondBr
		_, o := p.typed()
		in.a = []llOpd{o}
		p.want(",")
		t := p.label()
		p.want(",")
		in.to = []int{t, p.label()}
	case "switch":
		in.code = opSwitch
		t, o := p.typed()
		in.ty2 = t
		in.a = []llOpd{o}
		p.want(",")
		in.to = []int{p.label()}
		p.want("[")

		for !p.accept("]") {
			v := p.constant(p.typ())
			p.want(",")
			in.cases = append(in.cases, v.n)
			in.to = append(in.to, p.label())
		}
	case "ret":
		in.code = opRet
		in.ty = p.typ()

		if in.ty.kind != llVoid {
			in.a = []llOpd{p.opd(in.ty)}
		}
	case "unreachable":
		in.code = opUnreachable
	case "icmp", "fcmp":
		in.code = opICmp
		if k == "fcmp" {
			in.code = opFCmp
			p.attrs()
		}

		in.pred = p.next()
		t, a := p.typed()
		p.want(",")
		in.ty2 = t
		in.a = []llOpd{a, p.opd(t)}
	case "phi":
		in.code = opPhi
		p.attrs()
		in.ty = p.typ()

		for {
			p.want("[")
			in.a = append(in.a, p.opd(in.ty))
			p.want(",")
			in.to = append(in.to, p.lab(p.next()))
			p.want("]")

			if !p.accept(",") {
				break
			}
		}
	case "select":
		in.code = opSelect
		p.attrs()
		_, c := p.typed()
		p.want(",")
		t, a := p.typed()
		p.want(",")
		_, b := p.typed()
		in.ty = t
		in.a = []llOpd{c, a, b}
	case "extractvalue", "insertvalue":
		in.code = opExtract
		_, a := p.typed()
		in.a = []llOpd{a}

		if k == "insertvalue" {
			in.code = opInsert
			p.want(",")
			_, v := p.typed()
			in.a = append(in.a, v)
		}

		for p.accept(",") {
			n, err := strconv.Atoi(p.next())
			if err != nil {
				p.fail("index")
			}

			in.to = append(in.to, n)
		}
	case "freeze":
		in.code = opFreeze
		t, a := p.typed()
		in.ty = t
		in.a = []llOpd{a}
	case "fneg":
		in.code = opFNeg
		p.attrs()
		t, a := p.typed()
		in.ty = t
		in.a = []llOpd{a}
	case "zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc":
		in.code = opCast
		p.attrs()
		t, a := p.typed()
		p.want("to")
		in.ty2 = t
		in.ty = p.typ()
		in.a = []llOpd{a}
	case "fadd", "fsub", "fmul", "fdiv", "frem":
		in.code = opBin
		p.attrs()
		t, a := p.typed()
		p.want(",")
		in.ty = t
		in.a = []llOpd{a, p.opd(t)}
	default:
		if _, ok := llBins[k]; !ok {
			p.fail("instruction %q", k)
		}

		in.code = opBin
		p.attrs()
		t, a := p.typed()
		p.want(",")
		in.ty = t
		in.a = []llOpd{a, p.opd(t)}
	}

	return in
}
