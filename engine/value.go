package main

// Runtime values and the (object, byte offset) memory model.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//   bool, uint64 (any integer, truncated to its width), float64 (float32 and float64),
//   complex128, string               concrete scalars
//   *Term                            symbolic bool / int / float
//   *SymStr                          string with at least one symbolic byte
//   Ptr                              pointer, unsafe.Pointer, map, chan, func (and uintptr derived from a pointer)
//   Slice, Iface, *Agg (struct/array), RVal (reflect.Value), []Value (tuple)
//   *SymPtr                          pointer to an array element with symbolic index
//   *iter                            range iterator
type Value interface{}

type SymStr struct{ b []Value } // uint64 (0..255) or *Term BV8

type Ptr struct {
	o   *Object
	off int
}

type Slice struct {
	p        Ptr
	len, cap int
}

type Iface struct {
	t *RT   // nil: nil interface
	w Value // direct word (Ptr) for pointer-shaped types, otherwise Ptr to a box
}

type Agg struct{ f []Value }

type SymPtr struct {
	base   Ptr
	idx    *Term // BV64
	stride int
	n      int
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
	nat   func(w *Worker, args []Value) Value // native callable (reflect.MakeFunc like)
}

type Object struct {
	id    int32
	saved int32
	lay   *Layout
	n     int
	cells []Value
	fn    *Closure
	m     *MapData
	rt    *RT // this object is the runtime type descriptor of rt
	ch    *Chan
	what  string
	ro    bool
}

func (o *Object) size() int { return o.lay.size * o.n }

type MapData struct {
	keys, vals []Value
	live       []bool
	idx        map[Value]int // concrete comparable keys
	nsym       int
	n          int
}

type Chan struct {
	q      []Value
	cap    int
	closed bool
}

type Cls uint8

const (
	cInt Cls = iota
	cBool
	cFloat
	cPtr
	cString
	cSlice
	cIface
	cRVal
	cComplex
)

type Leaf struct {
	off, size int
	cls       Cls
	signed    bool
}

type Layout struct {
	size   int
	leaves []Leaf
	at     []int32 // byte offset -> leaf index when a leaf starts here, else -1
}

// RT is a canonical runtime type.
type RT struct {
	t      types.Type
	id     int
	lay    *Layout
	obj    *Object // descriptor
	isLeaf bool
	cls    Cls
	signed bool
	size   int
	zero   Value
	direct bool
	fields []*RT
	offs   []int
	elem   *RT // array elem / slice elem / ptr elem / map elem / chan elem
	key    *RT
	n      int // array length
	kind   int // reflect.Kind
	str    string
	mset   *types.MethodSet
	meths  map[string]*ssa.Function
}

const (
	kInvalid = iota
	kBool
	kInt
	kInt8
	kInt16
	kInt32
	kInt64
	kUint
	kUint8
	kUint16
	kUint32
	kUint64
	kUintptr
	kFloat32
	kFloat64
	kComplex64
	kComplex128
	kArray
	kChan
	kFunc
	kInterface
	kMap
	kPointer
	kSlice
	kString
	kStruct
	kUnsafePointer
)

var basicKind = map[types.BasicKind]int{
	types.Bool: kBool, types.Int: kInt, types.Int8: kInt8, types.Int16: kInt16, types.Int32: kInt32, types.Int64: kInt64,
	types.Uint: kUint, types.Uint8: kUint8, types.Uint16: kUint16, types.Uint32: kUint32, types.Uint64: kUint64, types.Uintptr: kUintptr,
	types.Float32: kFloat32, types.Float64: kFloat64, types.Complex64: kComplex64, types.Complex128: kComplex128,
	types.String: kString, types.UnsafePointer: kUnsafePointer,
	types.UntypedBool: kBool, types.UntypedInt: kInt, types.UntypedRune: kInt32, types.UntypedFloat: kFloat64, types.UntypedString: kString, types.UntypedNil: kUnsafePointer,
}

func isReflectValue(t types.Type) bool {
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == "Value" && o.Pkg() != nil && o.Pkg().Path() == "reflect"
}

// rt returns the canonical runtime type of t.
func (w *Worker) rt(t types.Type) *RT {
	if r, ok := w.rtCache[t]; ok {
		return r
	}
	t0 := t
	t = types.Unalias(t)
	if v := w.rtMap.At(t); v != nil {
		r := v.(*RT)
		w.rtCache[t0] = r
		return r
	}
	r := &RT{t: t, id: len(w.rts)}
	w.rts = append(w.rts, r)
	w.rtMap.Set(t, r)
	w.rtCache[t0] = r
	leaf := func(cls Cls, size int, zero Value) {
		r.isLeaf, r.cls, r.size, r.zero = true, cls, size, zero
	}
	if isReflectValue(t) {
		leaf(cRVal, 24, RVal{})
		r.kind = kStruct
	} else {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			r.kind = basicKind[u.Kind()]
			switch {
			case u.Info()&types.IsBoolean != 0:
				leaf(cBool, 1, false)
			case u.Info()&types.IsInteger != 0:
				leaf(cInt, int(w.sizes.Sizeof(u)), uint64(0))
				r.signed = u.Info()&types.IsUnsigned == 0
			case u.Info()&types.IsFloat != 0:
				leaf(cFloat, int(w.sizes.Sizeof(u)), float64(0))
			case u.Info()&types.IsComplex != 0:
				leaf(cComplex, int(w.sizes.Sizeof(u)), complex128(0))
			case u.Info()&types.IsString != 0:
				leaf(cString, 16, "")
			default:
				leaf(cPtr, 8, Ptr{})
				r.direct = true
			}
			if u.Kind() == types.UntypedFloat {
				r.size = 8
			}
		case *types.Pointer:
			r.kind = kPointer
			leaf(cPtr, 8, Ptr{})
			r.direct = true
		case *types.Map:
			r.kind = kMap
			leaf(cPtr, 8, Ptr{})
			r.direct = true
		case *types.Chan:
			r.kind = kChan
			leaf(cPtr, 8, Ptr{})
			r.direct = true
		case *types.Signature:
			r.kind = kFunc
			leaf(cPtr, 8, Ptr{})
			r.direct = true
		case *types.Slice:
			r.kind = kSlice
			leaf(cSlice, 24, Slice{})
		case *types.Interface:
			r.kind = kInterface
			leaf(cIface, 16, Iface{})
		case *types.Struct:
			r.kind = kStruct
			r.size = int(w.sizes.Sizeof(u))
			fs := make([]*types.Var, u.NumFields())
			for i := range fs {
				fs[i] = u.Field(i)
			}
			for _, o := range w.sizes.Offsetsof(fs) {
				r.offs = append(r.offs, int(o))
			}
			for _, f := range fs {
				r.fields = append(r.fields, w.rt(f.Type()))
			}
			if len(r.fields) == 1 && r.fields[0].direct {
				r.direct = true
			}
		case *types.Array:
			r.kind = kArray
			r.n = int(u.Len())
			r.elem = w.rt(u.Elem())
			r.size = r.elem.size * r.n
			if r.n == 1 && r.elem.direct {
				r.direct = true
			}
		case *types.Tuple:
			r.kind = kInvalid
			for i := 0; i < u.Len(); i++ {
				r.fields = append(r.fields, w.rt(u.At(i).Type()))
			}
		default:
			unsupported("type %v", t)
		}
	}
	return r
}

// elemRT resolves the element type lazily (types may be recursive).
func (w *Worker) elemRT(r *RT) *RT {
	if r.elem == nil {
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			r.elem = w.rt(u.Elem())
		case *types.Slice:
			r.elem = w.rt(u.Elem())
		case *types.Map:
			r.elem = w.rt(u.Elem())
			r.key = w.rt(u.Key())
		case *types.Chan:
			r.elem = w.rt(u.Elem())
		}
	}
	return r.elem
}

func (w *Worker) layout(r *RT) *Layout {
	if r.lay != nil {
		return r.lay
	}
	l := &Layout{size: r.size}
	var walk func(r *RT, off int)
	walk = func(r *RT, off int) {
		switch {
		case r.isLeaf:
			l.leaves = append(l.leaves, Leaf{off: off, size: r.size, cls: r.cls, signed: r.signed})
		case r.kind == kArray:
			for i := 0; i < r.n; i++ {
				walk(r.elem, off+i*r.elem.size)
			}
		default:
			for i, f := range r.fields {
				walk(f, off+r.offs[i])
			}
		}
	}
	walk(r, 0)
	l.at = make([]int32, l.size)
	for i := range l.at {
		l.at[i] = -1
	}
	for i, lf := range l.leaves {
		if lf.size > 0 {
			l.at[lf.off] = int32(i)
		}
	}
	r.lay = l
	return l
}

// alloc creates an object holding n consecutive values of type r.
func (w *Worker) alloc(r *RT, n int) *Object {
	for r.kind == kArray && !r.isLeaf {
		n *= r.n
		r = r.elem
	}
	l := w.layout(r)
	w.nextObj++
	return &Object{id: w.nextObj, lay: l, n: n, cells: make([]Value, len(l.leaves)*n)}
}

func (w *Worker) zero(r *RT) Value {
	if r.isLeaf {
		return r.zero
	}
	if r.zero != nil {
		return r.zero
	}
	var z Value
	switch r.kind {
	case kArray:
		a := &Agg{f: make([]Value, r.n)}
		ez := w.zero(r.elem)
		for i := range a.f {
			a.f[i] = ez
		}
		z = a
	case kStruct:
		a := &Agg{f: make([]Value, len(r.fields))}
		for i, f := range r.fields {
			a.f[i] = w.zero(f)
		}
		z = a
	default: // tuple
		a := make([]Value, len(r.fields))
		for i, f := range r.fields {
			a[i] = w.zero(f)
		}
		z = a
	}
	r.zero = z
	return z
}

func zeroLeaf(l *Leaf) Value {
	switch l.cls {
	case cInt:
		return zeroInt
	case cBool:
		return false
	case cFloat:
		return zeroFloat
	case cPtr:
		return nilPtr
	case cString:
		return ""
	case cSlice:
		return Slice{}
	case cIface:
		return Iface{}
	case cRVal:
		return RVal{}
	}
	return complex128(0)
}

var (
	zeroInt   Value = uint64(0)
	zeroFloat Value = float64(0)
	nilPtr    Value = Ptr{}
)

func (w *Worker) touch(o *Object) {
	if o.id <= w.frozen && o.saved != w.pathID {
		o.saved = w.pathID
		s := savedObj{o: o}
		if o.cells != nil {
			s.cells = append([]Value(nil), o.cells...)
		}
		if o.m != nil {
			s.m = o.m.clone()
		}
		w.journal = append(w.journal, s)
	}
}

type savedObj struct {
	o     *Object
	cells []Value
	m     *MapData
}

func (w *Worker) rollback() {
	for _, s := range w.journal {
		s.o.cells = s.cells
		s.o.m = s.m
		s.o.saved = 0
	}
	w.journal = w.journal[:0]
}

func (m *MapData) clone() *MapData {
	c := &MapData{keys: append([]Value(nil), m.keys...), vals: append([]Value(nil), m.vals...), live: append([]bool(nil), m.live...), nsym: m.nsym, n: m.n, idx: make(map[Value]int, len(m.idx))}
	for k, v := range m.idx {
		c.idx[k] = v
	}
	return c
}

// ---- load / store ----

// cellAt returns the cell index of the leaf that starts at off, or -1.
func (o *Object) cellAt(off int) (int, *Leaf) {
	l := o.lay
	if l.size == 0 {
		return -1, nil
	}
	if o.n == 1 {
		i := l.at[off]
		if i < 0 {
			return -1, nil
		}
		return int(i), &l.leaves[i]
	}
	q := off / l.size
	i := l.at[off-q*l.size]
	if i < 0 {
		return -1, nil
	}
	return q*len(l.leaves) + int(i), &l.leaves[i]
}

func (w *Worker) checkAccess(p Ptr, size int, write bool) {
	if p.o == nil {
		if p.off >= 0 && p.off < 4096 {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		w.memFault(fmt.Sprintf("access of %d bytes at wild address %#x", size, p.off))
	}
	if p.o.lay == nil {
		w.memFault("access to the interior of a map, func or channel header")
	}
	if p.off < 0 || p.off+size > p.o.size() {
		w.memFault(fmt.Sprintf("access of %d bytes at offset %d of an object of %d bytes", size, p.off, p.o.size()))
	}
}

func (w *Worker) load(p Ptr, r *RT) Value {
	if r.isLeaf {
		if p.o == nil || p.o.lay == nil || p.off < 0 || p.off+r.size > p.o.size() {
			w.checkAccess(p, r.size, false)
		}
		if w.hbOn {
			w.hbAccess(p, r.size, false)
		}
		ci, lf := p.o.cellAt(p.off)
		if ci >= 0 && lf.size == r.size {
			v := p.o.cells[ci]
			if lf.cls == r.cls {
				if v == nil {
					return r.zero
				}
				return v
			}
			if v == nil {
				v = zeroLeaf(lf)
			}
			return w.reinterpret(v, lf.cls, r.cls, r.size)
		}
		return w.loadSlow(p, r)
	}
	if r.size > 0 || p.o == nil {
		w.checkAccess(p, r.size, false)
	}
	switch r.kind {
	case kArray:
		a := &Agg{f: make([]Value, r.n)}
		for i := range a.f {
			a.f[i] = w.load(Ptr{p.o, p.off + i*r.elem.size}, r.elem)
		}
		return a
	default:
		a := &Agg{f: make([]Value, len(r.fields))}
		for i, f := range r.fields {
			a.f[i] = w.load(Ptr{p.o, p.off + r.offs[i]}, f)
		}
		return a
	}
}

func (w *Worker) store(p Ptr, r *RT, v Value) {
	if r.isLeaf {
		if p.o == nil || p.o.lay == nil || p.off < 0 || p.off+r.size > p.o.size() {
			w.checkAccess(p, r.size, true)
		}
		if w.hbOn {
			w.hbAccess(p, r.size, true)
		}
		o := p.o
		if o.id <= w.frozen {
			w.touch(o)
		}
		ci, lf := o.cellAt(p.off)
		if ci >= 0 && lf.size == r.size {
			if lf.cls != r.cls {
				v = w.reinterpret(v, r.cls, lf.cls, r.size)
			}
			o.cells[ci] = v
			return
		}
		w.storeSlow(p, r, v)
		return
	}
	if r.size > 0 || p.o == nil {
		w.checkAccess(p, r.size, true)
	}
	a := v.(*Agg)
	switch r.kind {
	case kArray:
		for i := range a.f {
			w.store(Ptr{p.o, p.off + i*r.elem.size}, r.elem, a.f[i])
		}
	default:
		for i, f := range r.fields {
			w.store(Ptr{p.o, p.off + r.offs[i]}, f, a.f[i])
		}
	}
}

// fakeAddr gives every object a stable pretend address, for code that turns pointers into plain integers.
func fakeAddr(p Ptr) uint64 {
	if p.o == nil {
		return uint64(p.off)
	}
	return 0xc000000000 + uint64(p.o.id)<<20 + uint64(p.off)
}

func (w *Worker) reinterpret(v Value, from, to Cls, size int) Value {
	if from == to {
		return v
	}
	// via integer bits
	switch from {
	case cInt:
	case cPtr:
		if to == cInt {
			p := v.(Ptr)
			if p.o == nil {
				return uint64(p.off)
			}
			return p
		}
		v = fakeAddr(v.(Ptr))
	case cBool:
		v = w.boolToInt(v)
	case cFloat:
		v = w.floatBits(v, size)
	default:
		unsupported("reinterpret class %d as %d", from, to)
	}
	switch to {
	case cInt:
		return v
	case cPtr:
		switch x := v.(type) {
		case Ptr:
			return x
		case uint64:
			return Ptr{nil, int(x)}
		}
		w.memFault("symbolic integer used as a pointer")
	case cBool:
		switch x := v.(type) {
		case uint64:
			return x&1 != 0
		case *Term:
			return w.norm(w.p.Not(w.p.Eq(x, w.p.BV(x.s.W, 0))))
		}
	case cFloat:
		if p, ok := v.(Ptr); ok {
			v = fakeAddr(p)
		}
		return w.norm(w.p.BitsToF(w.bv(v, size*8)))
	}
	unsupported("reinterpret class %d as %d", from, to)
	return nil
}

func (w *Worker) boolToInt(v Value) Value {
	switch b := v.(type) {
	case bool:
		if b {
			return uint64(1)
		}
		return uint64(0)
	case *Term:
		return w.norm(w.p.Ite(b, w.p.BV(8, 1), w.p.BV(8, 0)))
	}
	panic("boolToInt")
}

func (w *Worker) floatBits(v Value, size int) Value {
	return w.norm(w.p.FToBits(w.fp(v, size*8)))
}

// leafContaining finds the leaf covering byte off.
func (o *Object) leafContaining(off int) (cell int, lf *Leaf, start int) {
	l := o.lay
	q := off / l.size
	rem := off - q*l.size
	for s := rem; s >= 0 && s > rem-32; s-- {
		if i := l.at[s]; i >= 0 {
			if rem < s+l.leaves[i].size {
				return q*len(l.leaves) + int(i), &l.leaves[i], q*l.size + s
			}
			break
		}
	}
	return -1, nil, 0
}

// word reads an 8-byte component of a composite leaf.
func (w *Worker) subword(v Value, cls Cls, k int) Value {
	switch cls {
	case cString:
		if k == 0 {
			return w.strPtr(v)
		}
		return uint64(strLen(v))
	case cSlice:
		s := v.(Slice)
		switch k {
		case 0:
			return s.p
		case 1:
			return uint64(s.len)
		}
		return uint64(s.cap)
	case cIface:
		i := v.(Iface)
		if k == 0 {
			if i.t == nil {
				return Ptr{}
			}
			return Ptr{w.rtObj(i.t), 0}
		}
		if i.w == nil {
			return Ptr{}
		}
		return i.w
	case cRVal:
		rv := v.(RVal)
		if k == 1 {
			return w.rvalWord(rv)
		}
		if k == 0 && rv.t != nil {
			return Ptr{w.rtObj(rv.t), 0}
		}
	}
	unsupported("component %d of class %d", k, cls)
	return nil
}

func (w *Worker) setSubword(v Value, cls Cls, k int, x Value) Value {
	asPtr := func() Ptr {
		switch y := x.(type) {
		case Ptr:
			return y
		case uint64:
			return Ptr{nil, int(y)}
		}
		unsupported("symbolic pointer word")
		return Ptr{}
	}
	asInt := func() int {
		switch y := x.(type) {
		case uint64:
			return int(y)
		case *Term:
			return int(w.concretize(y))
		}
		unsupported("pointer as length")
		return 0
	}
	switch cls {
	case cSlice:
		s := v.(Slice)
		switch k {
		case 0:
			s.p = asPtr()
		case 1:
			s.len = asInt()
		case 2:
			s.cap = asInt()
		}
		return s
	case cIface:
		i := v.(Iface)
		if k == 0 {
			p := asPtr()
			if p.o == nil {
				i.t = nil
				return i
			}
			if p.o.rt == nil {
				w.memFault("interface type word does not point to a type descriptor")
			}
			i.t = p.o.rt
		} else {
			i.w = asPtr()
		}
		return i
	case cString:
		if k == 0 {
			return w.strFrom(asPtr(), strLen(v))
		}
		n := asInt()
		if n <= strLen(v) {
			return w.strSlice(v, 0, n)
		}
	}
	unsupported("write component %d of class %d", k, cls)
	return nil
}

func (w *Worker) loadSlow(p Ptr, r *RT) Value {
	// aligned component of a composite leaf
	if r.isLeaf && r.size == 8 && (r.cls == cPtr || r.cls == cInt || r.cls == cFloat) {
		ci, lf, st := p.o.leafContaining(p.off)
		if ci >= 0 && lf.cls >= cString && lf.cls <= cRVal && (p.off-st)%8 == 0 {
			v := p.o.cells[ci]
			if v == nil {
				v = zeroLeaf(lf)
			}
			x := w.subword(v, lf.cls, (p.off-st)/8)
			return w.coerce8(x, r.cls)
		}
	}
	// a composite assembled from words or from other composites
	switch r.cls {
	case cSlice:
		v := Value(Slice{})
		for k := 0; k < 3; k++ {
			v = w.setSubword(v, cSlice, k, w.load(Ptr{p.o, p.off + 8*k}, w.rtUintptr))
		}
		return v
	case cString:
		d := w.load(p, w.rtUnsafePtr).(Ptr)
		n := w.load(Ptr{p.o, p.off + 8}, w.rtUintptr)
		return w.strAlias(d, int(w.concInt(n)))
	case cIface:
		v := Value(Iface{})
		for k := 0; k < 2; k++ {
			v = w.setSubword(v, cIface, k, w.load(Ptr{p.o, p.off + 8*k}, w.rtUnsafePtr))
		}
		return v
	case cRVal, cComplex:
		unsupported("untyped load of class %d", r.cls)
	}
	bs := w.loadBytes(p, r.size)
	return w.fromBytes(bs, r)
}

func (w *Worker) coerce8(x Value, cls Cls) Value {
	switch cls {
	case cPtr:
		switch y := x.(type) {
		case Ptr:
			return y
		case uint64:
			return Ptr{nil, int(y)}
		}
		w.memFault("symbolic integer used as a pointer")
	case cInt:
		if p, ok := x.(Ptr); ok && p.o == nil {
			return uint64(p.off)
		}
		return x
	case cFloat:
		if p, ok := x.(Ptr); ok {
			x = fakeAddr(p)
		}
		return w.norm(w.p.BitsToF(w.bv(x, 64)))
	}
	panic("coerce8")
}

// loadByte returns byte k (0 = least significant) of the object's memory at off.
func (w *Worker) loadByte(o *Object, off int) Value {
	ci, lf, st := o.leafContaining(off)
	if ci < 0 {
		return uint64(0) // padding
	}
	v := o.cells[ci]
	if v == nil {
		v = zeroLeaf(lf)
	}
	k := off - st
	switch lf.cls {
	case cBool:
		v = w.boolToInt(v)
	case cFloat:
		v = w.floatBits(v, lf.size)
	case cPtr:
		v = fakeAddr(v.(Ptr))
	case cInt:
		if p, ok := v.(Ptr); ok {
			v = fakeAddr(p)
		}
	case cComplex:
		unsupported("bytes of complex")
	default:
		x := w.subword(v, lf.cls, k/8)
		k %= 8
		if p, ok := x.(Ptr); ok {
			x = fakeAddr(p)
		}
		v = x
	}
	switch x := v.(type) {
	case uint64:
		return (x >> (8 * k)) & 0xff
	case *Term:
		return w.norm(w.p.Extract(uint8(8*k+7), uint8(8*k), x))
	}
	panic("loadByte")
}

func (w *Worker) loadBytes(p Ptr, n int) []Value {
	w.checkAccess(p, n, false)
	if w.hbOn {
		w.hbAccess(p, n, false)
	}
	out := make([]Value, n)
	for i := range out {
		out[i] = w.loadByte(p.o, p.off+i)
	}
	return out
}

func (w *Worker) fromBytes(bs []Value, r *RT) Value {
	var acc Value
	conc := true
	var u uint64
	for i := len(bs) - 1; i >= 0; i-- {
		if x, ok := bs[i].(uint64); ok {
			u = u<<8 | x
		} else {
			conc = false
			break
		}
	}
	if conc {
		acc = u
	} else {
		t := w.bv(bs[len(bs)-1], 8)
		for i := len(bs) - 2; i >= 0; i-- {
			t = w.p.Concat(t, w.bv(bs[i], 8))
		}
		acc = w.norm(t)
	}
	if r.cls == cPtr {
		if x, ok := acc.(uint64); ok {
			return Ptr{nil, int(x)}
		}
		w.memFault("bytes used as a pointer")
	}
	return w.reinterpret(acc, cInt, r.cls, r.size)
}

func (w *Worker) storeSlow(p Ptr, r *RT, v Value) {
	o := p.o
	if r.size == 8 && (r.cls == cPtr || r.cls == cInt) {
		ci, lf, st := o.leafContaining(p.off)
		if ci >= 0 && lf.cls >= cString && lf.cls <= cRVal && (p.off-st)%8 == 0 {
			old := o.cells[ci]
			if old == nil {
				old = zeroLeaf(lf)
			}
			o.cells[ci] = w.setSubword(old, lf.cls, (p.off-st)/8, v)
			return
		}
	}
	switch r.cls {
	case cSlice, cString, cIface:
		n := r.size / 8
		for k := 0; k < n; k++ {
			x := w.subword(v, r.cls, k)
			if _, ok := x.(Ptr); ok {
				w.store(Ptr{o, p.off + 8*k}, w.rtUnsafePtr, x)
			} else {
				w.store(Ptr{o, p.off + 8*k}, w.rtUintptr, x)
			}
		}
		return
	case cRVal, cComplex:
		unsupported("untyped store of class %d", r.cls)
	}
	x := w.reinterpret(v, r.cls, cInt, r.size)
	if pp, ok := x.(Ptr); ok {
		x = fakeAddr(pp)
	}
	bs := make([]Value, r.size)
	for i := range bs {
		switch y := x.(type) {
		case uint64:
			bs[i] = (y >> (8 * i)) & 0xff
		case *Term:
			bs[i] = w.norm(w.p.Extract(uint8(8*i+7), uint8(8*i), y))
		}
	}
	w.storeBytes(p, bs)
}

func (w *Worker) storeBytes(p Ptr, bs []Value) {
	w.checkAccess(p, len(bs), true)
	w.touch(p.o)
	o := p.o
	i := 0
	for i < len(bs) {
		ci, lf, st := o.leafContaining(p.off + i)
		if ci < 0 {
			i++
			continue
		}
		cur := make([]Value, lf.size)
		for k := range cur {
			j := st + k - p.off
			if j >= 0 && j < len(bs) {
				cur[k] = bs[j]
			} else {
				cur[k] = w.loadByte(o, st+k)
			}
		}
		switch lf.cls {
		case cInt, cBool, cFloat, cPtr:
			o.cells[ci] = w.fromBytes(cur, &RT{cls: lf.cls, size: lf.size, isLeaf: true})
		default:
			unsupported("byte-wise store into a composite cell")
		}
		i = st + lf.size - p.off
	}
}

// memmove copies n bytes between objects, cell by cell where the layouts agree.
func (w *Worker) memmove(dst, src Ptr, n int) {
	if n == 0 {
		return
	}
	w.checkAccess(src, n, false)
	w.checkAccess(dst, n, true)
	if w.hbOn {
		w.hbAccess(src, n, false)
		w.hbAccess(dst, n, true)
	}
	w.touch(dst.o)
	type mv struct {
		ci int
		v  Value
	}
	var mvs []mv
	i := 0
	for i < n {
		sc, sl := src.o.cellAt(src.off + i)
		dc, dl := dst.o.cellAt(dst.off + i)
		if sc < 0 && dc < 0 {
			if _, l, _ := src.o.leafContaining(src.off + i); l == nil {
				if _, l, _ := dst.o.leafContaining(dst.off + i); l == nil {
					i++ // padding on both sides
					continue
				}
			}
		}
		if sc < 0 || dc < 0 || sl.size != dl.size || i+sl.size > n {
			// layouts differ: fall back to bytes for the remainder
			for _, m := range mvs {
				dst.o.cells[m.ci] = m.v
			}
			bs := w.loadBytes(Ptr{src.o, src.off + i}, n-i)
			w.storeBytes(Ptr{dst.o, dst.off + i}, bs)
			return
		}
		v := src.o.cells[sc]
		if sl.cls != dl.cls {
			if v == nil {
				v = zeroLeaf(sl)
			}
			v = w.reinterpret(v, sl.cls, dl.cls, sl.size)
		}
		mvs = append(mvs, mv{dc, v})
		i += sl.size
	}
	for _, m := range mvs {
		dst.o.cells[m.ci] = m.v
	}
}

// ---- scalars ----

func (w *Worker) bv(v Value, width int) *Term {
	switch x := v.(type) {
	case uint64:
		return w.p.BV(uint8(width), x)
	case *Term:
		return x
	case bool:
		return w.p.Ite(w.p.Bool(x), w.p.BV(uint8(width), 1), w.p.BV(uint8(width), 0))
	case Ptr:
		return w.p.BV(uint8(width), fakeAddr(x))
	}
	panic(fmt.Sprintf("bv of %T", v))
}

func (w *Worker) fp(v Value, width int) *Term {
	switch x := v.(type) {
	case float64:
		return w.p.FP(uint8(width), x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("fp of %T", v))
}

func (w *Worker) bt(v Value) *Term {
	switch x := v.(type) {
	case bool:
		return w.p.Bool(x)
	case *Term:
		return x
	}
	panic(fmt.Sprintf("bool of %T", v))
}

// norm turns constant terms back into concrete values.
func (w *Worker) norm(t *Term) Value {
	if !t.isC() {
		return t
	}
	switch t.s.K {
	case SBool:
		return t.val == 1
	case SBV:
		return t.val
	}
	return t.f()
}

// ---- strings ----

func strLen(v Value) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen of %T", v))
}

func strAt(v Value, i int) Value {
	switch s := v.(type) {
	case string:
		return uint64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strBytes(v Value) []Value {
	switch s := v.(type) {
	case string:
		b := make([]Value, len(s))
		for i := range b {
			b[i] = uint64(s[i])
		}
		return b
	case *SymStr:
		return s.b
	}
	panic("strBytes")
}

func mkStr(b []Value) Value {
	for _, x := range b {
		if _, ok := x.(uint64); !ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(uint64))
	}
	return string(bs)
}

func (w *Worker) strSlice(v Value, lo, hi int) Value {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if strLen(a) == 0 {
		return b
	}
	if strLen(b) == 0 {
		return a
	}
	r := make([]Value, 0, strLen(a)+strLen(b))
	r = append(r, strBytes(a)...)
	r = append(r, strBytes(b)...)
	return &SymStr{r}
}

func (w *Worker) strEq(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	if strLen(a) != strLen(b) {
		return false
	}
	x, y := strBytes(a), strBytes(b)
	t := w.p.T
	for i := range x {
		t = w.p.And(t, w.p.Eq(w.bv(x[i], 8), w.bv(y[i], 8)))
		if t.isFalse() {
			return false
		}
	}
	return w.norm(t)
}

func (w *Worker) strLess(a, b Value) Value {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x < y
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := len(x)
	if len(y) < n {
		n = len(y)
	}
	t := w.p.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := w.bv(x[i], 8), w.bv(y[i], 8)
		t = w.p.Or(w.p.Ult(p, q), w.p.And(w.p.Eq(p, q), t))
	}
	return w.norm(t)
}

// strPtr gives a pointer to the bytes of a string.
func (w *Worker) strPtr(v Value) Ptr {
	n := strLen(v)
	if n == 0 {
		return Ptr{}
	}
	o := w.alloc(w.rtByte, n)
	copy(o.cells, strBytes(v))
	o.ro = true
	return Ptr{o, 0}
}

func (w *Worker) strFrom(p Ptr, n int) Value {
	if n == 0 {
		return ""
	}
	if n < 0 || n > 1<<30 {
		w.memFault(fmt.Sprintf("string of length %d", n))
	}
	return mkStr(w.loadBytes(p, n))
}

// strAlias is a string sharing the bytes it was made of by unsafe means: later writes to them show in it.
func (w *Worker) strAlias(p Ptr, n int) Value {
	o := p.o
	if n <= 0 || n > 1<<30 || o == nil || o.ro || o.lay != w.layByte || p.off < 0 || p.off+n > o.n {
		return w.strFrom(p, n)
	}
	if w.hbOn {
		w.hbAccess(p, n, false)
	}
	b := o.cells[p.off : p.off+n : p.off+n]
	for i := range b {
		if b[i] == nil {
			b[i] = zeroInt
		}
	}
	return &SymStr{b}
}

func (w *Worker) bytesOf(s Slice) []Value {
	if s.len == 0 {
		return nil
	}
	o := s.p.o
	if o != nil && o.lay == w.layByte && s.p.off >= 0 && s.p.off+s.len <= o.n {
		if w.hbOn {
			w.hbAccess(s.p, s.len, false)
		}
		out := make([]Value, s.len)
		for i := range out {
			v := o.cells[s.p.off+i]
			if v == nil {
				v = zeroInt
			}
			out[i] = v
		}
		return out
	}
	return w.loadBytes(s.p, s.len)
}

func (w *Worker) mkBytes(b []Value) Slice {
	o := w.alloc(w.rtByte, len(b))
	copy(o.cells, b)
	return Slice{Ptr{o, 0}, len(b), len(b)}
}

func showStr(v Value) string {
	switch s := v.(type) {
	case string:
		return fmt.Sprintf("%q", s)
	case *SymStr:
		var b strings.Builder
		b.WriteByte('"')
		for _, x := range s.b {
			if u, ok := x.(uint64); ok {
				if u >= 32 && u < 127 {
					b.WriteByte(byte(u))
				} else {
					fmt.Fprintf(&b, "\\x%02x", u)
				}
			} else {
				b.WriteString("·")
			}
		}
		b.WriteByte('"')
		return b.String()
	}
	return fmt.Sprintf("%v", v)
}
