package main

// Symbolic interpreter for go/ssa.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package
	sizes types.Sizes
	mu    sync.Mutex
}

type Worker struct {
	P       *Program
	prog    *ssa.Program
	sizes   types.Sizes
	rtCache map[types.Type]*RT
	rtMap   typeutil.Map
	rts     []*RT
	globals map[*ssa.Global]*Object
	fnObjs  map[*ssa.Function]*Object
	code    map[*ssa.Function]*Fn
	nextObj int32
	frozen  int32
	pathID  int32
	journal []savedObj
	p       *Pool
	s       *Solver

	rtByte, rtUintptr, rtUnsafePtr, rtString, rtInt, rtBool, rtError, rtAny, rtFloat64, rtReflectType, rtRtype *RT
	layByte                                                                                                    *Layout
	descRT                                                                                                     *RT

	steps    int
	maxSteps int
	depth    int
	cur      *frame
	path     *Path
	x        *Explorer
	hbOn     bool
	hb       *hbState
	used     map[*ssa.Function]bool // repository functions executed
	usedIntr map[string]bool
	tid      int // current logical thread
	methByNm map[string]*types.Func
	sched    *scheduler
	natBody  map[string]*Fn
}

type opnd struct {
	r int32
	c Value
}

type opcode uint8

const (
	iNop opcode = iota
	iAlloc
	iBinOp
	iCall
	iChangeInterface
	iCopy
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iSliceToArr
	iStore
	iTypeAssert
	iUnOp
)

type instr struct {
	op      opcode
	dst     int32
	flag    bool
	ld      bool
	tok     token.Token
	n       int
	a, b, c opnd
	d       opnd
	args    []opnd
	t, t2   *RT
	in      ssa.Instruction
	call    *ssa.CallCommon
	fn      *Fn
	obj     *Object
}

type phi struct {
	dst   int32
	edges []opnd
}

type blk struct {
	phis  []phi
	ins   []instr
	succ  [2]int
	preds []int
}

type Fn struct {
	fn      *ssa.Function
	nregs   int
	blocks  []blk
	params  []int32
	free    []int32
	intr    func(w *Worker, fr *frame, args []Value) Value
	defers  bool
	recover int
	results *RT
	ready   bool
	name    string
	repo    bool
}

type deferred struct {
	call *instr
	fnv  *Closure
	fn   *Fn
	args []Value
	blt  *ssa.Builtin
	ins  *instr
}

type frame struct {
	fn        *Fn
	regs      []Value
	caller    *frame
	defers    []deferred
	panicking *TargetPanic
	result    Value
	pos       *instr
	prev      int
	isDefer   bool
}

// TargetPanic is a panic of the interpreted program.
type TargetPanic struct {
	v     Value // Iface
	msg   string
	trace string
}

// abortPath ends the exploration of the current path.
type abortPath struct {
	kind   string // infeasible, unsupported, limit, memfault, stop
	reason string
}

func unsupported(f string, a ...interface{}) {
	panic(abortPath{"unsupported", fmt.Sprintf(f, a...)})
}

func (w *Worker) memFault(msg string) {
	panic(abortPath{"memfault", msg + " at " + w.where()})
}

func (w *Worker) where() string {
	fr := w.cur
	var out []string
	for i := 0; fr != nil && i < 6; i++ {
		out = append(out, fr.fn.name)
		fr = fr.caller
	}
	return strings.Join(out, " < ")
}

func (w *Worker) runtimePanic(msg string) {
	t := w.P.pkgs["runtime"].Type("errorString").Type()
	r := w.rt(t)
	panic(&TargetPanic{v: w.mkIface(r, msg), msg: "runtime error: " + msg, trace: w.where()})
}

func NewWorker(P *Program, x *Explorer) *Worker {
	w := &Worker{P: P, prog: P.prog, sizes: P.sizes, rtCache: map[types.Type]*RT{}, globals: map[*ssa.Global]*Object{},
		fnObjs: map[*ssa.Function]*Object{}, code: map[*ssa.Function]*Fn{}, x: x, used: map[*ssa.Function]bool{}, usedIntr: map[string]bool{}, natBody: map[string]*Fn{}, pathID: 1}
	w.p = NewPool()
	w.rtByte = w.rt(types.Typ[types.Uint8])
	w.rtUintptr = w.rt(types.Typ[types.Uintptr])
	w.rtUnsafePtr = w.rt(types.Typ[types.UnsafePointer])
	w.rtString = w.rt(types.Typ[types.String])
	w.rtInt = w.rt(types.Typ[types.Int])
	w.rtBool = w.rt(types.Typ[types.Bool])
	w.rtFloat64 = w.rt(types.Typ[types.Float64])
	w.rtError = w.rt(types.Universe.Lookup("error").Type())
	w.rtAny = w.rt(types.NewInterfaceType(nil, nil))
	w.layByte = w.layout(w.rtByte)
	rf := P.pkgs["reflect"]
	w.rtReflectType = w.rt(rf.Type("Type").Type())
	w.rtRtype = w.rt(types.NewPointer(rf.Type("rtype").Type()))
	u := types.Universe.Lookup
	_ = u
	mk := func(n string, k types.BasicKind) *types.Var {
		return types.NewField(token.NoPos, nil, n, types.Typ[k], false)
	}
	w.descRT = w.rt(types.NewStruct([]*types.Var{mk("size", types.Uintptr), mk("ptrdata", types.Uintptr), mk("hash", types.Uint32),
		mk("tflag", types.Uint8), mk("align", types.Uint8), mk("falign", types.Uint8), mk("kind", types.Uint8),
		mk("equal", types.UnsafePointer), mk("gcdata", types.UnsafePointer), mk("str", types.Int32), mk("ptrToThis", types.Int32)}, nil))
	return w
}

func (w *Worker) rtObj(r *RT) *Object {
	if r.obj == nil {
		o := w.alloc(w.descRT, 1)
		o.rt = r
		o.ro = true
		k := uint64(r.kind)
		if r.direct {
			k |= 32
		}
		o.cells[0] = uint64(r.size)
		o.cells[6] = k
		o.cells[2] = uint64(r.id)
		o.id = -int32(r.id) - 1 // descriptors are immutable and survive paths
		r.obj = o
	}
	return r.obj
}

// ---- interfaces ----

func (w *Worker) mkIface(r *RT, v Value) Value {
	if r.kind == kInterface {
		return v
	}
	if r.direct {
		return Iface{r, w.toWord(r, v)}
	}
	o := w.alloc(r, 1)
	if r.isLeaf {
		if len(o.cells) == 1 {
			o.cells[0] = v
		} else {
			w.store(Ptr{o, 0}, r, v)
		}
	} else {
		hb := w.hbOn
		w.hbOn = false
		w.store(Ptr{o, 0}, r, v)
		w.hbOn = hb
	}
	return Iface{r, Ptr{o, 0}}
}

func (w *Worker) toWord(r *RT, v Value) Value {
	for !r.isLeaf {
		v = v.(*Agg).f[0]
		if r.kind == kArray {
			r = r.elem
		} else {
			r = r.fields[0]
		}
	}
	return v
}

func (w *Worker) fromWord(r *RT, v Value) Value {
	if r.isLeaf {
		if v == nil {
			return Ptr{}
		}
		return v
	}
	if r.kind == kArray {
		return &Agg{f: []Value{w.fromWord(r.elem, v)}}
	}
	return &Agg{f: []Value{w.fromWord(r.fields[0], v)}}
}

func (w *Worker) unbox(i Iface) Value {
	if i.t.direct {
		return w.fromWord(i.t, i.w)
	}
	p, ok := i.w.(Ptr)
	if !ok {
		p = Ptr{}
	}
	return w.load(p, i.t)
}

// ---- equality ----

func (w *Worker) eq(r *RT, a, b Value) Value {
	if r.isLeaf {
		switch r.cls {
		case cBool:
			x, ok1 := a.(bool)
			y, ok2 := b.(bool)
			if ok1 && ok2 {
				return x == y
			}
			return w.norm(w.p.Eq(w.bt(a), w.bt(b)))
		case cInt:
			return w.eqInt(a, b, r.size*8)
		case cFloat:
			x, ok1 := a.(float64)
			y, ok2 := b.(float64)
			if ok1 && ok2 {
				return x == y
			}
			return w.norm(w.p.FCmp(OpFEq, w.fp(a, r.size*8), w.fp(b, r.size*8)))
		case cPtr:
			return samePtr(a.(Ptr), b.(Ptr))
		case cString:
			return w.strEq(a, b)
		case cIface:
			return w.eqIface(a.(Iface), b.(Iface))
		case cSlice:
			x, y := a.(Slice), b.(Slice)
			return x.p == y.p && x.len == y.len // only against nil
		case cComplex:
			return a.(complex128) == b.(complex128)
		}
		unsupported("eq of class %d", r.cls)
	}
	x, y := a.(*Agg), b.(*Agg)
	t := w.p.T
	for i := range x.f {
		er := r.elem
		if r.kind == kStruct {
			er = r.fields[i]
			if r.t.Underlying().(*types.Struct).Field(i).Name() == "_" {
				continue
			}
		}
		t = w.p.And(t, w.bt(w.eq(er, x.f[i], y.f[i])))
		if t.isFalse() {
			return false
		}
	}
	return w.norm(t)
}

func samePtr(a, b Ptr) bool { return a == b }

func (w *Worker) eqInt(a, b Value, width int) Value {
	switch x := a.(type) {
	case uint64:
		switch y := b.(type) {
		case uint64:
			return x == y
		case Ptr:
			return y.o == nil && uint64(y.off) == x
		}
	case Ptr:
		switch y := b.(type) {
		case Ptr:
			return x == y
		case uint64:
			return x.o == nil && uint64(x.off) == y
		}
	}
	return w.norm(w.p.Eq(w.bv(a, width), w.bv(b, width)))
}

func (w *Worker) eqIface(a, b Iface) Value {
	if a.t == nil || b.t == nil {
		return a.t == b.t
	}
	if a.t != b.t {
		return false
	}
	if !types.Comparable(a.t.t) {
		w.runtimePanic("comparing uncomparable type " + w.typeStr(a.t))
	}
	if a.t.direct && a.t.isLeaf {
		return a.w == b.w
	}
	return w.eq(a.t, w.unbox(a), w.unbox(b))
}

// ---- compilation ----

func (w *Worker) global(g *ssa.Global) *Object {
	if o, ok := w.globals[g]; ok {
		return o
	}
	o := w.alloc(w.rt(g.Type().(*types.Pointer).Elem()), 1)
	o.what = g.String()
	w.globals[g] = o
	if w.frozen > 0 {
		// first touched during a path: treat as pre-existing
		o.id = 0
		w.x.lateGlobal(g)
	}
	return o
}

func (w *Worker) fnVal(f *ssa.Function) Ptr {
	o, ok := w.fnObjs[f]
	if !ok {
		o = &Object{id: 0, fn: &Closure{fn: f}, n: 1}
		w.fnObjs[f] = o
	}
	return Ptr{o, 0}
}

func (w *Worker) newClosure(c *Closure) Ptr {
	w.nextObj++
	return Ptr{&Object{id: w.nextObj, fn: c, n: 1}, 0}
}

func (w *Worker) constVal(c *ssa.Const) Value {
	r := w.rt(c.Type())
	if c.Value == nil {
		return w.zero(r)
	}
	switch r.cls {
	case cBool:
		return constant.BoolVal(c.Value)
	case cString:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	case cFloat:
		f := c.Float64()
		if r.size == 4 {
			f = float64(float32(f))
		}
		return f
	case cInt:
		if r.signed {
			return uint64(c.Int64()) & mask(uint8(r.size*8))
		}
		return c.Uint64() & mask(uint8(r.size*8))
	case cComplex:
		return c.Complex128()
	case cPtr:
		return Ptr{nil, int(c.Uint64())}
	}
	unsupported("const %v", c)
	return nil
}

func (w *Worker) getFn(f *ssa.Function) *Fn {
	if c, ok := w.code[f]; ok {
		return c
	}
	c := &Fn{fn: f, recover: -1}
	w.code[f] = c
	c.name = f.String()
	key := c.name
	if o := f.Origin(); o != nil {
		key = o.String()
	}
	c.repo = isRepoFn(f)
	if in, ok := intrinsics[key]; ok {
		nm := key
		w.natBody[key] = &Fn{fn: f, recover: -1, name: c.name, repo: c.repo}
		c.intr = func(w *Worker, fr *frame, args []Value) Value {
			w.usedIntr[nm] = true
			return in(w, fr, args)
		}
		return c
	}
	if m := modelled[key]; m != "" {
		if p := w.P.pkgs[modelPkg]; p != nil {
			mf := p.Func(m)
			c.intr = func(w *Worker, fr *frame, args []Value) Value {
				w.usedIntr[key+" (Go model)"] = true
				return w.callFn(fr, w.getFn(mf), args, nil)
			}
			return c
		}
	}
	if f.Name() == "init" && f.Synthetic == "package initializer" && !initAllowed(f.Pkg.Pkg.Path()) {
		c.intr = func(w *Worker, fr *frame, args []Value) Value { return nil }
		return c
	}
	return c
}

func isRepoFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/viant/velty")
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), "github.com/viant/velty")
	}
	return false
}

func (w *Worker) compile(c *Fn) {
	if c.ready {
		return
	}
	f := c.fn
	if f.Blocks == nil {
		unsupported("function without body: %s", c.name)
	}
	if f.Pkg != nil && deniedPkg(f.Pkg.Pkg.Path()) && !allowedFn[c.name] {
		unsupported("function outside the modelled library: %s", c.name)
	}
	regs := map[ssa.Value]int32{}
	nr := int32(0)
	add := func(v ssa.Value) int32 {
		regs[v] = nr
		nr++
		return nr - 1
	}
	for _, p := range f.Params {
		c.params = append(c.params, add(p))
	}
	for _, p := range f.FreeVars {
		c.free = append(c.free, add(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	c.nregs = int(nr)
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case nil:
			return opnd{-1, nil}
		case *ssa.Const:
			return opnd{-1, w.constVal(x)}
		case *ssa.Function:
			return opnd{-1, w.fnVal(x)}
		case *ssa.Global:
			return opnd{-1, Ptr{w.global(x), 0}}
		case *ssa.Builtin:
			return opnd{-1, nil}
		}
		r, ok := regs[v]
		if !ok {
			panic(fmt.Sprintf("no register for %v in %s", v, c.name))
		}
		return opnd{r, nil}
	}
	c.blocks = make([]blk, len(f.Blocks))
	for bi, b := range f.Blocks {
		kb := &c.blocks[bi]
		for i, s := range b.Succs {
			if i < 2 {
				kb.succ[i] = s.Index
			}
		}
		for _, p := range b.Preds {
			kb.preds = append(kb.preds, p.Index)
		}
		for _, in := range b.Instrs {
			k := instr{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				k.dst = regs[v]
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				p := phi{dst: k.dst}
				for _, e := range x.Edges {
					p.edges = append(p.edges, op(e))
				}
				kb.phis = append(kb.phis, p)
				continue
			case *ssa.Alloc:
				k.op = iAlloc
				k.t = w.rt(x.Type().Underlying().(*types.Pointer).Elem())
			case *ssa.BinOp:
				k.op, k.tok, k.a, k.b = iBinOp, x.Op, op(x.X), op(x.Y)
				k.t = w.rt(x.X.Type())
				k.t2 = w.rt(x.Y.Type())
			case *ssa.UnOp:
				k.op, k.tok, k.a, k.flag = iUnOp, x.Op, op(x.X), x.CommaOk
				if x.Op == token.MUL {
					k.t = w.rt(x.Type())
				} else {
					k.t = w.rt(x.X.Type())
				}
			case *ssa.Call:
				k.op = iCall
				w.compCall(&k, x.Common(), op)
			case *ssa.Defer:
				k.op = iDefer
				c.defers = true
				w.compCall(&k, x.Common(), op)
			case *ssa.Go:
				k.op = iGo
				w.compCall(&k, x.Common(), op)
			case *ssa.ChangeInterface:
				k.op, k.a = iCopy, op(x.X)
			case *ssa.ChangeType:
				k.op, k.a = iCopy, op(x.X)
			case *ssa.Convert:
				k.op, k.a, k.t, k.t2 = iConvert, op(x.X), w.rt(x.X.Type()), w.rt(x.Type())
			case *ssa.MultiConvert:
				k.op, k.a, k.t, k.t2 = iConvert, op(x.X), w.rt(x.X.Type()), w.rt(x.Type())
			case *ssa.Extract:
				k.op, k.a, k.n = iExtract, op(x.Tuple), x.Index
			case *ssa.Field:
				k.op, k.a, k.n = iField, op(x.X), x.Field
			case *ssa.FieldAddr:
				k.op, k.a = iFieldAddr, op(x.X)
				st := w.rt(x.X.Type().Underlying().(*types.Pointer).Elem())
				if st.isLeaf { // reflect.Value internals
					k.op = iNop
					unsup := c.name
					_ = unsup
				} else {
					k.n = st.offs[x.Field]
				}
			case *ssa.If:
				k.op, k.a = iIf, op(x.Cond)
			case *ssa.Index:
				k.op, k.a, k.b, k.t = iIndex, op(x.X), op(x.Index), w.rt(x.X.Type())
				k.t2 = w.rt(x.Index.Type())
			case *ssa.IndexAddr:
				k.op, k.a, k.b = iIndexAddr, op(x.X), op(x.Index)
				k.t = w.rt(x.X.Type())
				k.t2 = w.rt(x.Index.Type())
				switch u := x.X.Type().Underlying().(type) {
				case *types.Slice:
					k.n = w.rt(u.Elem()).size
				case *types.Pointer:
					at := w.rt(u.Elem())
					k.n = at.elem.size
				}
				k.flag, k.ld = true, true
				for _, ref := range *x.Referrers() {
					u, ok := ref.(*ssa.UnOp)
					if !ok || u.Op != token.MUL {
						if _, dbg := ref.(*ssa.DebugRef); !dbg {
							k.flag, k.ld = false, false
						}
						continue
					}
					r := w.rt(u.Type())
					if !r.isLeaf || (r.cls != cInt && r.cls != cBool && r.cls != cFloat) {
						k.flag = false
					}
				}
			case *ssa.Jump:
				k.op = iJump
			case *ssa.Lookup:
				k.op, k.a, k.b, k.t, k.flag = iLookup, op(x.X), op(x.Index), w.rt(x.X.Type()), x.CommaOk
				if k.t.kind == kMap {
					w.elemRT(k.t)
				} else {
					k.t2 = w.rt(x.Index.Type())
				}
			case *ssa.MakeChan:
				k.op, k.a = iMakeChan, op(x.Size)
			case *ssa.MakeClosure:
				k.op = iMakeClosure
				k.fn = w.getFn(x.Fn.(*ssa.Function))
				for _, b := range x.Bindings {
					k.args = append(k.args, op(b))
				}
			case *ssa.MakeInterface:
				k.op, k.a, k.t = iMakeInterface, op(x.X), w.rt(x.X.Type())
			case *ssa.MakeMap:
				k.op = iMakeMap
			case *ssa.MakeSlice:
				k.op, k.a, k.b = iMakeSlice, op(x.Len), op(x.Cap)
				k.t = w.elemRT(w.rt(x.Type()))
			case *ssa.MapUpdate:
				k.op, k.a, k.b, k.c, k.t = iMapUpdate, op(x.Map), op(x.Key), op(x.Value), w.rt(x.Map.Type())
				w.elemRT(k.t)
			case *ssa.Next:
				k.op, k.a, k.flag = iNext, op(x.Iter), x.IsString
				k.t = w.rt(x.Type())
			case *ssa.Panic:
				k.op, k.a = iPanic, op(x.X)
			case *ssa.Range:
				k.op, k.a, k.t = iRange, op(x.X), w.rt(x.X.Type())
			case *ssa.Return:
				k.op = iReturn
				for _, r := range x.Results {
					k.args = append(k.args, op(r))
				}
			case *ssa.RunDefers:
				k.op = iRunDefers
			case *ssa.Select:
				k.op = iSelect
			case *ssa.Send:
				k.op, k.a, k.b = iSend, op(x.Chan), op(x.X)
			case *ssa.Slice:
				k.op, k.a, k.b, k.c, k.d = iSlice, op(x.X), op(x.Low), op(x.High), op(x.Max)
				k.t = w.rt(x.X.Type())
				if k.t.kind == kPointer {
					k.t2 = w.rt(x.X.Type().Underlying().(*types.Pointer).Elem())
				}
			case *ssa.SliceToArrayPointer:
				k.op, k.a = iSliceToArr, op(x.X)
				k.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				k.op, k.a, k.b, k.t = iStore, op(x.Addr), op(x.Val), w.rt(x.Val.Type())
			case *ssa.TypeAssert:
				k.op, k.a, k.t, k.flag = iTypeAssert, op(x.X), w.rt(x.AssertedType), x.CommaOk
				k.t2 = w.rt(x.X.Type())
			default:
				unsupported("instruction %T", in)
			}
			kb.ins = append(kb.ins, k)
		}
	}
	if f.Recover != nil {
		c.recover = f.Recover.Index
	}
	res := f.Signature.Results()
	switch res.Len() {
	case 0:
	case 1:
		c.results = w.rt(res.At(0).Type())
	default:
		c.results = w.rt(res)
	}
	c.ready = true
}

func (w *Worker) compCall(k *instr, c *ssa.CallCommon, op func(ssa.Value) opnd) {
	k.call = c
	for _, a := range c.Args {
		k.args = append(k.args, op(a))
	}
	if c.IsInvoke() {
		k.a = op(c.Value)
		return
	}
	switch f := c.Value.(type) {
	case *ssa.Function:
		k.fn = w.getFn(f)
	case *ssa.Builtin:
		if len(c.Args) > 0 {
			k.t = w.rt(c.Args[0].Type())
			w.elemRT(k.t)
		}
		if len(c.Args) > 1 {
			k.t2 = w.rt(c.Args[1].Type())
			w.elemRT(k.t2)
		}
	default:
		k.a = op(c.Value)
	}
}

// ---- calls ----

const maxDepth = 4000

func (w *Worker) callClosure(caller *frame, c *Closure, args []Value) Value {
	if c.nat != nil {
		return c.nat(w, args)
	}
	return w.callFn(caller, w.getFn(c.fn), args, c.binds)
}

func (w *Worker) callFn(caller *frame, fn *Fn, args []Value, binds []Value) Value {
	if fn.intr != nil {
		return fn.intr(w, caller, args)
	}
	return w.callBody(caller, fn, args, binds)
}

func (w *Worker) callBody(caller *frame, fn *Fn, args []Value, binds []Value) Value {
	if !fn.ready {
		w.compile(fn)
	}
	if fn.repo && !w.used[fn.fn] {
		w.used[fn.fn] = true
	}
	w.depth++
	if w.depth > maxDepth {
		panic(abortPath{"stack", "call depth limit exceeded (unbounded recursion) at " + w.where()})
	}
	fr := &frame{fn: fn, regs: make([]Value, fn.nregs), caller: caller}
	for i, p := range fn.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fn.free {
		fr.regs[p] = binds[i]
	}
	d := w.depth
	w.cur = fr
	if fn.defers {
		w.runWithDefers(fr)
	} else {
		w.exec(fr, 0)
	}
	w.depth = d - 1
	w.cur = caller
	return fr.result
}

func (w *Worker) runWithDefers(fr *frame) {
	d := w.depth
	if w.protected(fr, func() { w.exec(fr, 0) }) {
		return
	}
	w.depth = d
	w.cur = fr
	w.runDefers(fr)
	if fr.panicking != nil {
		panic(fr.panicking)
	}
	// recovered
	if fr.fn.recover >= 0 {
		w.exec(fr, fr.fn.recover)
	} else if fr.fn.results != nil {
		fr.result = w.zero(fr.fn.results)
	}
}

// protected runs f and stores a target panic in fr.
func (w *Worker) protected(fr *frame, f func()) (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		tp, isT := r.(*TargetPanic)
		if !isT {
			panic(r)
		}
		fr.panicking = tp
	}()
	f()
	ok = true
	return
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		dep := w.depth
		w.protected(fr, func() {
			switch {
			case d.blt != nil:
				w.builtin(fr, d.ins, d.blt, d.args)
			case d.fn != nil:
				w.callFn(fr, d.fn, d.args, nil)
			default:
				w.callClosure(fr, d.fnv, d.args)
			}
		})
		w.depth = dep
		w.cur = fr
	}
}

func (w *Worker) get(fr *frame, o *opnd) Value {
	if o.r >= 0 {
		return fr.regs[o.r]
	}
	return o.c
}

func (w *Worker) evalArgs(fr *frame, k *instr) []Value {
	args := make([]Value, len(k.args))
	for i := range k.args {
		a := &k.args[i]
		if a.r >= 0 {
			args[i] = fr.regs[a.r]
		} else {
			args[i] = a.c
		}
	}
	return args
}

func (w *Worker) method(r *RT, m *types.Func) *ssa.Function {
	key := m.Name()
	if !m.Exported() {
		key = m.Id()
	}
	if f, ok := r.meths[key]; ok {
		return f
	}
	w.P.mu.Lock()
	f := w.prog.LookupMethod(r.t, m.Pkg(), m.Name())
	w.P.mu.Unlock()
	if r.meths == nil {
		r.meths = map[string]*ssa.Function{}
	}
	r.meths[key] = f
	return f
}

func (w *Worker) invoke(fr *frame, iv Value, m *types.Func, args []Value) (fn *Fn, full []Value) {
	i := iv.(Iface)
	if i.t == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	f := w.method(i.t, m)
	if f == nil {
		unsupported("no method %s on %s", m.Name(), i.t.t)
	}
	full = make([]Value, 0, len(args)+1)
	full = append(full, w.unbox(i))
	full = append(full, args...)
	return w.getFn(f), full
}

func (w *Worker) doCall(fr *frame, k *instr) Value {
	args := w.evalArgs(fr, k)
	if k.fn != nil {
		return w.callFn(fr, k.fn, args, nil)
	}
	if k.call.IsInvoke() {
		fn, full := w.invoke(fr, w.get(fr, &k.a), k.call.Method, args)
		return w.callFn(fr, fn, full, nil)
	}
	if b, ok := k.call.Value.(*ssa.Builtin); ok {
		return w.builtin(fr, k, b, args)
	}
	p := w.get(fr, &k.a).(Ptr)
	if p.o == nil {
		w.runtimePanic("invalid memory address or nil pointer dereference")
	}
	if p.o.fn == nil {
		w.memFault("call through a pointer that is not a function")
	}
	return w.callClosure(fr, p.o.fn, args)
}

// ---- main loop ----

func (w *Worker) exec(fr *frame, start int) {
	fn := fr.fn
	bi := start
	var tmp []Value
	for {
		b := &fn.blocks[bi]
		if len(b.phis) > 0 {
			e := 0
			for i, p := range b.preds {
				if p == fr.prev {
					e = i
					break
				}
			}
			tmp = tmp[:0]
			for i := range b.phis {
				tmp = append(tmp, w.get(fr, &b.phis[i].edges[e]))
			}
			for i := range b.phis {
				fr.regs[b.phis[i].dst] = tmp[i]
			}
		}
		w.steps += len(b.ins) + 1
		if w.steps > w.maxSteps {
			panic(abortPath{"limit", fmt.Sprintf("step limit %d exceeded at %s", w.maxSteps, w.where())})
		}
		next := -1
		for ii := range b.ins {
			k := &b.ins[ii]
			fr.pos = k
			switch k.op {
			case iNop:
				unsupported("field of reflect.Value in %s", fn.name)
			case iAlloc:
				fr.regs[k.dst] = Ptr{w.alloc(k.t, 1), 0}
			case iBinOp:
				fr.regs[k.dst] = w.binop(k, w.get(fr, &k.a), w.get(fr, &k.b))
			case iUnOp:
				fr.regs[k.dst] = w.unop(fr, k, w.get(fr, &k.a))
			case iCall:
				fr.regs[k.dst] = w.doCall(fr, k)
			case iCopy:
				fr.regs[k.dst] = w.get(fr, &k.a)
			case iConvert:
				fr.regs[k.dst] = w.convert(k.t, k.t2, w.get(fr, &k.a))
			case iDefer:
				args := w.evalArgs(fr, k)
				d := deferred{args: args, ins: k}
				if k.fn != nil {
					d.fn = k.fn
				} else if k.call.IsInvoke() {
					d.fn, d.args = w.invoke(fr, w.get(fr, &k.a), k.call.Method, args)
				} else if bb, ok := k.call.Value.(*ssa.Builtin); ok {
					d.blt = bb
				} else {
					d.fnv = w.get(fr, &k.a).(Ptr).o.fn
				}
				fr.defers = append(fr.defers, d)
			case iGo:
				w.goStmt(fr, k)
			case iExtract:
				fr.regs[k.dst] = w.get(fr, &k.a).([]Value)[k.n]
			case iField:
				a, ok := w.get(fr, &k.a).(*Agg)
				if !ok {
					unsupported("field of opaque struct in %s", fn.name)
				}
				fr.regs[k.dst] = a.f[k.n]
			case iFieldAddr:
				p := w.get(fr, &k.a).(Ptr)
				if p.o == nil && p.off == 0 {
					w.runtimePanic("invalid memory address or nil pointer dereference")
				}
				fr.regs[k.dst] = Ptr{p.o, p.off + k.n}
			case iIf:
				c := w.get(fr, &k.a)
				var t bool
				if bb, ok := c.(bool); ok {
					t = bb
				} else {
					t = w.branch(c.(*Term))
				}
				if t {
					next = b.succ[0]
				} else {
					next = b.succ[1]
				}
			case iIndex:
				fr.regs[k.dst] = w.index(k, w.get(fr, &k.a), w.get(fr, &k.b))
			case iIndexAddr:
				fr.regs[k.dst] = w.indexAddr(k, w.get(fr, &k.a), w.get(fr, &k.b))
			case iJump:
				next = b.succ[0]
			case iLookup:
				fr.regs[k.dst] = w.lookup(k, w.get(fr, &k.a), w.get(fr, &k.b))
			case iMakeChan:
				w.nextObj++
				fr.regs[k.dst] = Ptr{&Object{id: w.nextObj, ch: &Chan{cap: int(w.concInt(w.get(fr, &k.a)))}}, 0}
			case iMakeClosure:
				fr.regs[k.dst] = w.newClosure(&Closure{fn: k.fn.fn, binds: w.evalArgs(fr, k)})
			case iMakeInterface:
				fr.regs[k.dst] = w.mkIface(k.t, w.get(fr, &k.a))
			case iMakeMap:
				fr.regs[k.dst] = w.newMap()
			case iMakeSlice:
				n := int(int64(w.concInt(w.get(fr, &k.a))))
				c := int(int64(w.concInt(w.get(fr, &k.b))))
				if n < 0 || n > 1<<26 {
					w.runtimePanic("makeslice: len out of range")
				}
				if c < n || c > 1<<26 {
					w.runtimePanic("makeslice: cap out of range")
				}
				fr.regs[k.dst] = Slice{Ptr{w.alloc(k.t, c), 0}, n, c}
			case iMapUpdate:
				w.mapSet(k.t, w.get(fr, &k.a).(Ptr), w.get(fr, &k.b), w.get(fr, &k.c))
			case iNext:
				fr.regs[k.dst] = w.next(k, w.get(fr, &k.a).(*iter))
			case iPanic:
				v := w.get(fr, &k.a).(Iface)
				panic(&TargetPanic{v: v, msg: w.panicMsg(v), trace: w.where()})
			case iRange:
				fr.regs[k.dst] = w.mkIter(k.t, w.get(fr, &k.a))
			case iReturn:
				switch len(k.args) {
				case 0:
				case 1:
					fr.result = w.get(fr, &k.args[0])
				default:
					fr.result = w.evalArgs(fr, k)
				}
				return
			case iRunDefers:
				w.runDefers(fr)
				if fr.panicking != nil {
					tp := fr.panicking
					panic(tp)
				}
			case iSelect:
				unsupported("select")
			case iSend:
				w.chanSend(w.get(fr, &k.a).(Ptr), w.get(fr, &k.b))
			case iSlice:
				fr.regs[k.dst] = w.slice(k, w.get(fr, &k.a), w.get(fr, &k.b), w.get(fr, &k.c), w.get(fr, &k.d))
			case iSliceToArr:
				s := w.get(fr, &k.a).(Slice)
				if s.len < k.n {
					w.runtimePanic("cannot convert slice to array: too short")
				}
				fr.regs[k.dst] = s.p
			case iStore:
				w.store(w.get(fr, &k.a).(Ptr), k.t, w.get(fr, &k.b))
			case iTypeAssert:
				fr.regs[k.dst] = w.typeAssert(k, w.get(fr, &k.a).(Iface))
			}
			if next >= 0 {
				break
			}
		}
		fr.prev = bi
		if next < 0 {
			panic("block without terminator in " + fn.name)
		}
		bi = next
	}
}

func (w *Worker) panicMsg(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	s := w.typeStr(v.t)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abortPath); ok {
				return
			}
			if _, ok := r.(*TargetPanic); ok {
				return
			}
			panic(r)
		}
	}()
	s += ": " + showStr(w.fmtValue(v, 'v', ""))
	return s
}

// ---- operators ----

func (w *Worker) binop(k *instr, a, b Value) Value {
	switch k.tok {
	case token.EQL:
		return w.eq2(k, a, b)
	case token.NEQ:
		return w.not(w.eq2(k, a, b))
	}
	r := k.t
	switch r.cls {
	case cInt:
		return w.intOp(k.tok, r, k.t2, a, b)
	case cFloat:
		return w.floatOp(k.tok, r, a, b)
	case cString:
		switch k.tok {
		case token.ADD:
			return strConcat(a, b)
		case token.LSS:
			return w.strLess(a, b)
		case token.GTR:
			return w.strLess(b, a)
		case token.LEQ:
			return w.not(w.strLess(b, a))
		case token.GEQ:
			return w.not(w.strLess(a, b))
		}
	case cBool:
		switch k.tok {
		case token.AND, token.LAND:
			return w.norm(w.p.And(w.bt(a), w.bt(b)))
		case token.OR, token.LOR:
			return w.norm(w.p.Or(w.bt(a), w.bt(b)))
		case token.XOR:
			return w.not(w.norm(w.p.Eq(w.bt(a), w.bt(b))))
		}
	case cComplex:
		x, y := a.(complex128), b.(complex128)
		switch k.tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		}
	}
	unsupported("binop %v on %v", k.tok, r.t)
	return nil
}

func (w *Worker) eq2(k *instr, a, b Value) Value {
	// interface against concrete is made explicit by MakeInterface in SSA; nil comparisons have the type of the operand
	return w.eq(k.t, a, b)
}

func (w *Worker) not(v Value) Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return w.norm(w.p.Not(v.(*Term)))
}

func (w *Worker) intOp(tok token.Token, r, r2 *RT, a, b Value) Value {
	width := uint8(r.size * 8)
	m := mask(width)
	if pa, ok := a.(Ptr); ok {
		switch y := b.(type) {
		case uint64:
			switch tok {
			case token.ADD:
				return Ptr{pa.o, pa.off + int(int64(y))}
			case token.SUB:
				return Ptr{pa.o, pa.off - int(int64(y))}
			}
		case *Term:
			if tok == token.ADD {
				return Ptr{pa.o, pa.off + int(w.symOffset(pa, y))}
			}
		case Ptr:
			if tok == token.SUB && pa.o == y.o {
				return uint64(pa.off - y.off)
			}
		}
		a = fakeAddr(pa)
	}
	if pb, ok := b.(Ptr); ok {
		if x, ok := a.(uint64); ok && tok == token.ADD {
			return Ptr{pb.o, pb.off + int(int64(x))}
		}
		if x, ok := a.(*Term); ok && tok == token.ADD {
			return Ptr{pb.o, pb.off + int(w.symOffset(pb, x))}
		}
		b = fakeAddr(pb)
	}
	x, ok1 := a.(uint64)
	y, ok2 := b.(uint64)
	if ok1 && ok2 {
		switch tok {
		case token.ADD:
			return (x + y) & m
		case token.SUB:
			return (x - y) & m
		case token.MUL:
			return (x * y) & m
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return x ^ y
		case token.AND_NOT:
			return x &^ y
		case token.QUO, token.REM:
			if y == 0 {
				w.runtimePanic("integer divide by zero")
			}
			if r.signed {
				sa, sb := sx(x, width), sx(y, width)
				if sb == -1 {
					if tok == token.QUO {
						return uint64(-sa) & m
					}
					return uint64(0)
				}
				if tok == token.QUO {
					return uint64(sa/sb) & m
				}
				return uint64(sa%sb) & m
			}
			if tok == token.QUO {
				return x / y
			}
			return x % y
		case token.SHL, token.SHR:
			if r2.signed && sx(y, uint8(r2.size*8)) < 0 {
				w.runtimePanic("negative shift amount")
			}
			if tok == token.SHL {
				if y >= uint64(width) {
					return uint64(0)
				}
				return (x << y) & m
			}
			if r.signed {
				if y >= uint64(width) {
					y = uint64(width) - 1
				}
				return uint64(sx(x, width)>>y) & m
			}
			if y >= uint64(width) {
				return uint64(0)
			}
			return x >> y
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if r.signed {
				p, q := sx(x, width), sx(y, width)
				switch tok {
				case token.LSS:
					return p < q
				case token.LEQ:
					return p <= q
				case token.GTR:
					return p > q
				}
				return p >= q
			}
			switch tok {
			case token.LSS:
				return x < y
			case token.LEQ:
				return x <= y
			case token.GTR:
				return x > y
			}
			return x >= y
		}
		unsupported("int op %v", tok)
	}
	P := w.p
	ta := w.bv(a, int(width))
	var t *Term
	switch tok {
	case token.SHL, token.SHR:
		cw := uint8(r2.size * 8)
		tb := w.bv(b, int(cw))
		if r2.signed {
			if w.branchV(w.norm(P.Slt(tb, P.BV(cw, 0)))) {
				w.runtimePanic("negative shift amount")
			}
		}
		switch {
		case cw < width:
			tb = P.Zext(width, tb)
		case cw > width:
			tb = P.Ite(P.Ult(tb, P.BV(cw, uint64(width))), P.Extract(width-1, 0, tb), P.BV(width, uint64(width)))
		}
		switch {
		case tok == token.SHL:
			t = P.Shl(ta, tb)
		case r.signed:
			t = P.AShr(ta, tb)
		default:
			t = P.LShr(ta, tb)
		}
		return w.norm(t)
	}
	tb := w.bv(b, int(width))
	switch tok {
	case token.ADD:
		t = P.Add(ta, tb)
	case token.SUB:
		t = P.Sub(ta, tb)
	case token.MUL:
		t = P.Mul(ta, tb)
	case token.AND:
		t = P.BAnd(ta, tb)
	case token.OR:
		t = P.BOr(ta, tb)
	case token.XOR:
		t = P.BXor(ta, tb)
	case token.AND_NOT:
		t = P.BAnd(ta, P.BNot(tb))
	case token.QUO, token.REM:
		if w.branchV(w.norm(P.Eq(tb, P.BV(width, 0)))) {
			w.runtimePanic("integer divide by zero")
		}
		o := OpUDiv
		switch {
		case tok == token.QUO && r.signed:
			o = OpSDiv
		case tok == token.REM && r.signed:
			o = OpSRem
		case tok == token.REM:
			o = OpURem
		}
		t = P.Div(o, ta, tb)
	case token.LSS:
		if r.signed {
			t = P.Slt(ta, tb)
		} else {
			t = P.Ult(ta, tb)
		}
	case token.GTR:
		if r.signed {
			t = P.Slt(tb, ta)
		} else {
			t = P.Ult(tb, ta)
		}
	case token.LEQ:
		if r.signed {
			t = P.Sle(ta, tb)
		} else {
			t = P.Ule(ta, tb)
		}
	case token.GEQ:
		if r.signed {
			t = P.Sle(tb, ta)
		} else {
			t = P.Ule(tb, ta)
		}
	default:
		unsupported("int op %v", tok)
	}
	return w.norm(t)
}

// symOffset turns pointer+symbolic offset into concrete offsets: the solver
// first decides whether the address can leave the object.
func (w *Worker) symOffset(p Ptr, off *Term) int64 {
	if p.o == nil || p.o.lay == nil {
		return int64(w.concretize(off))
	}
	sz := p.o.size()
	lo := w.p.BV(64, uint64(int64(-p.off)))
	hi := w.p.BV(64, uint64(int64(sz-p.off)))
	in := w.p.And(w.p.Sle(lo, off), w.p.Sle(off, hi))
	if !w.branch(in) {
		panic(abortPath{"memfault", "pointer arithmetic leaves its object at " + w.where()})
	}
	return int64(w.concretize(off))
}

func (w *Worker) floatOp(tok token.Token, r *RT, a, b Value) Value {
	x, ok1 := a.(float64)
	y, ok2 := b.(float64)
	if ok1 && ok2 && r.size == 8 {
		switch tok {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	P := w.p
	ta, tb := w.fp(a, r.size*8), w.fp(b, r.size*8)
	switch tok {
	case token.ADD:
		return w.norm(P.FBin(OpFAdd, ta, tb))
	case token.SUB:
		return w.norm(P.FBin(OpFSub, ta, tb))
	case token.MUL:
		return w.norm(P.FBin(OpFMul, ta, tb))
	case token.QUO:
		return w.norm(P.FBin(OpFDiv, ta, tb))
	case token.LSS:
		return w.norm(P.FCmp(OpFLt, ta, tb))
	case token.LEQ:
		return w.norm(P.FCmp(OpFLe, ta, tb))
	case token.GTR:
		return w.norm(P.FCmp(OpFLt, tb, ta))
	case token.GEQ:
		return w.norm(P.FCmp(OpFLe, tb, ta))
	}
	unsupported("float op %v", tok)
	return nil
}

func (w *Worker) unop(fr *frame, k *instr, a Value) Value {
	switch k.tok {
	case token.MUL:
		if p, ok := a.(Ptr); ok {
			return w.load(p, k.t)
		}
		return w.symLoad(a.(*SymPtr), k.t)
	case token.NOT:
		return w.not(a)
	case token.SUB:
		switch k.t.cls {
		case cInt:
			if x, ok := a.(uint64); ok {
				return (-x) & mask(uint8(k.t.size*8))
			}
			return w.norm(w.p.Neg(w.bv(a, k.t.size*8)))
		case cFloat:
			if x, ok := a.(float64); ok {
				return -x
			}
			return w.norm(w.p.FNeg(a.(*Term)))
		case cComplex:
			return -a.(complex128)
		}
	case token.XOR:
		if x, ok := a.(uint64); ok {
			return (^x) & mask(uint8(k.t.size*8))
		}
		return w.norm(w.p.BNot(w.bv(a, k.t.size*8)))
	case token.ARROW:
		v, ok := w.chanRecv(a.(Ptr), w.elemRT(k.t))
		if k.flag {
			return []Value{v, ok}
		}
		return v
	}
	unsupported("unop %v", k.tok)
	return nil
}

func (w *Worker) symLoad(p *SymPtr, r *RT) Value {
	// ite over all elements, grouped by value
	width := 64
	vals := make([]Value, p.n)
	for i := 0; i < p.n; i++ {
		vals[i] = w.load(Ptr{p.base.o, p.base.off + i*p.stride}, r)
	}
	return w.iteTable(p.idx, width, vals, r)
}

func (w *Worker) toTerm(v Value, r *RT) *Term {
	switch r.cls {
	case cBool:
		return w.bt(v)
	case cInt:
		return w.bv(v, r.size*8)
	case cFloat:
		return w.fp(v, r.size*8)
	}
	unsupported("table of class %d", r.cls)
	return nil
}

// iteTable selects vals[idx]; contiguous runs of equal values become range tests.
func (w *Worker) iteTable(idx *Term, width int, vals []Value, r *RT) Value {
	n := len(vals)
	ts := make([]*Term, n)
	for i, v := range vals {
		ts[i] = w.toTerm(v, r)
	}
	acc := ts[n-1]
	i := n - 1
	for i >= 0 {
		j := i
		for j > 0 && ts[j-1] == ts[i] {
			j--
		}
		// run [j..i]
		if i != n-1 {
			acc = w.p.Ite(w.p.Ult(idx, w.p.BV(idx.s.W, uint64(i+1))), ts[i], acc)
		}
		i = j - 1
	}
	return w.norm(acc)
}

func (w *Worker) idx64(v Value, r *RT) Value {
	if x, ok := v.(uint64); ok {
		if r.signed {
			return uint64(sx(x, uint8(r.size*8)))
		}
		return x
	}
	t := v.(*Term)
	if r.signed {
		return w.norm(w.p.Sext(64, t))
	}
	return w.norm(w.p.Zext(64, t))
}

// boundIdx checks 0 <= i < n and panics in the target otherwise.
func (w *Worker) boundIdx(i Value, n int) {
	switch x := i.(type) {
	case uint64:
		if x >= uint64(n) {
			w.runtimePanic(fmt.Sprintf("index out of range [%d] with length %d", int64(x), n))
		}
	case *Term:
		if !w.branch(w.p.Ult(x, w.p.BV(64, uint64(n)))) {
			w.runtimePanic(fmt.Sprintf("index out of range with length %d", n))
		}
	default:
		unsupported("index %T", i)
	}
}

func (w *Worker) indexAddr(k *instr, a, b Value) Value {
	i := w.idx64(b, k.t2)
	var base Ptr
	var n int
	switch x := a.(type) {
	case Slice:
		base, n = x.p, x.len
	case Ptr:
		if x.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		base = x
		n = w.elemRT(k.t).n
	}
	w.boundIdx(i, n)
	if u, ok := i.(uint64); ok {
		return Ptr{base.o, base.off + int(u)*k.n}
	}
	t := i.(*Term)
	if k.flag && n <= 4096 {
		return &SymPtr{base, t, k.n, n}
	}
	if k.ld && n <= 4096 && base.o != nil && base.o.lay != nil && base.off >= 0 && base.off+n*k.n <= base.o.size() {
		if p, ok := w.pickClass(base, t, k.n, n); ok {
			return p
		}
	}
	return Ptr{base.o, base.off + int(w.concretize(t))*k.n}
}

// pickClass forks on the value of a table element rather than on its index:
// indices that hold the same value share one path (the address is only loaded from).
func (w *Worker) pickClass(base Ptr, idx *Term, stride, n int) (Value, bool) {
	type class struct {
		v    Value
		idxs []int
	}
	var cls []*class
	by := map[Value]*class{}
	for i := 0; i < n; i++ {
		ci, lf := base.o.cellAt(base.off + i*stride)
		if lf == nil || lf.size != stride {
			return nil, false
		}
		v := base.o.cells[ci]
		var c *class
		if s, ok := v.(*SymStr); ok {
			v = fmt.Sprintf("sym%p", s)
		}
		c = by[v]
		if c == nil {
			c = &class{v: v}
			by[v] = c
			cls = append(cls, c)
		}
		c.idxs = append(c.idxs, i)
	}
	for k, c := range cls {
		if k == len(cls)-1 {
			return Ptr{base.o, base.off + c.idxs[0]*stride}, true
		}
		// small classes first would need sorting; build the membership test from runs
		in := w.p.F
		for a := 0; a < len(c.idxs); {
			b := a
			for b+1 < len(c.idxs) && c.idxs[b+1] == c.idxs[b]+1 {
				b++
			}
			lo, hi := uint64(c.idxs[a]), uint64(c.idxs[b])
			t := w.p.And(w.p.Ule(w.p.BV(64, lo), idx), w.p.Ule(idx, w.p.BV(64, hi)))
			if lo == hi {
				t = w.p.Eq(idx, w.p.BV(64, lo))
			}
			in = w.p.Or(in, t)
			a = b + 1
		}
		if w.branch(in) {
			return Ptr{base.o, base.off + c.idxs[0]*stride}, true
		}
	}
	panic("pickClass")
}

func (w *Worker) index(k *instr, a, b Value) Value {
	i := w.idx64(b, k.t2)
	switch k.t.kind {
	case kString:
		n := strLen(a)
		w.boundIdx(i, n)
		if u, ok := i.(uint64); ok {
			return strAt(a, int(u))
		}
		return w.iteTable(i.(*Term), 64, strBytes(a), w.rtByte)
	case kArray:
		ag := a.(*Agg)
		w.boundIdx(i, len(ag.f))
		if u, ok := i.(uint64); ok {
			return ag.f[u]
		}
		if k.t.elem.isLeaf && (k.t.elem.cls == cInt || k.t.elem.cls == cBool) {
			return w.iteTable(i.(*Term), 64, ag.f, k.t.elem)
		}
		return ag.f[w.concretize(i.(*Term))]
	}
	unsupported("index of %v", k.t.t)
	return nil
}

func (w *Worker) concInt(v Value) uint64 {
	switch x := v.(type) {
	case nil:
		return 0
	case uint64:
		return x
	case *Term:
		return w.concretize(x)
	case Ptr:
		return fakeAddr(x)
	}
	panic(fmt.Sprintf("concInt %T", v))
}

func (w *Worker) slice(k *instr, a, lo, hi, max Value) Value {
	var n, c int
	var s Slice
	isStr := false
	switch x := a.(type) {
	case Slice:
		s = x
		n, c = x.len, x.cap
	case Ptr: // pointer to array
		if x.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		n = k.t2.n
		c = n
		s = Slice{x, n, n}
	default:
		n = strLen(a)
		c = n
		isStr = true
	}
	esz := 1
	if !isStr {
		if k.t.kind == kPointer {
			esz = k.t2.elem.size
		} else {
			esz = w.elemRT(k.t).size
		}
	}
	bound := func(v Value, def int, limLo, limHi int) int {
		if v == nil {
			return def
		}
		switch x := v.(type) {
		case uint64:
			i := int(int64(x))
			if i < limLo || i > limHi {
				w.runtimePanic(fmt.Sprintf("slice bounds out of range [%d] with limits %d..%d", i, limLo, limHi))
			}
			return i
		case *Term:
			t := x
			if t.s.W < 64 {
				t = w.p.Sext(64, t)
			}
			in := w.p.And(w.p.Sle(w.p.BV(64, uint64(int64(limLo))), t), w.p.Sle(t, w.p.BV(64, uint64(int64(limHi)))))
			if !w.branch(in) {
				w.runtimePanic("slice bounds out of range")
			}
			return int(int64(w.concretize(t)))
		}
		unsupported("slice bound %T", v)
		return 0
	}
	m := bound(max, c, 0, c)
	h := bound(hi, n, 0, m)
	l := bound(lo, 0, 0, h)
	if isStr {
		return w.strSlice(a, l, h)
	}
	if m-l == 0 {
		return Slice{s.p, h - l, m - l}
	}
	return Slice{Ptr{s.p.o, s.p.off + l*esz}, h - l, m - l}
}

func (w *Worker) typeAssert(k *instr, i Iface) Value {
	ok := false
	if i.t != nil {
		if k.t.kind == kInterface {
			ok = w.implements(i.t, k.t)
		} else {
			ok = i.t == k.t
		}
	}
	if !ok {
		if k.flag {
			return []Value{w.zero(k.t), false}
		}
		from := "nil"
		if i.t != nil {
			from = w.typeStr(i.t)
		}
		msg := fmt.Sprintf("interface conversion: interface is %s, not %s", from, w.typeStr(k.t))
		w.runtimePanic(msg)
	}
	var v Value = i
	if k.t.kind != kInterface {
		v = w.unbox(i)
	}
	if k.flag {
		return []Value{v, true}
	}
	return v
}

var implMu sync.Mutex

func (w *Worker) implements(t, it *RT) bool {
	iface := it.t.Underlying().(*types.Interface)
	if iface.NumMethods() == 0 {
		return true
	}
	key := "impl\x00" + fmt.Sprint(it.id)
	if t.meths == nil {
		t.meths = map[string]*ssa.Function{}
	}
	if _, ok := t.meths[key+"y"]; ok {
		return true
	}
	if _, ok := t.meths[key+"n"]; ok {
		return false
	}
	implMu.Lock()
	r := types.Implements(t.t, iface)
	implMu.Unlock()
	if r {
		t.meths[key+"y"] = nil
	} else {
		t.meths[key+"n"] = nil
	}
	return r
}

func (w *Worker) convert(from, to *RT, v Value) Value {
	switch {
	case to.cls == cPtr && to.isLeaf && from.isLeaf:
		switch from.cls {
		case cPtr:
			return v
		case cInt:
			switch x := v.(type) {
			case Ptr:
				return x
			case uint64:
				return Ptr{nil, int(x)}
			}
			w.memFault("symbolic integer converted to a pointer")
		}
	case from.cls == cPtr && from.isLeaf && to.cls == cInt:
		p := v.(Ptr)
		if p.o == nil {
			return uint64(p.off)
		}
		return p
	case from.cls == cInt && to.cls == cInt && from.isLeaf && to.isLeaf:
		switch x := v.(type) {
		case uint64:
			if from.signed {
				x = uint64(sx(x, uint8(from.size*8)))
			}
			return x & mask(uint8(to.size*8))
		case *Term:
			fw, tw := uint8(from.size*8), uint8(to.size*8)
			if tw <= fw {
				return w.norm(w.p.Extract(tw-1, 0, x))
			}
			if from.signed {
				return w.norm(w.p.Sext(tw, x))
			}
			return w.norm(w.p.Zext(tw, x))
		case Ptr:
			if to.size == 8 {
				return x
			}
			return fakeAddr(x) & mask(uint8(to.size*8))
		}
	case from.cls == cInt && to.cls == cFloat && from.isLeaf && to.isLeaf:
		switch x := v.(type) {
		case uint64:
			var f float64
			if from.signed {
				s := sx(x, uint8(from.size*8))
				if to.size == 4 {
					return float64(float32(s))
				}
				f = float64(s)
			} else {
				if to.size == 4 {
					return float64(float32(x))
				}
				f = float64(x)
			}
			return f
		case *Term:
			return w.norm(w.p.IToFP(uint8(to.size*8), x, from.signed))
		case Ptr:
			return float64(fakeAddr(x))
		}
	case from.cls == cFloat && to.cls == cInt && from.isLeaf && to.isLeaf:
		return w.norm(w.p.FToI(uint8(to.size*8), w.fp(v, from.size*8), to.signed))
	case from.cls == cFloat && to.cls == cFloat && from.isLeaf && to.isLeaf:
		if f, ok := v.(float64); ok {
			if to.size == 4 {
				return float64(float32(f))
			}
			return f
		}
		return w.norm(w.p.FToFP(uint8(to.size*8), v.(*Term)))
	case to.kind == kString && from.kind == kSlice:
		s := v.(Slice)
		er := w.elemRT(from)
		if er.kind == kUint8 {
			return mkStr(w.bytesOf(s))
		}
		out := Value("")
		for i := 0; i < s.len; i++ {
			out = strConcat(out, w.runeStr(w.load(Ptr{s.p.o, s.p.off + 4*i}, er)))
		}
		return out
	case to.kind == kString && from.cls == cInt:
		return w.runeStr(w.convert(from, w.rt(types.Typ[types.Int32]), v))
	case from.kind == kString && to.kind == kSlice:
		er := w.elemRT(to)
		if er.kind == kUint8 {
			return w.mkBytes(strBytes(v))
		}
		var rs []Value
		pos := 0
		for pos < strLen(v) {
			r, n := w.decodeRune(v, pos)
			rs = append(rs, r)
			pos += n
		}
		o := w.alloc(er, len(rs))
		copy(o.cells, rs)
		return Slice{Ptr{o, 0}, len(rs), len(rs)}
	case from.kind == kString && to.kind == kString:
		return v
	case from.kind == kSlice && to.kind == kSlice:
		return v
	case from.cls == cComplex && to.cls == cComplex:
		return v
	}
	if from.kind == kSlice && to.kind == kArray {
		s := v.(Slice)
		if s.len < to.n {
			w.runtimePanic("cannot convert slice to array")
		}
		return w.load(s.p, to)
	}
	unsupported("convert %v to %v", from.t, to.t)
	return nil
}

func (w *Worker) runeStr(v Value) Value {
	if x, ok := v.(uint64); ok {
		return string(rune(int32(x)))
	}
	t := v.(*Term)
	if w.branch(w.p.Ult(t, w.p.BV(32, 0x80))) {
		return mkStr([]Value{w.norm(w.p.Extract(7, 0, t))})
	}
	f := w.P.pkgs["unicode/utf8"].Func("AppendRune")
	s := w.callFn(w.cur, w.getFn(f), []Value{Slice{}, v}, nil).(Slice)
	return mkStr(w.bytesOf(s))
}

func (w *Worker) decodeRune(s Value, pos int) (Value, int) {
	switch x := s.(type) {
	case string:
		r, n := utf8.DecodeRuneInString(x[pos:])
		return uint64(uint32(r)), n
	case *SymStr:
		b := x.b[pos]
		switch y := b.(type) {
		case uint64:
			if y < 0x80 {
				return y, 1
			}
		case *Term:
			if w.branch(w.p.Ult(y, w.p.BV(8, 0x80))) {
				return w.norm(w.p.Zext(32, y)), 1
			}
		}
		f := w.P.pkgs["unicode/utf8"].Func("DecodeRuneInString")
		end := pos + 4
		if end > len(x.b) {
			end = len(x.b)
		}
		r := w.callFn(w.cur, w.getFn(f), []Value{mkStr(x.b[pos:end])}, nil).([]Value)
		return r[0], int(w.concInt(r[1]))
	}
	panic("decodeRune")
}

// ---- range ----

type iter struct {
	s    Value // string
	pos  int
	m    *MapData
	mp   Ptr
	rt   *RT
	keys []int
}

func (w *Worker) mkIter(r *RT, v Value) Value {
	if r.kind == kMap {
		p := v.(Ptr)
		it := &iter{mp: p, rt: r}
		w.elemRT(r)
		if p.o != nil {
			it.m = p.o.m
			if w.hbOn {
				w.hbMap(p.o, false)
			}
		}
		return it
	}
	return &iter{s: v}
}

func (w *Worker) next(k *instr, it *iter) Value {
	if k.flag {
		if it.pos >= strLen(it.s) {
			return []Value{false, uint64(0), uint64(0)}
		}
		r, n := w.decodeRune(it.s, it.pos)
		p := it.pos
		it.pos += n
		return []Value{true, uint64(p), r}
	}
	if it.m != nil {
		m := it.mp.o.m
		for it.pos < len(m.keys) {
			i := it.pos
			it.pos++
			if m.live[i] {
				return []Value{true, m.keys[i], m.vals[i]}
			}
		}
	}
	return []Value{false, w.zero(it.rt.key), w.zero(it.rt.elem)}
}

// ---- maps ----

func (w *Worker) newMap() Ptr {
	w.nextObj++
	return Ptr{&Object{id: w.nextObj, m: &MapData{idx: map[Value]int{}}, n: 1}, 0}
}

type ikey struct {
	t int
	v Value
}

// hashKey gives a comparable key for a concrete value, nil for a symbolic one.
func (w *Worker) hashKey(r *RT, v Value) Value {
	switch x := v.(type) {
	case uint64, bool, string, Ptr, complex128:
		return x
	case float64:
		if x != x {
			return nil
		}
		return x
	case Iface:
		if x.t == nil {
			return ikey{-1, nil}
		}
		if !types.Comparable(x.t.t) {
			w.runtimePanic("hash of unhashable type " + w.typeStr(x.t))
		}
		h := w.hashKey(x.t, w.unbox(x))
		if h == nil {
			return nil
		}
		return ikey{x.t.id, h}
	case *Agg:
		s := ""
		for i, f := range x.f {
			er := r.elem
			if r.kind == kStruct {
				er = r.fields[i]
			}
			h := w.hashKey(er, f)
			if h == nil {
				return nil
			}
			if p, ok := h.(Ptr); ok {
				h = fakeAddr(p)
			}
			s += fmt.Sprintf("%T:%v|", h, h)
		}
		return ikey{-2, s}
	}
	return nil
}

func (w *Worker) mapFind(r *RT, m *MapData, key Value) int {
	h := w.hashKey(r.key, key)
	if h != nil {
		if i, ok := m.idx[h]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	for i := range m.keys {
		if !m.live[i] {
			continue
		}
		if h != nil && w.hashKey(r.key, m.keys[i]) != nil {
			continue
		}
		if w.branchV(w.eq(r.key, m.keys[i], key)) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapGet(r *RT, p Ptr, key Value) (Value, bool) {
	w.elemRT(r)
	if p.o == nil {
		return w.zero(r.elem), false
	}
	if p.o.m == nil {
		w.memFault("map operation on memory that is not a map")
	}
	if w.hbOn {
		w.hbMap(p.o, false)
	}
	if i := w.mapFind(r, p.o.m, key); i >= 0 {
		return p.o.m.vals[i], true
	}
	return w.zero(r.elem), false
}

func (w *Worker) mapSet(r *RT, p Ptr, key, val Value) {
	w.elemRT(r)
	if p.o == nil {
		panic(&TargetPanic{v: w.mkIface(w.rt(w.P.pkgs["runtime"].Type("plainError").Type()), "assignment to entry in nil map"), msg: "assignment to entry in nil map", trace: w.where()})
	}
	if p.o.m == nil {
		w.memFault("map operation on memory that is not a map")
	}
	if w.hbOn {
		w.hbMap(p.o, true)
	}
	i := w.mapFind(r, p.o.m, key)
	w.touch(p.o)
	m := p.o.m
	if i >= 0 {
		m.vals[i] = val
		return
	}
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, val)
	m.live = append(m.live, true)
	m.n++
	if h := w.hashKey(r.key, key); h != nil {
		m.idx[h] = len(m.keys) - 1
	} else {
		m.nsym++
	}
}

func (w *Worker) mapDelete(r *RT, p Ptr, key Value) {
	w.elemRT(r)
	if p.o == nil {
		return
	}
	if w.hbOn {
		w.hbMap(p.o, true)
	}
	i := w.mapFind(r, p.o.m, key)
	if i < 0 {
		return
	}
	w.touch(p.o)
	m := p.o.m
	m.live[i] = false
	m.n--
	if h := w.hashKey(r.key, m.keys[i]); h != nil {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
}

func (w *Worker) lookup(k *instr, a, b Value) Value {
	if k.t.kind == kString {
		i := w.idx64(b, k.t2)
		w.boundIdx(i, strLen(a))
		if u, ok := i.(uint64); ok {
			return strAt(a, int(u))
		}
		return w.iteTable(i.(*Term), 64, strBytes(a), w.rtByte)
	}
	v, ok := w.mapGet(k.t, a.(Ptr), b)
	if k.flag {
		return []Value{v, ok}
	}
	return v
}

// ---- channels (single-threaded use only) ----

func (w *Worker) chanSend(p Ptr, v Value) {
	if p.o == nil {
		panic(abortPath{"limit", "send on nil channel blocks forever"})
	}
	c := p.o.ch
	if c.closed {
		w.runtimePanic("send on closed channel")
	}
	if len(c.q) >= c.cap {
		unsupported("blocking channel send")
	}
	c.q = append(c.q, v)
}

func (w *Worker) chanRecv(p Ptr, r *RT) (Value, bool) {
	if p.o == nil {
		panic(abortPath{"limit", "receive on nil channel blocks forever"})
	}
	c := p.o.ch
	if len(c.q) > 0 {
		v := c.q[0]
		c.q = c.q[1:]
		return v, true
	}
	if c.closed {
		return w.zero(r), false
	}
	unsupported("blocking channel receive")
	return nil, false
}

// ---- builtins ----

func (w *Worker) builtin(fr *frame, k *instr, b *ssa.Builtin, args []Value) Value {
	switch b.Name() {
	case "append":
		er := w.elemRT(k.t)
		dst := args[0].(Slice)
		if len(args) == 1 {
			return dst
		}
		if _, ok := args[1].(Slice); !ok { // append([]byte, string...)
			bs := strBytes(args[1])
			dst = w.growSlice(dst, len(bs), er)
			w.touchW(dst.p, len(bs))
			for i, x := range bs {
				dst.p.o.cells[dst.p.off+dst.len+i] = x
			}
			dst.len += len(bs)
			return dst
		}
		src := args[1].(Slice)
		if src.len == 0 {
			return dst
		}
		dst = w.growSlice(dst, src.len, er)
		w.memmove(Ptr{dst.p.o, dst.p.off + dst.len*er.size}, src.p, src.len*er.size)
		dst.len += src.len
		return dst
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.cap)
		case *Agg:
			return uint64(len(x.f))
		case Ptr:
			if k.t.kind == kChan {
				if x.o == nil {
					return uint64(0)
				}
				return uint64(x.o.ch.cap)
			}
			return uint64(w.elemRT(k.t).n)
		}
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return uint64(x.len)
		case string, *SymStr:
			return uint64(strLen(x))
		case *Agg:
			return uint64(len(x.f))
		case Ptr:
			switch k.t.kind {
			case kMap:
				if x.o == nil {
					return uint64(0)
				}
				if x.o.m == nil {
					w.memFault("len of memory that is not a map")
				}
				if w.hbOn {
					w.hbMap(x.o, false)
				}
				return uint64(x.o.m.n)
			case kChan:
				if x.o == nil {
					return uint64(0)
				}
				return uint64(len(x.o.ch.q))
			}
			return uint64(w.elemRT(k.t).n)
		}
	case "copy":
		dst := args[0].(Slice)
		er := w.elemRT(k.t)
		if src, ok := args[1].(Slice); ok {
			n := src.len
			if dst.len < n {
				n = dst.len
			}
			if n > 0 {
				w.memmove(dst.p, src.p, n*er.size)
			}
			return uint64(n)
		}
		bs := strBytes(args[1])
		n := len(bs)
		if dst.len < n {
			n = dst.len
		}
		if n > 0 {
			if dst.p.o.lay == w.layByte {
				w.checkAccess(dst.p, n, true)
				if w.hbOn {
					w.hbAccess(dst.p, n, true)
				}
				w.touch(dst.p.o)
				copy(dst.p.o.cells[dst.p.off:dst.p.off+n], bs[:n])
			} else {
				w.storeBytes(dst.p, bs[:n])
			}
		}
		return uint64(n)
	case "delete":
		w.mapDelete(k.t, args[0].(Ptr), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case Ptr:
			if x.o != nil {
				w.touch(x.o)
				x.o.m = &MapData{idx: map[Value]int{}}
			}
		case Slice:
			er := w.elemRT(k.t)
			for i := 0; i < x.len; i++ {
				w.store(Ptr{x.p.o, x.p.off + i*er.size}, er, w.zero(er))
			}
		}
		return nil
	case "close":
		args[0].(Ptr).o.ch.closed = true
		return nil
	case "panic":
		v := args[0].(Iface)
		panic(&TargetPanic{v: v, msg: w.panicMsg(v), trace: w.where()})
	case "recover":
		// the deferred function's frame is fr; the panicking frame is its caller
		c := fr.caller
		if c != nil && c.panicking != nil {
			v := c.panicking.v
			w.path.lastPanic = c.panicking
			c.panicking = nil
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		acc := args[0]
		for _, x := range args[1:] {
			var lt Value
			switch k.t.cls {
			case cInt:
				lt = w.intOp(token.LSS, k.t, k.t, x, acc)
			case cString:
				lt = w.strLess(x, acc)
			default:
				if xf, ok := x.(float64); ok {
					if af, ok := acc.(float64); ok {
						if b.Name() == "min" {
							acc = math.Min(af, xf)
						} else {
							acc = math.Max(af, xf)
						}
						continue
					}
				}
				unsupported("min/max of floats")
			}
			t := w.branchV(lt)
			if t == (b.Name() == "min") {
				acc = x
			}
		}
		return acc
	case "ssa:wrapnilchk":
		if args[0].(Ptr).o == nil {
			w.runtimePanic("value method called using nil pointer")
		}
		return args[0]
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "Add":
		p := args[0].(Ptr)
		switch x := args[1].(type) {
		case uint64:
			return Ptr{p.o, p.off + int(int64(x))}
		case *Term:
			return Ptr{p.o, p.off + int(w.symOffset(p, w.p.Sext(64, x)))}
		}
	case "Slice":
		n := int(w.concInt(args[1]))
		return Slice{args[0].(Ptr), n, n}
	case "SliceData":
		return args[0].(Slice).p
	case "String":
		p, n := args[0].(Ptr), int(w.concInt(args[1]))
		if fr == nil || !isRepoFn(fr.fn.fn) { // the library never changes bytes it has made a string of
			return w.strFrom(p, n)
		}
		return w.strAlias(p, n)
	case "StringData":
		return w.strPtr(args[0])
	case "Sizeof":
		return uint64(k.t.size)
	}
	unsupported("builtin %s(%v)", b.Name(), k.t)
	return nil
}

func (w *Worker) touchW(p Ptr, n int) {
	if p.o != nil {
		w.touch(p.o)
	}
}

func (w *Worker) growSlice(s Slice, n int, er *RT) Slice {
	need := s.len + n
	if need <= s.cap {
		return s
	}
	nc := s.cap * 2
	if s.cap > 256 {
		nc = s.cap + (s.cap+768)/4
	}
	if nc < need {
		nc = need
	}
	// round small byte sizes up as the Go allocator does
	if er.size > 0 {
		b := nc * er.size
		for _, c := range sizeClasses {
			if b <= c {
				nc = c / er.size
				break
			}
		}
	}
	o := w.alloc(er, nc)
	ns := Slice{Ptr{o, 0}, s.len, nc}
	if s.len > 0 {
		w.memmove(ns.p, s.p, s.len*er.size)
	}
	return ns
}

var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}
