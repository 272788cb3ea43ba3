package main

// Model of package reflect over RT descriptors and the byte-addressed memory.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// RVal is a reflect.Value.
type RVal struct {
	t     *RT
	p     Ptr // the word itself (direct types) or the address of the data
	indir bool
	addr  bool // addressable / settable
	ro    bool
}

func (w *Worker) rvalWord(v RVal) Value { return v.p }

func (w *Worker) rvGet(v RVal) Value {
	if v.indir {
		return w.load(v.p, v.t)
	}
	return w.fromWord(v.t, v.p)
}

// rvOf wraps a value of static type r as a non-addressable reflect.Value.
func (w *Worker) rvOf(r *RT, v Value) RVal {
	if r.direct {
		return RVal{t: r, p: w.toWord(r, v).(Ptr)}
	}
	o := w.alloc(r, 1)
	hb := w.hbOn
	w.hbOn = false
	w.store(Ptr{o, 0}, r, v)
	w.hbOn = hb
	return RVal{t: r, p: Ptr{o, 0}, indir: true}
}

func (w *Worker) rvFromIface(i Iface) RVal {
	if i.t == nil {
		return RVal{}
	}
	p, _ := i.w.(Ptr)
	return RVal{t: i.t, p: p, indir: !i.t.direct}
}

// rvIface packs the value into an interface (reflect.Value.Interface).
func (w *Worker) rvIface(v RVal) Iface {
	if v.t == nil {
		w.strPanic("reflect.Value.Interface: zero Value")
	}
	if v.t.kind == kInterface {
		return w.rvGet(v).(Iface)
	}
	if v.t.direct {
		x := w.rvGet(v)
		return Iface{v.t, w.toWord(v.t, x)}
	}
	if !v.addr {
		return Iface{v.t, v.p}
	}
	return w.mkIface(v.t, w.rvGet(v)).(Iface)
}

func (w *Worker) strPanic(msg string) {
	panic(&TargetPanic{v: w.mkIface(w.rtString, msg), msg: msg, trace: w.where()})
}

func (w *Worker) mkType(r *RT) Value {
	if r == nil {
		return Iface{}
	}
	return Iface{w.rtRtype, Ptr{w.rtObj(r), 0}}
}

func (w *Worker) typeArg(v Value) *RT {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		return w.typeArg(x.w)
	case Ptr:
		if x.o == nil {
			w.runtimePanic("invalid memory address or nil pointer dereference")
		}
		if x.o.rt == nil {
			w.memFault("type descriptor expected")
		}
		return x.o.rt
	}
	unsupported("type argument %T", v)
	return nil
}

// typeStr formats a type the way reflect does.
func (w *Worker) typeStr(r *RT) string {
	if r.str == "" {
		r.str = typeString(r.t)
	}
	return r.str
}

func typeString(t types.Type) string {
	t = types.Unalias(t)
	switch x := t.(type) {
	case *types.Named:
		n := x.Obj().Name()
		if a := x.TypeArgs(); a != nil && a.Len() > 0 {
			var s []string
			for i := 0; i < a.Len(); i++ {
				s = append(s, typeString(a.At(i)))
			}
			n += "[" + strings.Join(s, ",") + "]"
		}
		if x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Name() + "." + n
		}
		return n
	case *types.Basic:
		if x.Kind() == types.UnsafePointer {
			return "unsafe.Pointer"
		}
		return types.Default(x).(*types.Basic).Name()
	case *types.Pointer:
		return "*" + typeString(x.Elem())
	case *types.Slice:
		return "[]" + typeString(x.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", x.Len(), typeString(x.Elem()))
	case *types.Map:
		return "map[" + typeString(x.Key()) + "]" + typeString(x.Elem())
	case *types.Chan:
		return "chan " + typeString(x.Elem())
	case *types.Interface:
		if x.NumMethods() == 0 {
			return "interface {}"
		}
		var s []string
		for i := 0; i < x.NumMethods(); i++ {
			s = append(s, x.Method(i).Name()+strings.TrimPrefix(typeString(x.Method(i).Type()), "func"))
		}
		return "interface { " + strings.Join(s, "; ") + " }"
	case *types.Struct:
		if x.NumFields() == 0 {
			return "struct {}"
		}
		var s []string
		for i := 0; i < x.NumFields(); i++ {
			f := x.Field(i)
			p := f.Name() + " " + typeString(f.Type())
			if f.Embedded() {
				p = typeString(f.Type())
			}
			if x.Tag(i) != "" {
				p += fmt.Sprintf(" %q", x.Tag(i))
			}
			s = append(s, p)
		}
		return "struct { " + strings.Join(s, "; ") + " }"
	case *types.Signature:
		var in []string
		for i := 0; i < x.Params().Len(); i++ {
			p := typeString(x.Params().At(i).Type())
			if x.Variadic() && i == x.Params().Len()-1 {
				p = "..." + strings.TrimPrefix(p, "[]")
			}
			in = append(in, p)
		}
		s := "func(" + strings.Join(in, ", ") + ")"
		var out []string
		for i := 0; i < x.Results().Len(); i++ {
			out = append(out, typeString(x.Results().At(i).Type()))
		}
		if len(out) == 1 {
			s += " " + out[0]
		} else if len(out) > 1 {
			s += " (" + strings.Join(out, ", ") + ")"
		}
		return s
	}
	return t.String()
}

func (w *Worker) structField(r *RT, i int) Value {
	st := r.t.Underlying().(*types.Struct)
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	idx := w.alloc(w.rtInt, 1)
	idx.cells[0] = uint64(i)
	return &Agg{f: []Value{f.Name(), pkg, w.mkType(w.rt(f.Type())), st.Tag(i), uint64(r.offs[i]), Slice{Ptr{idx, 0}, 1, 1}, f.Embedded()}}
}

func (w *Worker) rtStructField() *RT { return w.rt(w.P.pkgs["reflect"].Type("StructField").Type()) }

// findField resolves a (possibly promoted) field by name.
func (w *Worker) findField(r *RT, name string) (Value, bool) {
	obj, index, _ := types.LookupFieldOrMethod(r.t, false, fieldPkg(r.t), name)
	v, ok := obj.(*types.Var)
	if !ok || v == nil {
		return nil, false
	}
	cur := r
	var sf Value
	for n, i := range index {
		if cur.kind == kPointer {
			cur = w.elemRT(cur)
		}
		sf = w.structField(cur, i)
		if n < len(index)-1 {
			cur = cur.fields[i]
		}
	}
	ix := w.alloc(w.rtInt, len(index))
	for n, i := range index {
		ix.cells[n] = uint64(i)
	}
	a := sf.(*Agg)
	a.f[5] = Slice{Ptr{ix, 0}, len(index), len(index)}
	return a, true
}

func fieldPkg(t types.Type) *types.Package {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
		return s.Field(0).Pkg()
	}
	return nil
}

// methodsOf lists the exported methods in reflect order.
func (w *Worker) methodsOf(r *RT) []*types.Selection {
	w.P.mu.Lock()
	defer w.P.mu.Unlock()
	if r.mset == nil {
		r.mset = w.prog.MethodSets.MethodSet(r.t)
	}
	var out []*types.Selection
	for i := 0; i < r.mset.Len(); i++ {
		if s := r.mset.At(i); s.Obj().Exported() {
			out = append(out, s)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Obj().Name() < out[j].Obj().Name() })
	return out
}

func (w *Worker) sigNoRecv(f *types.Func) *types.Signature {
	s := f.Type().(*types.Signature)
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

// mkMethod builds a reflect.Method.
func (w *Worker) mkMethod(r *RT, i int, s *types.Selection) Value {
	f := s.Obj().(*types.Func)
	if r.kind == kInterface {
		return &Agg{f: []Value{f.Name(), "", w.mkType(w.rt(w.sigNoRecv(f))), RVal{}, uint64(i)}}
	}
	sig := f.Type().(*types.Signature)
	params := []*types.Var{types.NewVar(token.NoPos, nil, "", r.t)}
	for k := 0; k < sig.Params().Len(); k++ {
		params = append(params, types.NewVar(token.NoPos, nil, "", sig.Params().At(k).Type()))
	}
	ft := w.rt(types.NewSignatureType(nil, nil, nil, types.NewTuple(params...), sig.Results(), sig.Variadic()))
	fn := w.method(r, f)
	return &Agg{f: []Value{f.Name(), "", w.mkType(ft), RVal{t: ft, p: w.newClosure(&Closure{fn: fn})}, uint64(i)}}
}

func (w *Worker) rvMethod(v RVal, s *types.Selection) RVal {
	f := s.Obj().(*types.Func)
	recv := w.rvGet(v)
	rt := v.t
	if rt.kind == kInterface {
		i := recv.(Iface)
		if i.t == nil {
			w.strPanic("reflect: Method on nil interface value")
		}
		rt = i.t
		recv = w.unbox(i)
	}
	fn := w.method(rt, f)
	ft := w.rt(w.sigNoRecv(f))
	p := w.newClosure(&Closure{nat: func(w *Worker, args []Value) Value {
		return w.callFn(w.cur, w.getFn(fn), append([]Value{recv}, args...), nil)
	}})
	return RVal{t: ft, p: p}
}

func (w *Worker) assignable(from, to *RT) bool {
	if from == to {
		return true
	}
	if to.kind == kInterface {
		return w.implements(from, to)
	}
	implMu.Lock()
	defer implMu.Unlock()
	return types.AssignableTo(from.t, to.t)
}

// rvAssign converts v for assignment to type to.
func (w *Worker) rvAssign(ctx string, v RVal, to *RT) Value {
	if v.t == nil {
		w.strPanic(ctx + ": value of type nil is not assignable to type " + w.typeStr(to))
	}
	if !w.assignable(v.t, to) {
		w.strPanic(ctx + ": value of type " + w.typeStr(v.t) + " is not assignable to type " + w.typeStr(to))
	}
	if to.kind == kInterface {
		if v.t.kind == kInterface {
			return w.rvGet(v)
		}
		return w.rvIface(v)
	}
	return w.rvGet(v)
}

func (w *Worker) rvSlice(s Slice) []RVal {
	out := make([]RVal, s.len)
	rv := w.rt(w.P.pkgs["reflect"].Type("Value").Type())
	for i := range out {
		out[i] = w.load(Ptr{s.p.o, s.p.off + i*rv.size}, rv).(RVal)
	}
	return out
}

func (w *Worker) mkRVSlice(vs []RVal) Slice {
	rv := w.rt(w.P.pkgs["reflect"].Type("Value").Type())
	o := w.alloc(rv, len(vs))
	for i, v := range vs {
		o.cells[i] = v
	}
	return Slice{Ptr{o, 0}, len(vs), len(vs)}
}

func (w *Worker) rvCall(fr *frame, v RVal, in []RVal) []RVal {
	if v.t == nil || v.t.kind != kFunc {
		w.strPanic("reflect: call of reflect.Value.Call on non-function Value")
	}
	p := w.rvGet(v).(Ptr)
	if p.o == nil {
		w.strPanic("reflect: call of nil function")
	}
	sig := v.t.t.Underlying().(*types.Signature)
	n := sig.Params().Len()
	if sig.Variadic() {
		if len(in) < n-1 {
			w.strPanic("reflect: Call with too few input arguments")
		}
	} else {
		if len(in) < n {
			w.strPanic("reflect: Call with too few input arguments")
		}
		if len(in) > n {
			w.strPanic("reflect: Call with too many input arguments")
		}
	}
	for _, x := range in {
		if x.t == nil {
			w.strPanic("reflect: Call using zero Value argument")
		}
	}
	m := n
	if sig.Variadic() {
		m--
	}
	args := make([]Value, 0, n)
	for i := 0; i < m; i++ {
		args = append(args, w.rvArg(in[i], w.rt(sig.Params().At(i).Type())))
	}
	if sig.Variadic() {
		st := w.rt(sig.Params().At(n - 1).Type())
		er := w.elemRT(st)
		rest := in[m:]
		o := w.alloc(er, len(rest))
		for i, x := range rest {
			w.store(Ptr{o, i * er.size}, er, w.rvArg(x, er))
		}
		args = append(args, Slice{Ptr{o, 0}, len(rest), len(rest)})
	}
	if p.o.fn == nil {
		w.memFault("call through a pointer that is not a function")
	}
	res := w.callClosure(fr, p.o.fn, args)
	nr := sig.Results().Len()
	out := make([]RVal, nr)
	for i := range out {
		rt := w.rt(sig.Results().At(i).Type())
		x := res
		if nr > 1 {
			x = res.([]Value)[i]
		}
		out[i] = w.rvOf(rt, x)
	}
	return out
}

func (w *Worker) rvArg(v RVal, to *RT) Value {
	if !w.assignable(v.t, to) {
		w.strPanic("reflect: Call using " + w.typeStr(v.t) + " as type " + w.typeStr(to))
	}
	return w.rvAssign("reflect.Value.Call", v, to)
}

func (w *Worker) kindPanic(m string, v RVal) {
	k := "zero"
	if v.t != nil {
		k = kindNames[v.t.kind]
	}
	w.strPanic("reflect: call of " + m + " on " + k + " Value")
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr", "float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func (w *Worker) typeName(r *RT) string {
	switch t := types.Unalias(r.t).(type) {
	case *types.Named:
		s := w.typeStr(r)
		if i := strings.LastIndex(s, "."); i >= 0 && t.TypeArgs() == nil {
			return s[i+1:]
		}
		return s
	case *types.Basic:
		s := w.typeStr(r)
		if s == "unsafe.Pointer" {
			return "Pointer"
		}
		return s
	}
	return ""
}

type intrFn func(w *Worker, fr *frame, a []Value) Value

func init() {
	T := func(name string, f func(w *Worker, fr *frame, r *RT, a []Value) Value) {
		intrinsics["(*reflect.rtype)."+name] = func(w *Worker, fr *frame, a []Value) Value {
			return f(w, fr, w.typeArg(a[0]), a[1:])
		}
	}
	V := func(name string, f func(w *Worker, fr *frame, v RVal, a []Value) Value) {
		intrinsics["(reflect.Value)."+name] = func(w *Worker, fr *frame, a []Value) Value {
			return f(w, fr, a[0].(RVal), a[1:])
		}
	}
	F := func(name string, f intrFn) { intrinsics["reflect."+name] = f }

	T("Kind", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(r.kind) })
	T("String", func(w *Worker, fr *frame, r *RT, a []Value) Value { return w.typeStr(r) })
	T("Name", func(w *Worker, fr *frame, r *RT, a []Value) Value { return w.typeName(r) })
	T("PkgPath", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		if n, ok := types.Unalias(r.t).(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	})
	T("Size", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(r.size) })
	T("Bits", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(r.size * 8) })
	T("Align", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(w.sizes.Alignof(r.t)) })
	T("FieldAlign", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(w.sizes.Alignof(r.t)) })
	T("Comparable", func(w *Worker, fr *frame, r *RT, a []Value) Value { return types.Comparable(r.t) })
	T("Elem", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		switch r.kind {
		case kArray:
			return w.mkType(r.elem)
		case kPointer, kSlice, kMap, kChan:
			return w.mkType(w.elemRT(r))
		}
		w.strPanic("reflect: Elem of invalid type " + w.typeStr(r))
		return nil
	})
	T("Key", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		if r.kind != kMap {
			w.strPanic("reflect: Key of non-map type " + w.typeStr(r))
		}
		w.elemRT(r)
		return w.mkType(r.key)
	})
	T("Len", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(r.n) })
	T("NumField", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		if r.kind != kStruct {
			w.strPanic("reflect: NumField of non-struct type " + w.typeStr(r))
		}
		return uint64(r.t.Underlying().(*types.Struct).NumFields())
	})
	T("Field", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		i := int(w.concInt(a[0]))
		if r.kind != kStruct {
			w.strPanic("reflect: Field of non-struct type " + w.typeStr(r))
		}
		if i < 0 || i >= r.t.Underlying().(*types.Struct).NumFields() {
			w.strPanic("reflect: Field index out of bounds")
		}
		return w.structField(r, i)
	})
	T("FieldByName", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		if r.kind != kStruct {
			w.strPanic("reflect: FieldByName of non-struct type " + w.typeStr(r))
		}
		name := w.matchName(a[0], fieldNames(r.t, nil, 0))
		if f, ok := w.findField(r, name); ok {
			return []Value{f, true}
		}
		return []Value{w.zero(w.rtStructField()), false}
	})
	T("NumMethod", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		if r.kind == kInterface {
			return uint64(r.t.Underlying().(*types.Interface).NumMethods())
		}
		return uint64(len(w.methodsOf(r)))
	})
	T("Method", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		i := int(w.concInt(a[0]))
		ms := w.methodsOf(r)
		if i < 0 || i >= len(ms) {
			w.strPanic("reflect: Method index out of range")
		}
		return w.mkMethod(r, i, ms[i])
	})
	T("MethodByName", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		name := w.matchName(a[0], w.methodNames(r))
		for i, s := range w.methodsOf(r) {
			if s.Obj().Name() == name {
				return []Value{w.mkMethod(r, i, s), true}
			}
		}
		return []Value{w.zero(w.rt(w.P.pkgs["reflect"].Type("Method").Type())), false}
	})
	sig := func(w *Worker, r *RT) *types.Signature {
		s, ok := r.t.Underlying().(*types.Signature)
		if !ok {
			w.strPanic("reflect: NumIn of non-func type " + w.typeStr(r))
		}
		return s
	}
	T("NumIn", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(sig(w, r).Params().Len()) })
	T("NumOut", func(w *Worker, fr *frame, r *RT, a []Value) Value { return uint64(sig(w, r).Results().Len()) })
	T("In", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		s := sig(w, r)
		i := int(w.concInt(a[0]))
		if i < 0 || i >= s.Params().Len() {
			w.runtimePanic("index out of range")
		}
		return w.mkType(w.rt(s.Params().At(i).Type()))
	})
	T("Out", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		s := sig(w, r)
		i := int(w.concInt(a[0]))
		if i < 0 || i >= s.Results().Len() {
			w.runtimePanic("index out of range")
		}
		return w.mkType(w.rt(s.Results().At(i).Type()))
	})
	T("IsVariadic", func(w *Worker, fr *frame, r *RT, a []Value) Value { return sig(w, r).Variadic() })
	T("Implements", func(w *Worker, fr *frame, r *RT, a []Value) Value { return w.implements(r, w.typeArg(a[0])) })
	T("AssignableTo", func(w *Worker, fr *frame, r *RT, a []Value) Value { return w.assignable(r, w.typeArg(a[0])) })
	T("ConvertibleTo", func(w *Worker, fr *frame, r *RT, a []Value) Value {
		return types.ConvertibleTo(r.t, w.typeArg(a[0]).t)
	})

	F("TypeOf", func(w *Worker, fr *frame, a []Value) Value { return w.mkType(a[0].(Iface).t) })
	F("ValueOf", func(w *Worker, fr *frame, a []Value) Value { return w.rvFromIface(a[0].(Iface)) })
	F("New", func(w *Worker, fr *frame, a []Value) Value {
		r := w.typeArg(a[0])
		o := w.alloc(r, 1)
		return RVal{t: w.rt(types.NewPointer(r.t)), p: Ptr{o, 0}}
	})
	F("NewAt", func(w *Worker, fr *frame, a []Value) Value {
		r := w.typeArg(a[0])
		return RVal{t: w.rt(types.NewPointer(r.t)), p: a[1].(Ptr)}
	})
	F("Zero", func(w *Worker, fr *frame, a []Value) Value {
		r := w.typeArg(a[0])
		return w.rvOf(r, w.zero(r))
	})
	ptrTo := func(w *Worker, fr *frame, a []Value) Value {
		return w.mkType(w.rt(types.NewPointer(w.typeArg(a[0]).t)))
	}
	F("PtrTo", ptrTo)
	F("PointerTo", ptrTo)
	F("SliceOf", func(w *Worker, fr *frame, a []Value) Value {
		return w.mkType(w.rt(types.NewSlice(w.typeArg(a[0]).t)))
	})
	F("ArrayOf", func(w *Worker, fr *frame, a []Value) Value {
		return w.mkType(w.rt(types.NewArray(w.typeArg(a[1]).t, int64(w.concInt(a[0])))))
	})
	F("MapOf", func(w *Worker, fr *frame, a []Value) Value {
		k := w.typeArg(a[0])
		if !types.Comparable(k.t) {
			w.strPanic("reflect.MapOf: invalid key type " + w.typeStr(k))
		}
		return w.mkType(w.rt(types.NewMap(k.t, w.typeArg(a[1]).t)))
	})
	F("StructOf", func(w *Worker, fr *frame, a []Value) Value {
		s := a[0].(Slice)
		sf := w.rtStructField()
		var fs []*types.Var
		var tags []string
		seen := map[string]bool{}
		for i := 0; i < s.len; i++ {
			f := w.load(Ptr{s.p.o, s.p.off + i*sf.size}, sf).(*Agg)
			name := w.concStr(f.f[0])
			pkgPath := w.concStr(f.f[1])
			if name == "" {
				w.strPanic("reflect.StructOf: field " + fmt.Sprint(i) + " has no name")
			}
			if !validFieldName(name) {
				w.strPanic("reflect.StructOf: field " + fmt.Sprint(i) + " has invalid name")
			}
			if f.f[2].(Iface).t == nil {
				w.strPanic("reflect.StructOf: field " + fmt.Sprint(i) + " has no type")
			}
			if !token.IsExported(name) && pkgPath == "" {
				w.strPanic("reflect.StructOf: field \"" + name + "\" is unexported but missing PkgPath")
			}
			if seen[name] && name != "_" {
				w.strPanic("reflect.StructOf: duplicate field " + name)
			}
			seen[name] = true
			var pkg *types.Package
			if pkgPath != "" {
				pkg = w.synthPkg(pkgPath)
			}
			fs = append(fs, types.NewField(token.NoPos, pkg, name, w.typeArg(f.f[2]).t, w.branchV(f.f[6])))
			tags = append(tags, w.concStr(f.f[3]))
		}
		return w.mkType(w.rt(types.NewStruct(fs, tags)))
	})
	F("MakeMap", func(w *Worker, fr *frame, a []Value) Value {
		return RVal{t: w.typeArg(a[0]), p: w.newMap()}
	})
	F("MakeMapWithSize", func(w *Worker, fr *frame, a []Value) Value {
		return RVal{t: w.typeArg(a[0]), p: w.newMap()}
	})
	F("MakeSlice", func(w *Worker, fr *frame, a []Value) Value {
		r := w.typeArg(a[0])
		er := w.elemRT(r)
		n, c := int(w.concInt(a[1])), int(w.concInt(a[2]))
		return w.rvOf(r, Slice{Ptr{w.alloc(er, c), 0}, n, c})
	})
	F("Copy", func(w *Worker, fr *frame, a []Value) Value {
		d, s := w.rvGet(a[0].(RVal)).(Slice), w.rvGet(a[1].(RVal)).(Slice)
		n := d.len
		if s.len < n {
			n = s.len
		}
		er := w.elemRT(a[0].(RVal).t)
		if n > 0 {
			w.memmove(d.p, s.p, n*er.size)
		}
		return uint64(n)
	})
	F("Indirect", func(w *Worker, fr *frame, a []Value) Value {
		v := a[0].(RVal)
		if v.t == nil || v.t.kind != kPointer {
			return v
		}
		return intrinsics["(reflect.Value).Elem"](w, fr, a)
	})
	F("Append", func(w *Worker, fr *frame, a []Value) Value {
		v := a[0].(RVal)
		er := w.elemRT(v.t)
		s := w.rvGet(v).(Slice)
		for _, x := range w.rvSlice(a[1].(Slice)) {
			s = w.growSlice(s, 1, er)
			w.store(Ptr{s.p.o, s.p.off + s.len*er.size}, er, w.rvAssign("reflect.Append", x, er))
			s.len++
		}
		return w.rvOf(v.t, s)
	})
	F("DeepEqual", func(w *Worker, fr *frame, a []Value) Value {
		x, y := a[0].(Iface), a[1].(Iface)
		if x.t == nil || y.t == nil || x.t != y.t {
			return x.t == y.t
		}
		return w.deepEq(x.t, w.unbox(x), w.unbox(y), 0)
	})

	V("IsValid", func(w *Worker, fr *frame, v RVal, a []Value) Value { return v.t != nil })
	V("Kind", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			return uint64(0)
		}
		return uint64(v.t.kind)
	})
	V("Type", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.strPanic("reflect: call of reflect.Value.Type on zero Value")
		}
		return w.mkType(v.t)
	})
	V("Interface", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.ro {
			w.strPanic("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return w.rvIface(v)
	})
	V("CanInterface", func(w *Worker, fr *frame, v RVal, a []Value) Value { return !v.ro })
	V("CanAddr", func(w *Worker, fr *frame, v RVal, a []Value) Value { return v.addr })
	V("CanSet", func(w *Worker, fr *frame, v RVal, a []Value) Value { return v.addr && !v.ro })
	V("Elem", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.kindPanic("reflect.Value.Elem", v)
		}
		switch v.t.kind {
		case kInterface:
			return w.rvFromIface(w.rvGet(v).(Iface))
		case kPointer:
			p := w.rvGet(v).(Ptr)
			if p.o == nil && p.off == 0 {
				return RVal{}
			}
			return RVal{t: w.elemRT(v.t), p: p, indir: true, addr: true, ro: v.ro}
		}
		w.kindPanic("reflect.Value.Elem", v)
		return nil
	})
	V("Addr", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if !v.addr {
			w.strPanic("reflect.Value.Addr of unaddressable value")
		}
		return RVal{t: w.rt(types.NewPointer(v.t.t)), p: v.p, ro: v.ro}
	})
	unsafeAddr := func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if !v.addr {
			w.strPanic("reflect.Value.UnsafeAddr of unaddressable value")
		}
		return v.p
	}
	V("UnsafeAddr", unsafeAddr)
	pointer := func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.kindPanic("reflect.Value.Pointer", v)
		}
		switch v.t.kind {
		case kPointer, kMap, kChan, kFunc, kUnsafePointer:
			p := w.rvGet(v).(Ptr)
			return p
		case kSlice:
			return w.rvGet(v).(Slice).p
		case kString:
			return w.strPtr(w.rvGet(v))
		}
		w.kindPanic("reflect.Value.Pointer", v)
		return nil
	}
	V("Pointer", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		p := pointer(w, fr, v, a).(Ptr)
		if p.o == nil {
			return uint64(p.off)
		}
		return p
	})
	V("UnsafePointer", pointer)
	V("IsNil", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t != nil {
			switch v.t.kind {
			case kPointer, kMap, kChan, kFunc, kUnsafePointer:
				return w.rvGet(v).(Ptr) == Ptr{}
			case kSlice:
				return w.rvGet(v).(Slice).p == Ptr{}
			case kInterface:
				return w.rvGet(v).(Iface).t == nil
			}
		}
		w.kindPanic("reflect.Value.IsNil", v)
		return nil
	})
	V("IsZero", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.kindPanic("reflect.Value.IsZero", v)
		}
		return w.isZero(v.t, w.rvGet(v))
	})
	V("Len", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t != nil {
			switch v.t.kind {
			case kSlice:
				return uint64(w.rvGet(v).(Slice).len)
			case kString:
				return uint64(strLen(w.rvGet(v)))
			case kArray:
				return uint64(v.t.n)
			case kMap:
				p := w.rvGet(v).(Ptr)
				if p.o == nil {
					return uint64(0)
				}
				if p.o.m == nil {
					w.memFault("len of memory that is not a map")
				}
				return uint64(p.o.m.n)
			}
		}
		w.kindPanic("reflect.Value.Len", v)
		return nil
	})
	V("Cap", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t != nil && v.t.kind == kSlice {
			return uint64(w.rvGet(v).(Slice).cap)
		}
		w.kindPanic("reflect.Value.Cap", v)
		return nil
	})
	V("Index", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.kindPanic("reflect.Value.Index", v)
		}
		switch v.t.kind {
		case kSlice:
			s := w.rvGet(v).(Slice)
			er := w.elemRT(v.t)
			w.boundIdx(w.idx64(a[0], w.rtInt), s.len)
			i := int(w.concInt(a[0]))
			return RVal{t: er, p: Ptr{s.p.o, s.p.off + i*er.size}, indir: true, addr: true, ro: v.ro}
		case kString:
			s := w.rvGet(v)
			w.boundIdx(w.idx64(a[0], w.rtInt), strLen(s))
			return w.rvOf(w.rtByte, strAt(s, int(w.concInt(a[0]))))
		case kArray:
			w.boundIdx(w.idx64(a[0], w.rtInt), v.t.n)
			i := int(w.concInt(a[0]))
			if v.indir {
				return RVal{t: v.t.elem, p: Ptr{v.p.o, v.p.off + i*v.t.elem.size}, indir: true, addr: v.addr, ro: v.ro}
			}
			return w.rvOf(v.t.elem, w.rvGet(v).(*Agg).f[i])
		}
		w.kindPanic("reflect.Value.Index", v)
		return nil
	})
	V("NumField", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil || v.t.kind != kStruct {
			w.kindPanic("reflect.Value.NumField", v)
		}
		return uint64(len(v.t.fields))
	})
	field := func(w *Worker, v RVal, i int) RVal {
		f := v.t.t.Underlying().(*types.Struct).Field(i)
		ro := v.ro || !f.Exported()
		if v.indir {
			return RVal{t: v.t.fields[i], p: Ptr{v.p.o, v.p.off + v.t.offs[i]}, indir: true, addr: v.addr, ro: ro}
		}
		r := w.rvOf(v.t.fields[i], w.rvGet(v).(*Agg).f[i])
		r.ro = ro
		return r
	}
	V("Field", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil || v.t.kind != kStruct {
			w.kindPanic("reflect.Value.Field", v)
		}
		i := int(w.concInt(a[0]))
		if i < 0 || i >= len(v.t.fields) {
			w.strPanic("reflect: Field index out of range")
		}
		return field(w, v, i)
	})
	V("FieldByName", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil || v.t.kind != kStruct {
			w.kindPanic("reflect.Value.FieldByName", v)
		}
		nm := w.matchName(a[0], fieldNames(v.t.t, nil, 0))
		_, index, _ := types.LookupFieldOrMethod(v.t.t, false, fieldPkg(v.t.t), nm)
		sf, ok := w.findField(v.t, nm)
		if !ok || sf == nil {
			return RVal{}
		}
		cur := v
		for _, i := range index {
			if cur.t.kind == kPointer {
				p := w.rvGet(cur).(Ptr)
				if p.o == nil {
					w.strPanic("reflect: indirection through nil pointer to embedded struct")
				}
				cur = RVal{t: w.elemRT(cur.t), p: p, indir: true, addr: true, ro: cur.ro}
			}
			cur = field(w, cur, i)
		}
		return cur
	})
	V("NumMethod", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.kindPanic("reflect.Value.NumMethod", v)
		}
		return uint64(len(w.methodsOf(v.t)))
	})
	V("Method", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		ms := w.methodsOf(v.t)
		i := int(w.concInt(a[0]))
		if i < 0 || i >= len(ms) {
			w.strPanic("reflect: Method index out of range")
		}
		return w.rvMethod(v, ms[i])
	})
	V("MethodByName", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			w.kindPanic("reflect.Value.MethodByName", v)
		}
		name := w.matchName(a[0], w.methodNames(v.t))
		for _, s := range w.methodsOf(v.t) {
			if s.Obj().Name() == name {
				return w.rvMethod(v, s)
			}
		}
		return RVal{}
	})
	V("Call", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		return w.mkRVSlice(w.rvCall(fr, v, w.rvSlice(a[0].(Slice))))
	})
	set := func(w *Worker, v RVal, x RVal) {
		if !v.addr {
			w.strPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		if v.ro {
			w.strPanic("reflect: reflect.Value.Set using value obtained using unexported field")
		}
		w.store(v.p, v.t, w.rvAssign("reflect.Set", x, v.t))
	}
	V("Set", func(w *Worker, fr *frame, v RVal, a []Value) Value { set(w, v, a[0].(RVal)); return nil })
	V("SetInt", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		w.store(v.p, v.t, w.convert(w.rt(types.Typ[types.Int64]), v.t, a[0]))
		return nil
	})
	V("SetUint", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		w.store(v.p, v.t, w.convert(w.rt(types.Typ[types.Uint64]), v.t, a[0]))
		return nil
	})
	V("SetString", func(w *Worker, fr *frame, v RVal, a []Value) Value { w.store(v.p, v.t, a[0]); return nil })
	V("SetBool", func(w *Worker, fr *frame, v RVal, a []Value) Value { w.store(v.p, v.t, a[0]); return nil })
	V("SetFloat", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		w.store(v.p, v.t, w.convert(w.rtFloat64, v.t, a[0]))
		return nil
	})
	V("SetLen", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		s := w.rvGet(v).(Slice)
		s.len = int(w.concInt(a[0]))
		w.store(v.p, v.t, s)
		return nil
	})
	conv := func(m string, to types.BasicKind, ok func(k int) bool) {
		V(m, func(w *Worker, fr *frame, v RVal, a []Value) Value {
			if v.t == nil || !ok(v.t.kind) {
				w.kindPanic("reflect.Value."+m, v)
			}
			return w.convert(v.t, w.rt(types.Typ[to]), w.rvGet(v))
		})
	}
	isI := func(k int) bool { return k >= kInt && k <= kInt64 }
	isU := func(k int) bool { return k >= kUint && k <= kUintptr }
	isF := func(k int) bool { return k == kFloat32 || k == kFloat64 }
	conv("Int", types.Int64, isI)
	conv("Uint", types.Uint64, isU)
	conv("Float", types.Float64, isF)
	V("CanInt", func(w *Worker, fr *frame, v RVal, a []Value) Value { return v.t != nil && isI(v.t.kind) })
	V("CanUint", func(w *Worker, fr *frame, v RVal, a []Value) Value { return v.t != nil && isU(v.t.kind) })
	V("CanFloat", func(w *Worker, fr *frame, v RVal, a []Value) Value { return v.t != nil && isF(v.t.kind) })
	V("Bool", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil || v.t.kind != kBool {
			w.kindPanic("reflect.Value.Bool", v)
		}
		return w.rvGet(v)
	})
	V("String", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		if v.t == nil {
			return "<invalid Value>"
		}
		if v.t.kind == kString {
			return w.rvGet(v)
		}
		return "<" + w.typeStr(v.t) + " Value>"
	})
	mapOf := func(w *Worker, v RVal, m string) Ptr {
		if v.t == nil || v.t.kind != kMap {
			w.kindPanic("reflect.Value."+m, v)
		}
		w.elemRT(v.t)
		return w.rvGet(v).(Ptr)
	}
	V("MapIndex", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		p := mapOf(w, v, "MapIndex")
		k := w.rvAssign("reflect.Value.MapIndex", a[0].(RVal), v.t.key)
		x, ok := w.mapGet(v.t, p, k)
		if !ok {
			return RVal{}
		}
		return w.rvOf(v.t.elem, x)
	})
	V("SetMapIndex", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		p := mapOf(w, v, "SetMapIndex")
		k := w.rvAssign("reflect.Value.SetMapIndex", a[0].(RVal), v.t.key)
		if a[1].(RVal).t == nil {
			w.mapDelete(v.t, p, k)
			return nil
		}
		w.mapSet(v.t, p, k, w.rvAssign("reflect.Value.SetMapIndex", a[1].(RVal), v.t.elem))
		return nil
	})
	V("MapKeys", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		p := mapOf(w, v, "MapKeys")
		var out []RVal
		if p.o != nil {
			for i, k := range p.o.m.keys {
				if p.o.m.live[i] {
					out = append(out, w.rvOf(v.t.key, k))
				}
			}
		}
		return w.mkRVSlice(out)
	})
	V("Convert", func(w *Worker, fr *frame, v RVal, a []Value) Value {
		to := w.typeArg(a[0])
		if to.kind == kInterface {
			return w.rvOf(to, w.rvAssign("reflect.Value.Convert", v, to))
		}
		if !types.ConvertibleTo(v.t.t, to.t) {
			w.strPanic("reflect.Value.Convert: value of type " + w.typeStr(v.t) + " cannot be converted to type " + w.typeStr(to))
		}
		if v.t.isLeaf && to.isLeaf {
			return w.rvOf(to, w.convert(v.t, to, w.rvGet(v)))
		}
		return w.rvOf(to, w.rvGet(v))
	})
	V("Comparable", func(w *Worker, fr *frame, v RVal, a []Value) Value { return types.Comparable(v.t.t) })
	intrinsics["(reflect.Kind).String"] = func(w *Worker, fr *frame, a []Value) Value {
		k := w.concInt(a[0])
		if k < uint64(len(kindNames)) {
			return kindNames[k]
		}
		return "kind" + fmt.Sprint(k)
	}
}

func validFieldName(n string) bool {
	for i, c := range n {
		if i == 0 && !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c > 127) {
			return false
		}
		if !(c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c > 127) {
			return false
		}
	}
	return len(n) > 0
}

var synthPkgs = map[string]*types.Package{}

func (w *Worker) synthPkg(path string) *types.Package {
	if p, ok := w.P.pkgs[path]; ok {
		return p.Pkg
	}
	w.P.mu.Lock()
	defer w.P.mu.Unlock()
	if p, ok := synthPkgs[path]; ok {
		return p
	}
	n := path
	if i := strings.LastIndex(path, "/"); i >= 0 {
		n = path[i+1:]
	}
	p := types.NewPackage(path, n)
	synthPkgs[path] = p
	return p
}

func (w *Worker) isZero(r *RT, v Value) Value {
	switch {
	case r.isLeaf:
		switch r.cls {
		case cSlice:
			return v.(Slice).p == Ptr{}
		case cIface:
			return v.(Iface).t == nil
		case cString:
			return strLen(v) == 0
		}
		return w.eq(r, v, w.zero(r))
	}
	t := w.p.T
	for i, f := range v.(*Agg).f {
		er := r.elem
		if r.kind == kStruct {
			er = r.fields[i]
		}
		t = w.p.And(t, w.bt(w.isZero(er, f)))
	}
	return w.norm(t)
}

func (w *Worker) deepEq(r *RT, a, b Value, depth int) Value {
	if depth > 40 {
		unsupported("DeepEqual depth")
	}
	if !r.isLeaf {
		t := w.p.T
		x, y := a.(*Agg), b.(*Agg)
		for i := range x.f {
			er := r.elem
			if r.kind == kStruct {
				er = r.fields[i]
			}
			t = w.p.And(t, w.bt(w.deepEq(er, x.f[i], y.f[i], depth+1)))
		}
		return w.norm(t)
	}
	switch r.kind {
	case kSlice:
		x, y := a.(Slice), b.(Slice)
		if (x.p == Ptr{}) != (y.p == Ptr{}) || x.len != y.len {
			return false
		}
		er := w.elemRT(r)
		t := w.p.T
		for i := 0; i < x.len; i++ {
			t = w.p.And(t, w.bt(w.deepEq(er, w.load(Ptr{x.p.o, x.p.off + i*er.size}, er), w.load(Ptr{y.p.o, y.p.off + i*er.size}, er), depth+1)))
		}
		return w.norm(t)
	case kPointer:
		x, y := a.(Ptr), b.(Ptr)
		if x == y {
			return true
		}
		if x.o == nil || y.o == nil {
			return false
		}
		er := w.elemRT(r)
		return w.deepEq(er, w.load(x, er), w.load(y, er), depth+1)
	case kInterface:
		x, y := a.(Iface), b.(Iface)
		if x.t == nil || y.t == nil || x.t != y.t {
			return x.t == y.t
		}
		return w.deepEq(x.t, w.unbox(x), w.unbox(y), depth+1)
	case kMap:
		x, y := a.(Ptr), b.(Ptr)
		if x == y {
			return true
		}
		if x.o == nil || y.o == nil || x.o.m.n != y.o.m.n {
			return false
		}
		w.elemRT(r)
		t := w.p.T
		for i, k := range x.o.m.keys {
			if !x.o.m.live[i] {
				continue
			}
			v, ok := w.mapGet(r, y, k)
			if !ok {
				return false
			}
			t = w.p.And(t, w.bt(w.deepEq(r.elem, x.o.m.vals[i], v, depth+1)))
		}
		return w.norm(t)
	case kFunc:
		return a.(Ptr) == Ptr{} && b.(Ptr) == Ptr{}
	}
	return w.eq(r, a, b)
}

// concStr turns a symbolic string into a concrete one by enumerating its feasible values.
func (w *Worker) concStr(v Value) string {
	switch s := v.(type) {
	case string:
		return s
	case *SymStr:
		b := make([]byte, len(s.b))
		for i, x := range s.b {
			switch y := x.(type) {
			case uint64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(w.concretize(y))
			}
		}
		return string(b)
	}
	panic(fmt.Sprintf("concStr %T", v))
}

var _ = ssa.NaiveForm

// matchName resolves a possibly symbolic name against a finite set; "" when it equals none of them.
func (w *Worker) matchName(v Value, cands []string) string {
	if s, ok := v.(string); ok {
		return s
	}
	for _, c := range cands {
		if w.branchV(w.strEq(v, c)) {
			return c
		}
	}
	return ""
}

func (w *Worker) methodNames(r *RT) []string {
	var out []string
	for _, s := range w.methodsOf(r) {
		out = append(out, s.Obj().Name())
	}
	return out
}

func fieldNames(t types.Type, out []string, depth int) []string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok || depth > 6 {
		return out
	}
	for i := 0; i < st.NumFields(); i++ {
		out = append(out, st.Field(i).Name())
		if st.Field(i).Embedded() {
			out = fieldNames(st.Field(i).Type(), out, depth+1)
		}
	}
	return out
}
