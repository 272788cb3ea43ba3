package main

// Models of functions that are not executed from their SSA: the harness API,
// assembly-backed and runtime functions, synchronisation, formatting, and
// native shortcuts for pure standard-library functions on concrete arguments.

import (
	"fmt"
	"go/types"
	"html"
	"math"
	"os"
	"strconv"
	"strings"
	"time"
)

var intrinsics = map[string]func(w *Worker, fr *frame, args []Value) Value{}

const harnessPkg = "veltyverif"
const symPkg = "veltyverif/sym"

// library functions executed as Go models instead of their own code
const modelPkg = "veltyverif/model"

var modelled = map[string]string{
	"encoding/json.Marshal": "Marshal", "encoding/json.MarshalIndent": "MarshalIndent", "encoding/json.Unmarshal": "Unmarshal", "encoding/json.Valid": "Valid",
	"encoding/json.NewEncoder": "NewEncoder", "(*encoding/json.Encoder).Encode": "EncoderEncode", "(*encoding/json.Encoder).SetEscapeHTML": "EncoderSetEscapeHTML",
	"(*encoding/json.Encoder).SetIndent": "EncoderSetIndent", "encoding/json.NewDecoder": "NewDecoder", "(*encoding/json.Decoder).Decode": "DecoderDecode",
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "symgo: "+f+"\n", a...)
	os.Exit(2)
}

var allowedInit = map[string]bool{
	"strings": true, "bytes": true, "strconv": true, "unicode": true, "unicode/utf8": true, "html": true, "errors": true,
	"sort": true, "math": true, "math/bits": true, "io": true, "slices": true, "maps": true, "cmp": true, "iter": true, "internal/stringslite": true,
	"encoding/base64": true, "internal/itoa": true, "math/cmplx": true, "time": true,
}

func initAllowed(p string) bool {
	if allowedInit[p] || strings.HasPrefix(p, harnessPkg) {
		return true
	}
	return strings.HasPrefix(p, "github.com/viant/velty") || strings.HasPrefix(p, "github.com/viant/parsly") ||
		strings.HasPrefix(p, "github.com/viant/xunsafe") || p == "github.com/viant/xreflect"
}

func deniedPkg(p string) bool {
	switch p {
	case "runtime", "reflect", "syscall", "os", "net", "fmt", "internal/poll", "internal/syscall/unix", "encoding/json", "log", "internal/testlog", "internal/bytealg", "sync", "internal/reflectlite", "internal/cpu", "internal/runtime/atomic":
		return true
	}
	return strings.HasPrefix(p, "runtime/") || strings.HasPrefix(p, "go/") || strings.HasPrefix(p, "net/") || strings.HasPrefix(p, "crypto")
}

var allowedFn = map[string]bool{
	"(*sync.Once).Do": true, "(*sync.Once).doSlow": true,
	"(*fmt.wrapError).Error": true, "(*fmt.wrapError).Unwrap": true, "(reflect.StructTag).Get": true, "(reflect.StructTag).Lookup": true,
	"(reflect.StructField).IsExported": true, "(reflect.Method).IsExported": true,
	"internal/bytealg.LastIndexByte": true, "internal/bytealg.LastIndexByteString": true, "internal/bytealg.HashStr": true, "internal/bytealg.HashStrRev": true,
	"internal/bytealg.IndexRabinKarp": true, "internal/bytealg.LastIndexRabinKarp": true,
	"(*reflect.ValueError).Error": true, "(runtime.errorString).Error": true, "(runtime.plainError).Error": true, "(runtime.errorString).RuntimeError": true,
	"(*sync.Map).Load": false,
}

// ufStr is a string of n bytes that is an unknown but fixed function of the arguments.
func (w *Worker) ufStr(name string, n int, args ...*Term) Value {
	b := make([]Value, n)
	for i := range b { // one of the digits 0 to 7
		b[i] = w.p.Concat(w.p.BV(5, 6), w.p.UF(fmt.Sprintf("%s_%d", name, i), Sort{SBV, 3}, args...))
	}
	return &SymStr{b}
}

func (w *Worker) fmtInt(v Value, signed bool, base int, width int) Value {
	switch x := v.(type) {
	case uint64:
		if signed {
			return strconv.FormatInt(sx(x, uint8(width)), base)
		}
		return strconv.FormatUint(x, base)
	case *Term:
		if width < 64 {
			if signed {
				x = w.p.Sext(64, x)
			} else {
				x = w.p.Zext(64, x)
			}
		}
		n := "udec"
		if signed {
			n = "dec"
		}
		if base != 10 {
			n += strconv.Itoa(base)
		}
		return w.ufStr(n, 3, x)
	case Ptr:
		return w.fmtInt(fakeAddr(x), signed, base, width)
	}
	panic("fmtInt")
}

func (w *Worker) errNew(msg Value) Value {
	es := w.P.pkgs["errors"].Type("errorString").Type()
	r := w.rt(es)
	o := w.alloc(r, 1)
	w.store(Ptr{o, 0}, w.rtString, msg)
	return Iface{w.rt(types.NewPointer(es)), Ptr{o, 0}}
}

func (w *Worker) ifaceSlice(s Slice) []Iface {
	out := make([]Iface, s.len)
	for i := range out {
		out[i] = w.load(Ptr{s.p.o, s.p.off + 16*i}, w.rtAny).(Iface)
	}
	return out
}

func (w *Worker) strMethod(v Iface, name string) (Value, bool) {
	for _, s := range w.methodsOf(v.t) {
		f, ok := s.Obj().(*types.Func)
		if !ok || f.Name() != name {
			continue
		}
		sg := f.Type().(*types.Signature)
		if sg.Params().Len() != 0 || sg.Results().Len() != 1 {
			return nil, false
		}
		if b, ok := sg.Results().At(0).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.String {
			return nil, false
		}
		if p, ok := v.w.(Ptr); v.t.kind == kPointer && ok && p.o == nil {
			return "<nil>", true
		}
		fn := w.method(v.t, f)
		return w.callFn(w.cur, w.getFn(fn), []Value{w.unbox(v)}, nil), true
	}
	return nil, false
}

// fmtValue formats one operand the way package fmt does.
func (w *Worker) fmtValue(val Value, verb rune, flags string) Value {
	v := val.(Iface)
	if v.t == nil {
		switch verb {
		case 'T', 'v':
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'T' {
		return w.typeStr(v.t)
	}
	if v.t == w.rtRtype {
		return w.typeStr(w.typeArg(v))
	}
	if v.t.cls == cRVal && v.t.isLeaf {
		rv := w.unbox(v).(RVal)
		if rv.t == nil {
			return "<invalid reflect.Value>"
		}
		return w.fmtValue(w.rvIface(rv), verb, flags)
	}
	if strings.ContainsRune("vsqxX", verb) && !strings.Contains(flags, "#") {
		if s, ok := w.strMethod(v, "Error"); ok {
			return w.fmtLeaf(w.rtString, s, verb, flags)
		}
		if s, ok := w.strMethod(v, "String"); ok {
			return w.fmtLeaf(w.rtString, s, verb, flags)
		}
	}
	return w.fmtAny(v.t, w.unbox(v), verb, flags, 0)
}

func (w *Worker) fmtAny(r *RT, v Value, verb rune, flags string, depth int) Value {
	if depth > 0 && r.kind != kInterface {
		i := w.mkIface(r, v).(Iface)
		if !(r.kind == kPointer && i.w.(Ptr).o == nil) {
			if s, ok := w.strMethod(i, "Error"); ok {
				return s
			}
			if s, ok := w.strMethod(i, "String"); ok {
				return s
			}
		}
	}
	switch r.kind {
	case kInterface:
		i := v.(Iface)
		if i.t == nil {
			return "<nil>"
		}
		return w.fmtAny(i.t, w.unbox(i), verb, flags, depth+1)
	case kSlice:
		s := v.(Slice)
		er := w.elemRT(r)
		if er.kind == kUint8 && (verb == 's' || verb == 'q' || verb == 'x') {
			return w.fmtLeaf(w.rtString, mkStr(w.bytesOf(s)), verb, flags)
		}
		out := Value("[")
		for i := 0; i < s.len; i++ {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtAny(er, w.load(Ptr{s.p.o, s.p.off + i*er.size}, er), verb, flags, depth+1))
		}
		return strConcat(out, "]")
	case kArray:
		out := Value("[")
		for i, f := range v.(*Agg).f {
			if i > 0 {
				out = strConcat(out, " ")
			}
			out = strConcat(out, w.fmtAny(r.elem, f, verb, flags, depth+1))
		}
		return strConcat(out, "]")
	case kStruct:
		if r.isLeaf {
			return "<reflect.Value>"
		}
		out := Value("{")
		st := r.t.Underlying().(*types.Struct)
		for i, f := range v.(*Agg).f {
			if i > 0 {
				out = strConcat(out, " ")
			}
			if strings.Contains(flags, "+") {
				out = strConcat(out, st.Field(i).Name()+":")
			}
			out = strConcat(out, w.fmtAny(r.fields[i], f, verb, flags, depth+1))
		}
		return strConcat(out, "}")
	case kMap:
		p := v.(Ptr)
		out := Value("map[")
		if p.o != nil {
			w.elemRT(r)
			n := 0
			for i, k := range p.o.m.keys {
				if !p.o.m.live[i] {
					continue
				}
				if n > 0 {
					out = strConcat(out, " ")
				}
				n++
				out = strConcat(out, w.fmtAny(r.key, k, verb, flags, depth+1))
				out = strConcat(out, ":")
				out = strConcat(out, w.fmtAny(r.elem, p.o.m.vals[i], verb, flags, depth+1))
			}
			if n > 1 {
				unsupported("formatting of a map with several entries")
			}
		}
		return strConcat(out, "]")
	case kPointer:
		p := v.(Ptr)
		if p.o == nil {
			return "<nil>"
		}
		er := w.elemRT(r)
		if depth == 0 && (er.kind == kStruct || er.kind == kSlice || er.kind == kMap || er.kind == kArray) && verb == 'v' {
			return strConcat("&", w.fmtAny(er, w.load(p, er), verb, flags, depth+1))
		}
		return fmt.Sprintf("0x%x", fakeAddr(p))
	case kFunc, kChan, kUnsafePointer:
		p := v.(Ptr)
		if p.o == nil {
			return "<nil>"
		}
		return fmt.Sprintf("0x%x", fakeAddr(p))
	}
	return w.fmtLeaf(r, v, verb, flags)
}

func (w *Worker) fmtLeaf(r *RT, v Value, verb rune, flags string) Value {
	f := "%" + flags + string(verb)
	switch x := v.(type) {
	case string:
		return fmt.Sprintf(f, x)
	case bool:
		return fmt.Sprintf(f, x)
	case float64:
		if r.size == 4 {
			return fmt.Sprintf(f, float32(x))
		}
		return fmt.Sprintf(f, x)
	case uint64:
		if r.signed {
			return fmt.Sprintf(f, sx(x, uint8(r.size*8)))
		}
		return fmt.Sprintf(f, x)
	case *SymStr:
		if (verb == 's' || verb == 'v') && flags == "" {
			return x
		}
		return fmt.Sprintf(f, w.concStr(x))
	case *Term:
		switch r.cls {
		case cBool:
			if w.branch(x) {
				return "true"
			}
			return "false"
		case cInt:
			if (verb == 'd' || verb == 'v') && flags == "" {
				return w.fmtInt(x, r.signed, 10, r.size*8)
			}
		case cFloat:
			return w.ufStr(fmt.Sprintf("ffmt_%c%s_%d", verb, flags, r.size), 3, x)
		}
		return w.ufStr(fmt.Sprintf("fmt_%c%s_%d", verb, flags, r.size), 3, x)
	}
	unsupported("fmt of %T", v)
	return nil
}

func (w *Worker) sprintf(format string, args []Iface) (Value, []Iface) {
	out := Value("")
	var wrapped []Iface
	n := 0
	i := 0
	for i < len(format) {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			out = strConcat(out, format[i:])
			break
		}
		out = strConcat(out, format[i:i+j])
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.", format[i]) >= 0 {
			i++
		}
		flags := format[st:i]
		if i >= len(format) {
			out = strConcat(out, "%!(NOVERB)")
			break
		}
		verb := rune(format[i])
		i++
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if n >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			wrapped = append(wrapped, a)
			verb = 'v'
		}
		if verb == 'p' {
			out = strConcat(out, "0xc000000000")
			continue
		}
		out = strConcat(out, w.fmtValue(a, verb, flags))
	}
	if n < len(args) {
		out = strConcat(out, "%!(EXTRA ")
		for k, a := range args[n:] {
			if k > 0 {
				out = strConcat(out, ", ")
			}
			if a.t == nil {
				out = strConcat(out, "<nil>")
				continue
			}
			out = strConcat(out, w.typeStr(a.t)+"=")
			out = strConcat(out, w.fmtValue(a, 'v', ""))
		}
		out = strConcat(out, ")")
	}
	return out, wrapped
}

// format strings with symbolic bytes: only the position of '%' matters
func (w *Worker) fmtString(v Value, args []Iface) (Value, []Iface) {
	if s, ok := v.(string); ok {
		return w.sprintf(s, args)
	}
	hasPct := false
	for _, b := range strBytes(v) {
		switch x := b.(type) {
		case uint64:
			hasPct = hasPct || x == '%'
		case *Term:
			hasPct = w.branch(w.p.Eq(x, w.p.BV(8, '%'))) || hasPct
		}
	}
	if !hasPct && len(args) == 0 {
		return v, nil
	}
	return w.sprintf(w.concStr(v), args)
}

func (w *Worker) fresh(name string, kind string, s Sort, width uint8, sgn bool) *Term {
	p := w.path
	p.names[name]++
	if k := p.names[name]; k > 1 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	t := w.p.Var(name, s)
	p.inputs = append(p.inputs, Input{Name: name, Kind: kind, t: t, w: width, sgn: sgn})
	if p.model != nil {
		if _, ok := p.model[t]; !ok {
			p.model[t] = 0
		}
	}
	return t
}

func (w *Worker) freshStr(name string, n int) Value {
	p := w.path
	p.names[name]++
	if k := p.names[name]; k > 1 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	in := Input{Name: name, Kind: "str"}
	b := make([]Value, n)
	for i := range b {
		t := w.p.Var(fmt.Sprintf("%s.%d", name, i), BV8)
		b[i] = t
		in.strs = append(in.strs, t)
		if p.model != nil {
			p.model[t] = 0
		}
	}
	p.inputs = append(p.inputs, in)
	return mkStr(b)
}

func (w *Worker) option(n string, def int) int {
	if v, ok := w.path.opts[n]; ok {
		return v
	}
	return def
}

// stateless native shortcuts: used when every argument is concrete
func nat(name string, f func(a []Value) Value) {
	prev := intrinsics[name]
	intrinsics[name] = func(w *Worker, fr *frame, args []Value) Value {
		for _, a := range args {
			switch a.(type) {
			case string, uint64, bool, float64:
			default:
				if prev != nil {
					return prev(w, fr, args)
				}
				return w.fallthru(fr, name, args)
			}
		}
		return f(args)
	}
}

// fallthru executes the real body of an intercepted function.
func (w *Worker) fallthru(fr *frame, name string, args []Value) Value {
	f := w.natBody[name]
	if f == nil {
		unsupported("no body for %s", name)
	}
	return w.callBody(fr, f, args, nil)
}

func sI(v int) Value { return uint64(int64(v)) }

func init() {
	S := func(name string, f func(w *Worker, a []Value) Value) {
		intrinsics[symPkg+"."+name] = func(w *Worker, fr *frame, a []Value) Value { return f(w, a) }
	}
	str := func(v Value) string { return v.(string) }
	mkInt := func(name string, width uint8, sgn bool) {
		S(name, func(w *Worker, a []Value) Value {
			return w.fresh(str(a[0]), "int", Sort{SBV, width}, width, sgn)
		})
	}
	mkInt("Int", 64, true)
	mkInt("Int8", 8, true)
	mkInt("Int16", 16, true)
	mkInt("Int32", 32, true)
	mkInt("Int64", 64, true)
	mkInt("Uint", 64, false)
	mkInt("Uint8", 8, false)
	mkInt("Byte", 8, false)
	mkInt("Uint16", 16, false)
	mkInt("Uint32", 32, false)
	mkInt("Uint64", 64, false)
	S("IntIn", func(w *Worker, a []Value) Value {
		t := w.fresh(str(a[0]), "int", BV64, 64, true)
		lo, hi := w.bv(a[1], 64), w.bv(a[2], 64)
		w.assume(w.norm(w.p.And(w.p.Sle(lo, t), w.p.Sle(t, hi))))
		return t
	})
	S("Bool", func(w *Worker, a []Value) Value {
		return w.fresh(str(a[0]), "bool", BoolSort, 1, false)
	})
	S("Float64", func(w *Worker, a []Value) Value {
		return w.fresh(str(a[0]), "float", Sort{SFP, 64}, 64, false)
	})
	S("Float32", func(w *Worker, a []Value) Value {
		return w.fresh(str(a[0]), "float", Sort{SFP, 32}, 32, false)
	})
	strOf := func(w *Worker, name string, lo, hi int, alpha string) Value {
		n := lo
		if hi > lo {
			n = lo + w.choose(hi-lo+1)
		}
		s := w.freshStr(name, n)
		if alpha != "" {
			var in [256]bool
			for i := 0; i < len(alpha); i++ {
				in[alpha[i]] = true
			}
			for _, b := range strBytes(s) {
				t, ok := b.(*Term)
				if !ok {
					continue
				}
				c := w.p.F
				for i := 0; i < 256; {
					if !in[i] {
						i++
						continue
					}
					j := i
					for j+1 < 256 && in[j+1] {
						j++
					}
					var r *Term
					if i == j {
						r = w.p.Eq(t, w.p.BV(8, uint64(i)))
					} else {
						r = w.p.And(w.p.Ule(w.p.BV(8, uint64(i)), t), w.p.Ule(t, w.p.BV(8, uint64(j))))
					}
					c = w.p.Or(c, r)
					i = j + 1
				}
				w.assume(w.norm(c))
			}
		}
		return s
	}
	S("Str", func(w *Worker, a []Value) Value { return strOf(w, str(a[0]), 0, int(w.concInt(a[1])), "") })
	S("StrN", func(w *Worker, a []Value) Value {
		n := int(w.concInt(a[1]))
		return strOf(w, str(a[0]), n, n, "")
	})
	S("StrOf", func(w *Worker, a []Value) Value {
		return strOf(w, str(a[0]), int(w.concInt(a[1])), int(w.concInt(a[2])), str(a[3]))
	})
	S("Choice", func(w *Worker, a []Value) Value {
		p := w.path
		name := str(a[0])
		p.names[name]++
		if k := p.names[name]; k > 1 {
			name = fmt.Sprintf("%s#%d", name, k)
		}
		v := w.choose(int(w.concInt(a[1])))
		p.inputs = append(p.inputs, Input{Name: name, Kind: "choice", val: uint64(v)})
		return uint64(v)
	})
	S("Assume", func(w *Worker, a []Value) Value { w.assume(a[0]); return nil })
	S("Assert", func(w *Worker, a []Value) Value {
		msg := "assertion"
		if s, ok := a[1].(string); ok {
			msg = s
		} else {
			msg = showStr(a[1])
		}
		w.assertion(a[0], msg)
		return nil
	})
	S("Reach", func(w *Worker, a []Value) Value { w.path.reach = append(w.path.reach, str(a[0])); return nil })
	S("Observe", func(w *Worker, a []Value) Value {
		w.path.obs = append(w.path.obs, Obs{Label: str(a[0]), v: a[1]})
		return nil
	})
	S("N", func(w *Worker, a []Value) Value {
		if w.x.tier == 1 {
			return a[1]
		}
		return a[0]
	})
	S("Thorough", func(w *Worker, a []Value) Value { return w.x.tier == 1 })
	S("Symbolic", func(w *Worker, a []Value) Value { return true })
	S("Opt", func(w *Worker, a []Value) Value { w.path.opts[str(a[0])] = int(int64(w.concInt(a[1]))); return nil })
	S("Printed", func(w *Worker, a []Value) Value { return w.path.stdout != 0 })
	S("Concrete", func(w *Worker, a []Value) Value { return w.concStr(a[0]) })
	S("ConcreteInt", func(w *Worker, a []Value) Value { return w.concInt(a[0]) })
	S("Go", func(w *Worker, a []Value) Value { w.symGo(w.ptrSlice(a[0].(Slice))); return nil })
	S("Owned", func(w *Worker, a []Value) Value { return nil })
	S("And", func(w *Worker, a []Value) Value { return w.norm(w.p.And(w.bt(a[0]), w.bt(a[1]))) })
	S("Or", func(w *Worker, a []Value) Value { return w.norm(w.p.Or(w.bt(a[0]), w.bt(a[1]))) })
	S("Iff", func(w *Worker, a []Value) Value { return w.norm(w.p.Eq(w.bt(a[0]), w.bt(a[1]))) })
	S("IteInt", func(w *Worker, a []Value) Value {
		return w.norm(w.p.Ite(w.bt(a[0]), w.bv(a[1], 64), w.bv(a[2], 64)))
	})
	// SameFloat: bitwise-equal floats, all NaNs identified
	S("SameFloat", func(w *Worker, a []Value) Value {
		x, y := w.fp(a[0], 64), w.fp(a[1], 64)
		return w.norm(w.p.Eq(x, y))
	})

	I := func(name string, f func(w *Worker, fr *frame, a []Value) Value) { intrinsics[name] = f }

	// ---- fmt ----
	I("fmt.Sprintf", func(w *Worker, fr *frame, a []Value) Value {
		s, _ := w.fmtString(a[0], w.ifaceSlice(a[1].(Slice)))
		return s
	})
	I("fmt.Errorf", func(w *Worker, fr *frame, a []Value) Value {
		s, wr := w.fmtString(a[0], w.ifaceSlice(a[1].(Slice)))
		if len(wr) > 0 && wr[0].t != nil && w.implements(wr[0].t, w.rtError) {
			t := w.P.pkgs["fmt"].Type("wrapError").Type()
			r := w.rt(t)
			o := w.alloc(r, 1)
			w.store(Ptr{o, 0}, w.rtString, s)
			w.store(Ptr{o, 16}, w.rtError, wr[0])
			return Iface{w.rt(types.NewPointer(t)), Ptr{o, 0}}
		}
		return w.errNew(s)
	})
	sprint := func(w *Worker, args []Iface, ln bool) Value {
		out := Value("")
		for i, x := range args {
			if i > 0 {
				sp := ln
				if !ln {
					isS := func(v Iface) bool { return v.t != nil && v.t.kind == kString }
					sp = !isS(x) && !isS(args[i-1])
				}
				if sp {
					out = strConcat(out, " ")
				}
			}
			out = strConcat(out, w.fmtValue(x, 'v', ""))
		}
		if ln {
			out = strConcat(out, "\n")
		}
		return out
	}
	I("fmt.Sprint", func(w *Worker, fr *frame, a []Value) Value { return sprint(w, w.ifaceSlice(a[0].(Slice)), false) })
	I("fmt.Sprintln", func(w *Worker, fr *frame, a []Value) Value { return sprint(w, w.ifaceSlice(a[0].(Slice)), true) })
	pr := func(w *Worker, fr *frame, a []Value) Value {
		w.path.stdout++
		return []Value{uint64(0), Iface{}}
	}
	I("fmt.Println", pr)
	I("fmt.Printf", pr)
	I("fmt.Print", pr)

	// ---- strconv ----
	app := func(w *Worker, dst Value, s Value) Value {
		d := dst.(Slice)
		bs := strBytes(s)
		d = w.growSlice(d, len(bs), w.rtByte)
		w.touchW(d.p, len(bs))
		for i, x := range bs {
			w.store(Ptr{d.p.o, d.p.off + d.len + i}, w.rtByte, x)
		}
		d.len += len(bs)
		return d
	}
	isSym := func(v Value) bool { _, ok := v.(*Term); return ok }
	fmtI := func(name string, signed, appnd bool, valIdx, baseIdx int) {
		I(name, func(w *Worker, fr *frame, a []Value) Value {
			v := a[valIdx]
			base := 10
			if baseIdx >= 0 {
				base = int(w.concInt(a[baseIdx]))
			}
			if isSym(v) && w.option("realints", 0) == 1 {
				return w.fallthru(fr, name, a)
			}
			if base < 2 || base > 36 {
				w.strPanic("strconv: illegal AppendInt/FormatInt base")
			}
			s := w.fmtInt(v, signed, base, 64)
			if appnd {
				return app(w, a[0], s)
			}
			return s
		})
	}
	fmtI("strconv.Itoa", true, false, 0, -1)
	fmtI("strconv.FormatInt", true, false, 0, 1)
	fmtI("strconv.FormatUint", false, false, 0, 1)
	fmtI("strconv.AppendInt", true, true, 1, 2)
	fmtI("strconv.AppendUint", false, true, 1, 2)
	I("github.com/viant/velty/utils.AppendInt", func(w *Worker, fr *frame, a []Value) Value {
		if isSym(a[1]) && w.option("realints", 0) == 0 {
			if b, ok := a[2].(uint64); ok && b == 10 {
				d := a[0].(Slice)
				bs := strBytes(w.fmtInt(a[1], true, 10, 64))
				if d.len < len(bs) {
					bs = bs[:d.len]
				}
				w.touchW(d.p, len(bs))
				for i, x := range bs {
					w.store(Ptr{d.p.o, d.p.off + i}, w.rtByte, x)
				}
				return uint64(len(bs))
			}
		}
		return w.fallthru(fr, "github.com/viant/velty/utils.AppendInt", a)
	})
	fmtF := func(w *Worker, v, f, prec, bits Value) Value {
		if x, ok := v.(float64); ok {
			return strconv.FormatFloat(x, byte(w.concInt(f)), int(int64(w.concInt(prec))), int(w.concInt(bits)))
		}
		return w.ufStr(fmt.Sprintf("ff_%c_%d_%d", rune(w.concInt(f)), int64(w.concInt(prec)), w.concInt(bits)), 3, v.(*Term))
	}
	I("strconv.FormatFloat", func(w *Worker, fr *frame, a []Value) Value { return fmtF(w, a[0], a[1], a[2], a[3]) })
	I("strconv.AppendFloat", func(w *Worker, fr *frame, a []Value) Value { return app(w, a[0], fmtF(w, a[1], a[2], a[3], a[4])) })
	I("strconv.ParseFloat", func(w *Worker, fr *frame, a []Value) Value {
		s := w.concStr(a[0])
		f, err := strconv.ParseFloat(s, int(w.concInt(a[1])))
		if err == nil {
			return []Value{f, Iface{}}
		}
		return w.fallthru(fr, "strconv.ParseFloat", []Value{s, a[1]})
	})
	nat("strconv.Quote", func(a []Value) Value { return strconv.Quote(a[0].(string)) })
	nat("html.EscapeString", func(a []Value) Value { return html.EscapeString(a[0].(string)) })
	nat("strings.ToLower", func(a []Value) Value { return strings.ToLower(a[0].(string)) })
	nat("strings.ToUpper", func(a []Value) Value { return strings.ToUpper(a[0].(string)) })
	nat("strings.TrimSpace", func(a []Value) Value { return strings.TrimSpace(a[0].(string)) })
	nat("strings.Trim", func(a []Value) Value { return strings.Trim(a[0].(string), a[1].(string)) })
	nat("strings.Contains", func(a []Value) Value { return strings.Contains(a[0].(string), a[1].(string)) })
	nat("strings.HasPrefix", func(a []Value) Value { return strings.HasPrefix(a[0].(string), a[1].(string)) })
	nat("strings.HasSuffix", func(a []Value) Value { return strings.HasSuffix(a[0].(string), a[1].(string)) })
	nat("strings.ReplaceAll", func(a []Value) Value {
		return strings.ReplaceAll(a[0].(string), a[1].(string), a[2].(string))
	})
	nat("strings.Repeat", func(a []Value) Value {
		return strings.Repeat(a[0].(string), int(a[1].(uint64)))
	})
	intrinsics["(*strings.Builder).copyCheck"] = func(w *Worker, fr *frame, a []Value) Value { return nil }
	intrinsics["strings.Index"] = func(w *Worker, fr *frame, a []Value) Value { return w.strIndex(a[0], a[1]) }
	intrinsics["strings.IndexByte"] = func(w *Worker, fr *frame, a []Value) Value { return w.byteIndex(strBytes(a[0]), a[1]) }
	intrinsics["internal/stringslite.Index"] = intrinsics["strings.Index"]
	intrinsics["internal/stringslite.IndexByte"] = intrinsics["strings.IndexByte"]
	nat("strings.LastIndex", func(a []Value) Value { return sI(strings.LastIndex(a[0].(string), a[1].(string))) })
	nat("strings.EqualFold", func(a []Value) Value { return strings.EqualFold(a[0].(string), a[1].(string)) })

	// ---- bytealg ----
	I("internal/bytealg.IndexByte", func(w *Worker, fr *frame, a []Value) Value { return w.byteIndex(w.bytesOf(a[0].(Slice)), a[1]) })
	I("internal/bytealg.IndexByteString", func(w *Worker, fr *frame, a []Value) Value { return w.byteIndex(strBytes(a[0]), a[1]) })
	I("internal/bytealg.IndexString", func(w *Worker, fr *frame, a []Value) Value { return w.strIndex(a[0], a[1]) })
	I("internal/bytealg.Index", func(w *Worker, fr *frame, a []Value) Value {
		return w.strIndex(mkStr(w.bytesOf(a[0].(Slice))), mkStr(w.bytesOf(a[1].(Slice))))
	})
	count := func(w *Worker, bs []Value, c Value) Value {
		n := 0
		for _, b := range bs {
			if w.branchV(w.eqInt(b, c, 8)) {
				n++
			}
		}
		return uint64(n)
	}
	I("internal/bytealg.Count", func(w *Worker, fr *frame, a []Value) Value { return count(w, w.bytesOf(a[0].(Slice)), a[1]) })
	I("internal/bytealg.CountString", func(w *Worker, fr *frame, a []Value) Value { return count(w, strBytes(a[0]), a[1]) })
	I("internal/bytealg.Equal", func(w *Worker, fr *frame, a []Value) Value {
		return w.strEq(mkStr(w.bytesOf(a[0].(Slice))), mkStr(w.bytesOf(a[1].(Slice))))
	})
	intrinsics["bytes.Equal"] = intrinsics["internal/bytealg.Equal"]
	cmp := func(w *Worker, x, y Value) Value {
		if w.branchV(w.strEq(x, y)) {
			return uint64(0)
		}
		if w.branchV(w.strLess(x, y)) {
			return sI(-1)
		}
		return uint64(1)
	}
	I("internal/bytealg.Compare", func(w *Worker, fr *frame, a []Value) Value {
		return cmp(w, mkStr(w.bytesOf(a[0].(Slice))), mkStr(w.bytesOf(a[1].(Slice))))
	})
	I("internal/bytealg.CompareString", func(w *Worker, fr *frame, a []Value) Value { return cmp(w, a[0], a[1]) })
	I("internal/bytealg.MakeNoZero", func(w *Worker, fr *frame, a []Value) Value {
		n := int(w.concInt(a[0]))
		return Slice{Ptr{w.alloc(w.rtByte, n), 0}, n, n}
	})
	I("internal/bytealg.Cutover", func(w *Worker, fr *frame, a []Value) Value { return uint64(4) })

	// ---- math ----
	f1 := func(name string, nf func(float64) float64, sf func(w *Worker, t *Term) *Term) {
		for _, n := range []string{"math." + name, "math.arch" + name, "math." + strings.ToLower(name[:1]) + name[1:]} {
			n := n
			I(n, func(w *Worker, fr *frame, a []Value) Value {
				if x, ok := a[0].(float64); ok {
					return nf(x)
				}
				if sf == nil {
					return w.norm(w.p.UF("math_"+name, Sort{SFP, 64}, a[0].(*Term)))
				}
				return w.norm(sf(w, a[0].(*Term)))
			})
		}
	}
	rnd := func(m uint64) func(w *Worker, t *Term) *Term {
		return func(w *Worker, t *Term) *Term { return w.p.FUn(OpFRound, t, m) }
	}
	f1("Floor", math.Floor, rnd(3))
	f1("Ceil", math.Ceil, rnd(2))
	f1("Trunc", math.Trunc, rnd(4))
	f1("Round", math.Round, rnd(1))
	f1("RoundToEven", math.RoundToEven, rnd(0))
	f1("Abs", math.Abs, func(w *Worker, t *Term) *Term { return w.p.FUn(OpFAbs, t, 0) })
	f1("Sqrt", math.Sqrt, func(w *Worker, t *Term) *Term { return w.p.FUn(OpFSqrt, t, 0) })
	f1("Exp", math.Exp, nil)
	f1("Log", math.Log, nil)
	I("math.Pow", func(w *Worker, fr *frame, a []Value) Value {
		x, ok1 := a[0].(float64)
		y, ok2 := a[1].(float64)
		if ok1 && ok2 {
			return math.Pow(x, y)
		}
		return w.norm(w.p.UF("math_Pow", Sort{SFP, 64}, w.fp(a[0], 64), w.fp(a[1], 64)))
	})
	mm := func(isMin bool) func(w *Worker, fr *frame, a []Value) Value {
		return func(w *Worker, fr *frame, a []Value) Value {
			x, ok1 := a[0].(float64)
			y, ok2 := a[1].(float64)
			if ok1 && ok2 {
				if isMin {
					return math.Min(x, y)
				}
				return math.Max(x, y)
			}
			P := w.p
			p, q := w.fp(a[0], 64), w.fp(a[1], 64)
			nan := P.Or(P.FUn(OpFIsNaN, p, 0), P.FUn(OpFIsNaN, q, 0))
			inf := math.Inf(1)
			sgn := uint64(0)
			if isMin {
				inf = math.Inf(-1)
			}
			anyInf := P.Or(P.Eq(p, P.FP(64, inf)), P.Eq(q, P.FP(64, inf)))
			zero := P.And(P.FCmp(OpFEq, p, P.FP(64, 0)), P.FCmp(OpFEq, q, P.FP(64, 0)))
			negz := P.FP(64, math.Copysign(0, -1))
			var z, r *Term
			if isMin {
				z = P.Ite(P.Or(P.Eq(p, negz), P.Eq(q, negz)), negz, P.FP(64, 0))
				r = P.Ite(P.FCmp(OpFLt, p, q), p, q)
			} else {
				z = P.Ite(P.And(P.Eq(p, negz), P.Eq(q, negz)), negz, P.FP(64, 0))
				r = P.Ite(P.FCmp(OpFLt, q, p), p, q)
			}
			_ = sgn
			return w.norm(P.Ite(anyInf, P.FP(64, inf), P.Ite(nan, P.FP(64, math.NaN()), P.Ite(zero, z, r))))
		}
	}
	I("math.Min", mm(true))
	I("math.Max", mm(false))
	I("math.archMin", mm(true))
	I("math.archMax", mm(false))
	I("math.IsNaN", func(w *Worker, fr *frame, a []Value) Value { return w.norm(w.p.FUn(OpFIsNaN, w.fp(a[0], 64), 0)) })
	I("math.Float64bits", func(w *Worker, fr *frame, a []Value) Value { return w.floatBits(a[0], 8) })
	I("math.Float32bits", func(w *Worker, fr *frame, a []Value) Value { return w.floatBits(a[0], 4) })
	I("math.Float64frombits", func(w *Worker, fr *frame, a []Value) Value { return w.norm(w.p.BitsToF(w.bv(a[0], 64))) })
	I("math.Float32frombits", func(w *Worker, fr *frame, a []Value) Value { return w.norm(w.p.BitsToF(w.bv(a[0], 32))) })
	I("math.FMA", func(w *Worker, fr *frame, a []Value) Value {
		return math.FMA(a[0].(float64), a[1].(float64), a[2].(float64))
	})

	// ---- runtime, time ----
	nop := func(w *Worker, fr *frame, a []Value) Value { return nil }
	for _, n := range []string{"runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "runtime.SetFinalizer", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "time.Sleep"} {
		I(n, nop)
	}
	I("runtime.GOMAXPROCS", func(w *Worker, fr *frame, a []Value) Value { return uint64(8) })
	I("runtime.NumCPU", func(w *Worker, fr *frame, a []Value) Value { return uint64(8) })
	I("time.runtimeNano", func(w *Worker, fr *frame, a []Value) Value { return uint64(1) })
	I("time.now", func(w *Worker, fr *frame, a []Value) Value { return []Value{uint64(1700000000), uint64(0), uint64(2)} })
	I("time.Now", func(w *Worker, fr *frame, a []Value) Value {
		// a fixed UTC instant: 2023-11-14T22:13:20Z
		return &Agg{f: []Value{uint64(0), uint64(1700000000 + 62135596800), Ptr{}}}
	})
	I("runtime.GOROOT", func(w *Worker, fr *frame, a []Value) Value { return "/usr/local/go" })
	I("syscall.Getenv", func(w *Worker, fr *frame, a []Value) Value { return []Value{"", false} })
	I("os.Getenv", func(w *Worker, fr *frame, a []Value) Value { return "" })
	I("time.Duration.String", nil)
	delete(intrinsics, "time.Duration.String")
	I("unique.runtime_registerUniqueMapCleanup", nop)
	I("internal/godebug.New", func(w *Worker, fr *frame, a []Value) Value {
		return Ptr{}
	})
	I("(*internal/godebug.Setting).Value", func(w *Worker, fr *frame, a []Value) Value { return "" })
	I("errors.init", nop)

	// errors.As / Is use internal/reflectlite
	I("errors.Is", func(w *Worker, fr *frame, a []Value) Value {
		e, target := a[0].(Iface), a[1].(Iface)
		for i := 0; i < 20; i++ {
			if e.t == nil || target.t == nil {
				return e.t == nil && target.t == nil
			}
			if w.branchV(w.eqIface(e, target)) {
				return true
			}
			e = w.unwrapErr(e)
			if e.t == nil {
				return false
			}
		}
		return false
	})
	I("errors.New", func(w *Worker, fr *frame, a []Value) Value { return w.errNew(a[0]) })

	// ---- sync ----
	I("(*sync.Mutex).Lock", func(w *Worker, fr *frame, a []Value) Value { w.lock(a[0].(Ptr), true); return nil })
	I("(*sync.Mutex).Unlock", func(w *Worker, fr *frame, a []Value) Value { w.unlock(a[0].(Ptr), true); return nil })
	I("(*sync.RWMutex).Lock", func(w *Worker, fr *frame, a []Value) Value { w.lock(a[0].(Ptr), true); return nil })
	I("(*sync.RWMutex).Unlock", func(w *Worker, fr *frame, a []Value) Value { w.unlock(a[0].(Ptr), true); return nil })
	I("(*sync.RWMutex).RLock", func(w *Worker, fr *frame, a []Value) Value { w.lock(a[0].(Ptr), false); return nil })
	I("(*sync.RWMutex).RUnlock", func(w *Worker, fr *frame, a []Value) Value { w.unlock(a[0].(Ptr), false); return nil })
	I("(*sync.Mutex).TryLock", func(w *Worker, fr *frame, a []Value) Value {
		if w.lockFree(a[0].(Ptr)) {
			w.lock(a[0].(Ptr), true)
			return true
		}
		return false
	})
	I("(*sync.Pool).Get", func(w *Worker, fr *frame, a []Value) Value { return w.poolGet(fr, a[0].(Ptr)) })
	I("(*sync.Pool).Put", func(w *Worker, fr *frame, a []Value) Value { w.poolPut(a[0].(Ptr), a[1].(Iface)); return nil })
	I("sync.runtime_registerPoolCleanup", nop)
	I("(*sync.WaitGroup).Add", func(w *Worker, fr *frame, a []Value) Value { unsupported("WaitGroup"); return nil })

	// ---- atomics ----
	type at struct {
		suffix string
		k      types.BasicKind
	}
	for _, x := range []at{{"Int32", types.Int32}, {"Int64", types.Int64}, {"Uint32", types.Uint32}, {"Uint64", types.Uint64}, {"Uintptr", types.Uintptr}, {"Pointer", types.UnsafePointer}} {
		x := x
		rt := func(w *Worker) *RT { return w.rt(types.Typ[x.k]) }
		for _, pk := range []string{"sync/atomic."} {
			I(pk+"Load"+x.suffix, func(w *Worker, fr *frame, a []Value) Value { return w.atomic(a[0].(Ptr), func() Value { return w.load(a[0].(Ptr), rt(w)) }) })
			I(pk+"Store"+x.suffix, func(w *Worker, fr *frame, a []Value) Value {
				return w.atomic(a[0].(Ptr), func() Value { w.store(a[0].(Ptr), rt(w), a[1]); return nil })
			})
			I(pk+"Swap"+x.suffix, func(w *Worker, fr *frame, a []Value) Value {
				return w.atomic(a[0].(Ptr), func() Value {
					old := w.load(a[0].(Ptr), rt(w))
					w.store(a[0].(Ptr), rt(w), a[1])
					return old
				})
			})
			I(pk+"CompareAndSwap"+x.suffix, func(w *Worker, fr *frame, a []Value) Value {
				return w.atomic(a[0].(Ptr), func() Value {
					r := rt(w)
					old := w.load(a[0].(Ptr), r)
					if w.branchV(w.eq(r, old, a[1])) {
						w.store(a[0].(Ptr), r, a[2])
						return true
					}
					return false
				})
			})
			if x.suffix != "Pointer" {
				I(pk+"Add"+x.suffix, func(w *Worker, fr *frame, a []Value) Value {
					return w.atomic(a[0].(Ptr), func() Value {
						r := rt(w)
						nv := w.intAdd(r, w.load(a[0].(Ptr), r), a[1])
						w.store(a[0].(Ptr), r, nv)
						return nv
					})
				})
			}
		}
	}
	_ = time.Now
}

func (w *Worker) unwrapErr(e Iface) Iface {
	for _, s := range w.methodsOf(e.t) {
		if s.Obj().Name() == "Unwrap" {
			fn := w.method(e.t, s.Obj().(*types.Func))
			r := w.callFn(w.cur, w.getFn(fn), []Value{w.unbox(e)}, nil)
			if i, ok := r.(Iface); ok {
				return i
			}
		}
	}
	return Iface{}
}

func (w *Worker) byteIndex(bs []Value, c Value) Value {
	for i, b := range bs {
		if w.branchV(w.eqInt(b, c, 8)) {
			return uint64(i)
		}
	}
	return sI(-1)
}

func (w *Worker) strIndex(s, sub Value) Value {
	if x, ok := s.(string); ok {
		if y, ok := sub.(string); ok {
			return sI(strings.Index(x, y))
		}
	}
	n := strLen(sub)
	for i := 0; i+n <= strLen(s); i++ {
		if w.branchV(w.strEq(w.strSlice(s, i, i+n), sub)) {
			return uint64(i)
		}
	}
	return sI(-1)
}

func (w *Worker) ptrSlice(s Slice) []Ptr {
	out := make([]Ptr, s.len)
	for i := range out {
		out[i] = w.load(Ptr{s.p.o, s.p.off + 8*i}, w.rtUnsafePtr).(Ptr)
	}
	return out
}
