package main

import (
	"github.com/viant/velty"
	"veltyverif/sym"
)

// kinds of scalar operands
const (
	kInt = iota
	kFloat
	kStr
	kBool
)

type wIn struct {
	Pad  byte
	I, J int
	B, C bool
	F, G float64
	S, T string
}

type wRec struct {
	N  string
	I  int
	B  bool
	J  int
	C  bool
	F  float64
	S  string
	G  float64
	T  string
	In *wIn
	V  wIn
}

func (r *wRec) GetI() int     { return r.I }
func (r *wRec) GetJ() int     { return r.J }
func (r *wRec) GetF() float64 { return r.F }
func (r *wRec) GetG() float64 { return r.G }
func (r *wRec) GetS() string  { return r.S }
func (r *wRec) GetT() string  { return r.T }
func (r *wRec) GetB() bool    { return r.B }
func (r *wRec) GetC() bool    { return r.C }

// world holds the values of the two sides of an operator in every kind of place.
type world struct {
	rec, prec wRec
	recIn     wIn
	precIn    wIn
	vars      []kv
	cp        wRec
	cpIn      wIn
	crIn      wIn
	crec      wRec
}

func newWorld() *world {
	w := &world{}
	w.rec.N, w.prec.N = "rec", "prec"
	w.rec.In, w.prec.In = &w.recIn, &w.precIn
	w.recIn.Pad = 5
	return w
}

var wField = [2][4]string{{"I", "F", "S", "B"}, {"J", "G", "T", "C"}}

func (w *world) putRec(r *wRec, side, kind int, val interface{}) {
	switch kind {
	case kInt:
		if side == 0 {
			r.I = val.(int)
		} else {
			r.J = val.(int)
		}
	case kFloat:
		if side == 0 {
			r.F = val.(float64)
		} else {
			r.G = val.(float64)
		}
	case kStr:
		if side == 0 {
			r.S = val.(string)
		} else {
			r.T = val.(string)
		}
	default:
		if side == 0 {
			r.B = val.(bool)
		} else {
			r.C = val.(bool)
		}
	}
}

func (w *world) putIn(r *wIn, side, kind int, val interface{}) {
	var t wRec
	w.putRec(&t, side, kind, val)
	if side == 0 {
		switch kind {
		case kInt:
			r.I = t.I
		case kFloat:
			r.F = t.F
		case kStr:
			r.S = t.S
		default:
			r.B = t.B
		}
		return
	}
	switch kind {
	case kInt:
		r.J = t.J
	case kFloat:
		r.G = t.G
	case kStr:
		r.T = t.T
	default:
		r.C = t.C
	}
}

const wSources = 13

// put stores val for a side in source src and returns its spelling.
func (w *world) put(side, kind, src int, val interface{}) string {
	n := []string{"x", "y"}[side]
	f := wField[side][kind]
	switch src {
	case 0:
		w.vars = append(w.vars, v(n, val))
		return "$" + n
	case 1:
		w.putRec(&w.rec, side, kind, val)
		return "$rec." + f
	case 2:
		w.putRec(&w.prec, side, kind, val)
		return "${prec." + f + "}"
	case 3:
		w.putIn(w.rec.In, side, kind, val)
		return "$rec.In." + f
	case 4:
		w.putIn(w.prec.In, side, kind, val)
		return "$prec.In." + f
	case 5:
		w.putIn(&w.rec.V, side, kind, val)
		return "${rec.V." + f + "}"
	case 6:
		w.putIn(&w.prec.V, side, kind, val)
		return "$prec.V." + f
	case 7:
		w.vars = append(w.vars, v(n+"s", wSlice(kind, val)))
		return "$" + n + "s[1]"
	case 8:
		w.vars = append(w.vars, v(n+"m", wMap(kind, n, val)))
		return "${" + n + "m[\"" + n + "\"]}"
	case 9:
		w.vars = append(w.vars, v(n, val))
		return "$id" + f[:1] + "($" + n + ")"
	case 10:
		w.putRec(&w.prec, side, kind, val)
		return "$prec.Get" + f + "()"
	case 11:
		w.vars = append(w.vars, v(n+"s", wSlice(kind, val)), v(n+"i", 1))
		return "${" + n + "s[$" + n + "i]}"
	default:
		w.vars = append(w.vars, v(n, val))
		return "${" + n + "}"
	}
}

func wSlice(kind int, val interface{}) interface{} {
	switch kind {
	case kInt:
		return []int{77, val.(int), 78}
	case kFloat:
		return []float64{77.5, val.(float64), 78}
	case kStr:
		return []string{"77", val.(string), "78"}
	default:
		return []bool{true, val.(bool), false}
	}
}

func wMap(kind int, key string, val interface{}) interface{} {
	switch kind {
	case kInt:
		return map[string]int{"k": 77, key: val.(int)}
	case kFloat:
		return map[string]float64{"k": 77, key: val.(float64)}
	case kStr:
		return map[string]string{"k": "77", key: val.(string)}
	default:
		return map[string]bool{"k": true, key: val.(bool)}
	}
}

func wIDI(x int) int         { return x }
func wIDF(x float64) float64 { return x }
func wIDS(x string) string   { return x }
func wIDB(x bool) bool       { return x }

// run renders tpl.
func (w *world) run(tpl string, opts ...velty.Option) string {
	w.cp, w.cpIn, w.crIn, w.crec = w.prec, w.precIn, w.recIn, w.rec
	p := velty.New(opts...)
	vars := append([]kv{v("rec", w.rec), v("prec", &w.prec)}, w.vars...)
	for _, x := range vars {
		sym.Assert(p.DefineVariable(x.name, x.val) == nil, "variable can be defined")
	}
	for _, f := range []string{"I", "J"} {
		sym.Assert(p.RegisterFunction("id"+f, wIDI) == nil, "function registers")
	}
	for _, f := range []string{"F", "G"} {
		sym.Assert(p.RegisterFunction("id"+f, wIDF) == nil, "function registers")
	}
	for _, f := range []string{"S", "T"} {
		sym.Assert(p.RegisterFunction("id"+f, wIDS) == nil, "function registers")
	}
	for _, f := range []string{"B", "C"} {
		sym.Assert(p.RegisterFunction("id"+f, wIDB) == nil, "function registers")
	}
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "template compiles: "+tpl)
	st := ns()
	set(st, vars...)
	sym.Assert(ex.Exec(st) == nil, "template executes: "+tpl)
	return st.Buffer.String()
}

// same reports that no record reachable from the template changed.
func (w *world) same() bool {
	return w.prec == w.cp && w.precIn == w.cpIn && w.recIn == w.crIn && w.rec == w.crec
}

// sameFloats is same for worlds that may hold NaNs.
func (w *world) sameBits() bool {
	f := func(a, b float64) bool { return sym.SameFloat(a, b) }
	a, b := w.prec, w.cp
	ok := f(a.F, b.F) && f(a.G, b.G) && f(a.V.F, b.V.F) && f(a.V.G, b.V.G)
	ok = ok && f(w.precIn.F, w.cpIn.F) && f(w.precIn.G, w.cpIn.G) && f(w.recIn.F, w.crIn.F) && f(w.recIn.G, w.crIn.G)
	return ok && a.I == b.I && a.J == b.J && w.precIn.I == w.cpIn.I && w.precIn.J == w.cpIn.J && w.recIn.I == w.crIn.I && w.recIn.J == w.crIn.J && a.V.I == b.V.I && a.V.J == b.V.J
}
