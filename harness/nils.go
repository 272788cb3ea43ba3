package main

import (
	"reflect"
	"strconv"

	"github.com/viant/velty"
	"veltyverif/sym"
)

// C09_kinds: a value of any kind is copied whole, from any kind of place to any kind of place.
func C09_kinds() {
	kind := sym.Choice("kind", c27Kinds+len(c09Odd))
	var typ reflect.Type
	var val interface{}
	var same func(x interface{}) bool
	if kind < c27Kinds {
		typ, val, same, _ = c27Val(kind)
	} else {
		val, same = c09Odd[kind-c27Kinds]()
	}
	if typ == nil {
		typ = reflect.TypeOf(val)
	}
	holder := reflect.StructOf([]reflect.StructField{
		{Name: "P", Type: reflect.TypeOf(byte(0))}, {Name: "X", Type: typ}, {Name: "Q", Type: reflect.TypeOf(byte(0))}, {Name: "R", Type: reflect.TypeOf("")}})
	src, dst := reflect.New(holder), reflect.New(holder)
	if val != nil {
		src.Elem().Field(1).Set(reflect.ValueOf(val))
	}
	p, q := sym.Uint8("p"), sym.Uint8("q")
	dst.Elem().Field(0).Set(reflect.ValueOf(p))
	dst.Elem().Field(2).Set(reflect.ValueOf(q))
	dst.Elem().Field(3).Set(reflect.ValueOf("r"))
	to := sym.Choice("to", 5)
	d := []string{"$v", "$h.X", "$ph.X", "$new", "$oh.H.X"}[to]
	from := sym.Choice("from", 4)
	s := []string{"$w", "$g.X", "$pg.X", "$tmp"}[from]
	outer := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(byte(0))}, {Name: "H", Type: holder}, {Name: "B", Type: reflect.TypeOf(byte(0))}}))
	outer.Elem().Field(1).Set(dst.Elem())
	pl := velty.New()
	seen := c27See(pl)
	def := func(name string, x interface{}) {
		sym.Assert(pl.DefineVariable(name, x) == nil, "variable can be defined")
	}
	def("b0", byte(0))
	def("v", typ)
	def("b1", byte(0))
	def("w", typ)
	def("h", holder)
	def("b2", byte(0))
	def("ph", dst.Type())
	def("g", holder)
	def("pg", src.Type())
	def("oh", outer.Type())
	tpl := ""
	if from == 3 {
		tpl = "#set($tmp = $pg.X)"
	}
	tpl += "#set(" + d + " = " + s + ")$see(" + d + ")$see(" + s + ")$see($b0)$see($b1)$see($b2)"
	owner := ""
	switch to {
	case 1:
		owner = "$h."
	case 2:
		owner = "$ph."
	case 4:
		owner = "$oh.H."
	}
	if owner != "" {
		tpl += "$see(" + owner + "P)$see(" + owner + "Q)$see(" + owner + "R)"
	}
	ex, ns, err := pl.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, v("b0", p), v("b1", q), v("b2", p), v("h", dst.Elem().Interface()), v("ph", dst.Interface()), v("g", src.Elem().Interface()), v("pg", src.Interface()), v("oh", outer.Interface()))
	if val != nil {
		set(st, v("w", val))
	}
	sym.Assert(ex.Exec(st) == nil, "executes")
	got := *seen
	sym.Assert(same(got[0]), "the value assigned to "+d+" from "+s+", kind "+strconv.Itoa(kind))
	sym.Assert(same(got[1]), "the source is unchanged, kind "+strconv.Itoa(kind))
	sym.Assert(got[2] == p && got[3] == q && got[4] == p, "neighbouring variables are unchanged")
	if owner != "" {
		sym.Assert(got[5] == p && got[6] == q && got[7] == "r", "neighbouring fields are unchanged")
	}
	sym.Reach("end")
}

type c09O4 struct{ X int32 }
type c09O12 struct{ X, Y, Z int32 }
type c09O3 struct{ A, B, C byte }
type c09O20 struct {
	A [4]int32
	B uint16
	C byte
	D bool
}

// c09Odd are values whose sizes are not a multiple of a word.
var c09Odd = []func() (interface{}, func(x interface{}) bool){
	func() (interface{}, func(x interface{}) bool) {
		a := c09O4{sym.Int32("o")}
		return a, func(x interface{}) bool { return x.(c09O4) == a }
	},
	func() (interface{}, func(x interface{}) bool) {
		a := c09O12{sym.Int32("o"), 7, sym.Int32("o2")}
		return a, func(x interface{}) bool { return x.(c09O12) == a }
	},
	func() (interface{}, func(x interface{}) bool) {
		a := c09O3{sym.Uint8("o"), 7, sym.Uint8("o2")}
		return a, func(x interface{}) bool { return x.(c09O3) == a }
	},
	func() (interface{}, func(x interface{}) bool) {
		a := c09O20{[4]int32{1, sym.Int32("o"), 2, 3}, 4, sym.Uint8("o2"), sym.Bool("o3")}
		return a, func(x interface{}) bool { return x.(c09O20) == a }
	},
	func() (interface{}, func(x interface{}) bool) {
		a := [5]byte{sym.Uint8("o"), 1, 2, 3, sym.Uint8("o2")}
		return a, func(x interface{}) bool { return x.([5]byte) == a }
	},
	func() (interface{}, func(x interface{}) bool) {
		a := [3]int16{sym.Int16("o"), 1, sym.Int16("o2")}
		return a, func(x interface{}) bool { return x.([3]int16) == a }
	},
	func() (interface{}, func(x interface{}) bool) {
		a := [1]c09O12{{1, sym.Int32("o"), 3}}
		return a, func(x interface{}) bool { return x.([1]c09O12) == a }
	},
}

// C19_nil: nil pointers, slices, maps, functions and interfaces as arguments at any position.
func C19_nil() {
	n := 1 + sym.Choice("n", sym.N(5, 6))
	var got []interface{}
	rec := func(xs ...interface{}) string { got = xs; return "." }
	p := velty.New()
	type P = *wRec
	type M = map[string]int
	var f interface{}
	rot := sym.Choice("rot", 6)
	switch 10*n + rot {
	case 10:
		f = func(p0 *int) string { return rec(p0) }
	case 11:
		f = func(p0 []string) string { return rec(p0) }
	case 12:
		f = func(p0 error) string { return rec(p0) }
	case 13:
		f = func(p0 M) string { return rec(p0) }
	case 14:
		f = func(p0 interface{}) string { return rec(p0) }
	case 15:
		f = func(p0 P) string { return rec(p0) }
	case 20:
		f = func(p0 *int, p1 []string) string { return rec(p0, p1) }
	case 21:
		f = func(p0 []string, p1 error) string { return rec(p0, p1) }
	case 22:
		f = func(p0 error, p1 M) string { return rec(p0, p1) }
	case 23:
		f = func(p0 M, p1 interface{}) string { return rec(p0, p1) }
	case 24:
		f = func(p0 interface{}, p1 P) string { return rec(p0, p1) }
	case 25:
		f = func(p0 P, p1 *int) string { return rec(p0, p1) }
	case 30:
		f = func(p0 *int, p1 []string, p2 error) string { return rec(p0, p1, p2) }
	case 31:
		f = func(p0 []string, p1 error, p2 M) string { return rec(p0, p1, p2) }
	case 32:
		f = func(p0 error, p1 M, p2 interface{}) string { return rec(p0, p1, p2) }
	case 33:
		f = func(p0 M, p1 interface{}, p2 P) string { return rec(p0, p1, p2) }
	case 34:
		f = func(p0 interface{}, p1 P, p2 *int) string { return rec(p0, p1, p2) }
	case 35:
		f = func(p0 P, p1 *int, p2 []string) string { return rec(p0, p1, p2) }
	case 40:
		f = func(p0 *int, p1 []string, p2 error, p3 M) string { return rec(p0, p1, p2, p3) }
	case 41:
		f = func(p0 []string, p1 error, p2 M, p3 interface{}) string { return rec(p0, p1, p2, p3) }
	case 42:
		f = func(p0 error, p1 M, p2 interface{}, p3 P) string { return rec(p0, p1, p2, p3) }
	case 43:
		f = func(p0 M, p1 interface{}, p2 P, p3 *int) string { return rec(p0, p1, p2, p3) }
	case 44:
		f = func(p0 interface{}, p1 P, p2 *int, p3 []string) string { return rec(p0, p1, p2, p3) }
	case 45:
		f = func(p0 P, p1 *int, p2 []string, p3 error) string { return rec(p0, p1, p2, p3) }
	case 50:
		f = func(p0 *int, p1 []string, p2 error, p3 M, p4 interface{}) string { return rec(p0, p1, p2, p3, p4) }
	case 51:
		f = func(p0 []string, p1 error, p2 M, p3 interface{}, p4 P) string { return rec(p0, p1, p2, p3, p4) }
	case 52:
		f = func(p0 error, p1 M, p2 interface{}, p3 P, p4 *int) string { return rec(p0, p1, p2, p3, p4) }
	case 53:
		f = func(p0 M, p1 interface{}, p2 P, p3 *int, p4 []string) string { return rec(p0, p1, p2, p3, p4) }
	case 54:
		f = func(p0 interface{}, p1 P, p2 *int, p3 []string, p4 error) string { return rec(p0, p1, p2, p3, p4) }
	case 55:
		f = func(p0 P, p1 *int, p2 []string, p3 error, p4 M) string { return rec(p0, p1, p2, p3, p4) }
	case 60:
		f = func(p0 *int, p1 []string, p2 error, p3 M, p4 interface{}, p5 P) string {
			return rec(p0, p1, p2, p3, p4, p5)
		}
	case 61:
		f = func(p0 []string, p1 error, p2 M, p3 interface{}, p4 P, p5 *int) string {
			return rec(p0, p1, p2, p3, p4, p5)
		}
	case 62:
		f = func(p0 error, p1 M, p2 interface{}, p3 P, p4 *int, p5 []string) string {
			return rec(p0, p1, p2, p3, p4, p5)
		}
	case 63:
		f = func(p0 M, p1 interface{}, p2 P, p3 *int, p4 []string, p5 error) string {
			return rec(p0, p1, p2, p3, p4, p5)
		}
	case 64:
		f = func(p0 interface{}, p1 P, p2 *int, p3 []string, p4 error, p5 M) string {
			return rec(p0, p1, p2, p3, p4, p5)
		}
	case 65:
		f = func(p0 P, p1 *int, p2 []string, p3 error, p4 M, p5 interface{}) string {
			return rec(p0, p1, p2, p3, p4, p5)
		}
	}
	sym.Assert(p.RegisterFunction("f", f) == nil, "function registers")
	x := sym.Int("x")
	e := &c27Err{"e"}
	vals := []interface{}{&x, []string{sym.Str("s", 1)}, e, M{"k": x}, x, &wRec{I: x}}
	zero := []interface{}{(*int)(nil), []string(nil), nil, M(nil), nil, P(nil)}
	typs := []reflect.Type{reflect.TypeOf(&x), reflect.TypeOf([]string{}), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf(M{}), reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf(P(nil))}
	var fields []reflect.StructField
	for i := range typs {
		fields = append(fields, reflect.StructField{Name: "F" + strconv.Itoa(i), Type: typs[i]})
		sym.Assert(p.DefineVariable("v"+strconv.Itoa(i), typs[i]) == nil, "variable can be defined")
	}
	h := reflect.New(reflect.StructOf(fields))
	sym.Assert(p.DefineVariable("h", h.Type()) == nil, "variable can be defined")
	var vars []kv
	want := make([]interface{}, n)
	ref := []string{"$v", "$h.F"}[sym.Choice("place", 2)]
	tpl := ""
	for i := 0; i < n; i++ {
		k := (rot + i) % 6
		want[i] = zero[k]
		if sym.Choice("nil"+strconv.Itoa(i), 2) == 0 {
			want[i] = vals[k]
			vars = append(vars, v("v"+strconv.Itoa(k), vals[k]))
			h.Elem().Field(k).Set(reflect.ValueOf(vals[k]))
		}
		if i > 0 {
			tpl += ", "
		}
		tpl += ref + strconv.Itoa(k)
	}
	tpl = "<$f(" + tpl + ")>"
	ex, ns, err := p.Compile([]byte(tpl))
	sym.Assert(err == nil, "compiles: "+tpl)
	st := ns()
	set(st, append(vars, v("h", h.Interface()))...)
	sym.Assert(ex.Exec(st) == nil, "executes: "+tpl)
	sym.Assert(st.Buffer.String() == "<.>" && len(got) == n, "called")
	for i := 0; i < n; i++ {
		w := want[i]
		ok := false
		switch y := got[i].(type) {
		case nil:
			ok = w == nil
		case int:
			ok = w == x && y == x
		case *int, error:
			ok = w == y
		case P:
			ok = w == y
		case []string:
			z := w.([]string)
			ok = (y == nil) == (z == nil) && len(y) == len(z) && (len(y) == 0 || y[0] == z[0])
		case M:
			z := w.(M)
			ok = (y == nil) == (z == nil) && len(y) == len(z) && y["k"] == z["k"]
		}
		sym.Assert(ok, "argument "+strconv.Itoa(i)+" of "+tpl)
	}
	sym.Reach("end")
}

// C08_compound: what follows += -= *= /= in the step of a loop is one operand.
func C08_compound() {
	n := 1 + sym.Choice("n", sym.N(3, 4))
	names := []string{"a", "b", "c", "d"}
	var ts []tok8
	var at []int
	vars := []kv{v("x", sym.Int("x")), v("k", 0)}
	for i := 0; i < n; i++ {
		if i > 0 {
			ts = append(ts, tok8{s: choose("op", "+", "-", "*", "/")})
		}
		at = append(at, len(ts))
		if i == 0 && sym.Choice("lit", 2) == 1 {
			ts = append(ts, tok8{s: "7", opd: true, v: val8{i: 7}})
			continue
		}
		x := sym.Int(names[i])
		vars = append(vars, v(names[i], x))
		ts = append(ts, tok8{s: "$" + names[i], opd: true, v: val8{i: x}})
	}
	if n > 2 {
		ts = group8(ts, at, "group")
	}
	op := choose("compound", "+", "-", "*", "/")
	e := text8(ts, true)
	want := apply8(op, val8{i: vars[0].val.(int)}, (&eval8{t: ts}).expr(1))
	tpl := "#for($j = 0; $k < 1; $x " + op + "= " + e + ")#set($k = $k + 1)#end$x"
	sym.Assert(render(tpl, vars...) == strconv.Itoa(want.i), "conventional grouping: "+tpl)
	sym.Reach("end")
}
